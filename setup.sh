#!/bin/bash
# Checks that the harness builds offline against /repo.
cd "$(dirname "$0")" && exec ./check.sh --build-only
