#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (or: check.sh --replay PROPERTY FILE)
# Builds the harness against /repo's current working tree and runs one check.
START=$PWD
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export GOSUMDB=off
export VERIF_DIR="$HERE"
export LANG=C.UTF-8 LC_ALL=C.UTF-8 RUNEWIDTH_EASTASIAN=0
WORK=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
cd "$HERE/harness" || exit 2

# Kagome, the Japanese tokenizer hangulize depends on, reuses lattice nodes
# without resetting their cost, so its results depend on what other goroutines
# did before (the known finding of C02). Everything is built with a copy of
# the dependency where new nodes have no cost, to keep this finding from
# disturbing the checks. "worker-known" is the build without this.
KAGOME=github.com/ikawaha/kagome.ipadic
SRC=$(go list -m -f '{{.Dir}}' $KAGOME) && [ -n "$SRC" ] || { echo "kagome is not in the module cache" >&2; exit 2; }
K="$HERE/.build/kagome"
(
    cd "$SRC" || exit 1
    find . -name '*.go' ! -name '*_test.go' ! -path './cmd/*' ! -path './_*' -printf '%P\n' | while read -r f; do
        [ -e "$K/$f" ] && continue
        mkdir -p "$K/$(dirname "$f")" && ln -sf "$SRC/$f" "$K/$f"
    done
    ln -sf "$SRC/go.mod" "$K/go.mod"
    N=internal/lattice/node.go
    sed 's/^\treturn nodePool.Get().(\*node)$/\tn := nodePool.Get().(*node)\n\tn.Cost = 0\n\treturn n/' $N > "$WORK/node.go"
    cmp -s "$WORK/node.go" "$K/$N" || mv -f "$WORK/node.go" "$K/$N"
) || { echo "cannot copy kagome" >&2; exit 2; }
for m in harness repo; do
    d="$HERE/harness"; [ $m = repo ] && d=/repo
    cp "$d/go.mod" "$WORK/$m.mod" && cp "$d/go.sum" "$WORK/$m.sum" || exit 2
    echo "replace $KAGOME => $K" >> "$WORK/$m.mod"
done
export VERIF_MODFILES="$WORK"

go build -modfile "$WORK/harness.mod" -o "$WORK/vharness" . || { echo "the harness does not build against /repo" >&2; exit 2; }
if [ "$1" = --build-only ]; then
    "$WORK/vharness" list
elif [ "$1" = --replay ]; then
    "$WORK/vharness" replay "$2" "$(cd "$START" && realpath "$3")"
else
    "$WORK/vharness" check "$@"
fi
