// vharness decides the properties of /verif/properties.jsonl by generated
// inputs. See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"verif/harness/fw"
	_ "verif/harness/props"
)

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(2)
}

func readEnv(file string) *fw.Env {
	raw, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	var env fw.Env
	if err := json.Unmarshal(raw, &env); err != nil {
		fatal(err)
	}
	return &env
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fatal(err)
	}
	return n
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vharness check|replay|list ...")
	}
	switch os.Args[1] {

	case "list":
		for _, id := range fw.IDs() {
			fmt.Println(id)
		}

	case "worker":
		p := fw.Get(os.Args[2])
		env := readEnv(os.Args[3])
		os.Exit(fw.WorkerMain(p, env, os.Args[4], atoi(os.Args[5]), atoi(os.Args[6]),
			time.Duration(atoi(os.Args[7]))*time.Millisecond))

	case "worker-replay":
		p := fw.Get(os.Args[2])
		os.Exit(fw.ReplayMain(p, readEnv(os.Args[3]), os.Args[4], os.Args[5]))

	case "check", "replay":
		p := fw.Get(os.Args[2])
		if p == nil {
			fatal("no such property:", os.Args[2])
		}
		self, err := os.Executable()
		if err != nil {
			fatal(err)
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				seed = uint64(n)
			}
		}
		tier := "quick"
		if os.Getenv("VERIF_TIER") == "thorough" {
			tier = "thorough"
		}
		if len(os.Args) > 3 && os.Args[1] == "check" {
			tier = os.Args[3]
		}
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif = "/verif"
		}
		env := &fw.Env{
			Verif: verif, Repo: "/repo", Self: self, Tier: tier, Seed: seed,
			Scratch: filepath.Join(filepath.Dir(self), "run"),
		}
		if err := os.MkdirAll(env.Scratch, 0o755); err != nil {
			fatal(err)
		}
		if os.Args[1] == "replay" {
			os.Exit(fw.Replay(p, env, os.Args[3]))
		}
		os.Exit(fw.Supervise(p, env))

	case "-h", "--help":
		fmt.Println("vharness check ID [quick|thorough] | replay ID FILE | list")

	default:
		if f := fw.Hooks[os.Args[1]]; f != nil {
			f()
			return
		}
		fatal("unknown command:", os.Args[1])
	}
}
