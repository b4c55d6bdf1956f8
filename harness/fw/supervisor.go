package fw

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
)

// Known is a line of the known-findings file which is not fixed.
type Known struct {
	Property string
	Case     json.RawMessage
	What     string
}

// ReadKnown reads the "known:" lines of a property:
//
//	known: property=C09 case={"expr":...} what fails
//
// The lines "fixed: property=..." record repaired defects and suppress nothing.
func ReadKnown(file, id string) ([]Known, error) {
	raw, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil
	} else if err != nil {
		return nil, err
	}
	var out []Known
	for _, line := range strings.Split(string(raw), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: ")
		var k Known
		prop, rest, _ := strings.Cut(rest, " ")
		k.Property = strings.TrimPrefix(prop, "property=")
		rest = strings.TrimPrefix(rest, "case=")
		dec := json.NewDecoder(strings.NewReader(rest))
		if err := dec.Decode(&k.Case); err != nil {
			return nil, fmt.Errorf("%s: %q: %w", file, line, err)
		}
		if k.Property != id {
			continue
		}
		k.What = strings.TrimSpace(rest[dec.InputOffset():])
		out = append(out, k)
	}
	return out, nil
}

type shardResult struct {
	shard  int
	code   int
	stderr string
	dir    string
}

// Supervise runs the check of a property and returns the exit code.
func Supervise(p *Prop, env *Env) int {
	start := time.Now()

	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	if n := runtime.NumCPU(); shards > n && p.Shards == 0 {
		shards = n
	}
	dur := p.Quick
	if env.Tier == "thorough" {
		dur = p.Thorough
	}
	if s := os.Getenv("VERIF_SECONDS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			dur = time.Duration(n) * time.Second
		}
	}

	known, err := ReadKnown(filepath.Join(env.Verif, "KNOWN_FINDINGS.txt"), p.ID)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := build(p, env, known); err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		return 2
	}
	suppressed := map[string]bool{}
	knownHit := 0
	for i, k := range known {
		suppressed[canonJSON(k.Case)] = true
		f := Failure{Property: p.ID, Case: k.Case}
		file := filepath.Join(env.Scratch, fmt.Sprintf("known%d.json", i))
		b, _ := json.Marshal(f)
		if err := os.WriteFile(file, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r := runReplay(p, env, file, fmt.Sprintf("known%d", i))
		if r.code != ExitOK {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
			knownHit++
		} else if p.Plain {
			// It needs an unlucky schedule.
			fmt.Printf("KNOWN-FINDING: property=%s %s (not reproduced in this run)\n", p.ID, k.What)
		}
	}

	// Run the shards.
	results := make(chan shardResult, shards)
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	stopped := false
	for i := 0; i < shards; i++ {
		go func(i int) {
			var r shardResult
			for try := 0; ; try++ {
				r = runWorker(p, env, i, shards, dur-time.Since(start)/1000, try, func(c *exec.Cmd) {
					mu.Lock()
					procs[i] = c
					mu.Unlock()
				})
				mu.Lock()
				s := stopped
				mu.Unlock()
				// A worker killed from outside (out of memory of the whole
				// sandbox, for example) says nothing: try once more.
				if r.code == -1 && !s && try == 0 {
					continue
				}
				break
			}
			results <- r
		}(i)
	}

	var (
		violation string
		message   string
		errs      []string
		notes     []string
		dirs      []string
	)
	for n := 0; n < shards; n++ {
		r := <-results
		dirs = append(dirs, r.dir)
		if violation != "" {
			continue
		}
		if os.Getenv("VERIF_SLOW") != "" {
			fmt.Fprint(os.Stderr, r.stderr)
		}
		switch r.code {
		case ExitOK:
			continue
		case ExitFail:
			raw, err := os.ReadFile(filepath.Join(r.dir, "fail.json"))
			if err != nil {
				errs = append(errs, err.Error())
				continue
			}
			var f Failure
			if err := json.Unmarshal(raw, &f); err != nil {
				errs = append(errs, err.Error())
				continue
			}
			if suppressed[canonJSON(f.Case)] {
				continue
			}
			f.Shards, f.Seconds = shards, int(dur.Seconds())
			violation, message = saveReplay(env, p, f), f.Message
		case 3:
			errs = append(errs, fmt.Sprintf("shard %d: %.600s", r.shard, r.stderr))
			continue
		default:
			// A crash, a hang or a memory exhaustion: the case is on disk.
			c, err := readCurrent(r.dir)
			if err != nil || len(c) == 0 {
				errs = append(errs, fmt.Sprintf("shard %d exited with %d: %s", r.shard, r.code, r.stderr))
				continue
			}
			msg := fmt.Sprintf("the process died with exit code %d: %s", r.code, tail(r.stderr, 3000))
			f := Failure{Property: p.ID, Case: c, Message: msg, Seed: env.Seed, Shard: r.shard, Shards: shards, Seconds: int(dur.Seconds())}
			file := filepath.Join(env.Scratch, fmt.Sprintf("crash%d.json", r.shard))
			b, _ := json.Marshal(f)
			_ = os.WriteFile(file, b, 0o644)
			if suppressed[canonJSON(f.Case)] {
				continue
			}
			confirmed := false
			for i := 0; i < 3 && !confirmed; i++ {
				rr := runReplay(p, env, file, fmt.Sprintf("crash%d-%d", r.shard, i))
				confirmed = rr.code != ExitOK && rr.code != -1
			}
			fatal := strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "DATA RACE") ||
				strings.Contains(r.stderr, "panic:")
			if confirmed || (fatal && r.code != ExitMemory && r.code != ExitTimeout) {
				violation, message = saveReplay(env, p, f), msg
			} else {
				notes = append(notes, fmt.Sprintf("shard %d exited with %d but its case passes in isolation", r.shard, r.code))
			}
		}
		if violation != "" {
			mu.Lock()
			stopped = true
			for _, c := range procs {
				if c.Process != nil {
					_ = c.Process.Kill()
				}
			}
			mu.Unlock()
		}
	}

	ev := evidence(p, env, dirs, start)
	if violation != "" {
		ev["violations"] = 1
	} else {
		ev["violations"] = 0
	}
	cov := ev["coverage"].(map[string]any)
	cov["known_findings_reproduced"] = knownHit
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	out, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(env.Verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(env.Verif, "evidence", p.ID+".json"), append(out, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if violation != "" {
		fmt.Println(printable(tail(message, 4000)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, violation)
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		return 2
	}
	fmt.Printf("ok property=%s evaluations=%v distinct_nontrivial=%v wall=%.1fs\n",
		p.ID, cov["evaluations"], cov["distinct_nontrivial"], time.Since(start).Seconds())
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func canonJSON(b []byte) string {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return string(b)
	}
	out, _ := json.Marshal(v)
	return string(out)
}

func saveReplay(env *Env, p *Prop, f Failure) string {
	dir := filepath.Join(env.Verif, "evidence", "replays")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(f, "", " ")
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", p.ID, env.Tier, env.Seed))
	_ = os.WriteFile(name, append(b, '\n'), 0o644)
	return name
}

func readCurrent(dir string) ([]byte, error) {
	raw, err := os.ReadFile(filepath.Join(dir, "current"))
	if err != nil || len(raw) < 4 {
		return nil, err
	}
	n := int(binary.LittleEndian.Uint32(raw))
	if n > len(raw)-4 {
		return nil, fmt.Errorf("short current case")
	}
	return raw[4 : 4+n], nil
}

func writeEnv(env *Env, dir string) string {
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.Marshal(env)
	file := filepath.Join(dir, "env.json")
	_ = os.WriteFile(file, b, 0o644)
	return file
}

func workerBin(p *Prop, env *Env) string {
	if p.Race {
		return env.Self + ".race"
	}
	return env.Self
}

func childEnv() []string {
	out := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GORACE=halt_on_error=1 exitcode=66")
}

func runWorker(p *Prop, env *Env, shard, shards int, dur time.Duration, try int, started func(*exec.Cmd)) shardResult {
	dir := filepath.Join(env.Scratch, fmt.Sprintf("shard%d-%d", shard, try))
	ef := writeEnv(env, dir)
	c := exec.Command(workerBin(p, env), "worker", p.ID, ef, dir, fmt.Sprint(shard), fmt.Sprint(shards), fmt.Sprint(dur.Milliseconds()))
	var stderr bytes.Buffer
	c.Stderr = &stderr
	c.Dir = dir
	c.Env = childEnv()
	if err := c.Start(); err != nil {
		return shardResult{shard, 2, err.Error(), dir}
	}
	started(c)
	_ = c.Wait()
	return shardResult{shard, c.ProcessState.ExitCode(), stderr.String(), dir}
}

func runReplay(p *Prop, env *Env, file, name string) shardResult {
	dir := filepath.Join(env.Scratch, name)
	ef := writeEnv(env, dir)
	c := exec.Command(workerBin(p, env), "worker-replay", p.ID, ef, dir, file)
	var stderr, stdout bytes.Buffer
	c.Stderr = &stderr
	c.Stdout = &stdout
	c.Dir = dir
	c.Env = childEnv()
	if err := c.Start(); err != nil {
		return shardResult{0, 2, err.Error(), dir}
	}
	_ = c.Wait()
	return shardResult{0, c.ProcessState.ExitCode(), stdout.String() + stderr.String(), dir}
}

// Replay re-runs a replay file: exit 1 if it still fails.
func Replay(p *Prop, env *Env, file string) int {
	if abs, err := filepath.Abs(file); err == nil {
		file = abs
	}
	known, err := ReadKnown(filepath.Join(env.Verif, "KNOWN_FINDINGS.txt"), p.ID)
	if err == nil {
		err = build(p, env, known)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		return 2
	}
	r := runReplay(p, env, file, "replay")
	fmt.Println(printable(r.stderr))
	if r.code == ExitOK {
		// The case may need what its process did before: run the same cases
		// again in the same order.
		var f Failure
		raw, err := os.ReadFile(file)
		if err == nil {
			err = json.Unmarshal(raw, &f)
		}
		if err != nil || f.Shards == 0 {
			fmt.Println("the case passes")
			return 0
		}
		fmt.Println("the case passes alone; running the cases before it")
		env.Seed = f.Seed
		r = runWorker(p, env, f.Shard, f.Shards, time.Duration(f.Seconds+30)*time.Second, 0, func(*exec.Cmd) {})
		fmt.Println(printable(r.stderr))
		if raw, err := os.ReadFile(filepath.Join(r.dir, "fail.json")); err == nil {
			fmt.Println(printable(string(raw)))
		}
		if r.code == ExitOK {
			fmt.Println("all of them pass")
			return 0
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
	return 1
}

func evidence(p *Prop, env *Env, dirs []string, start time.Time) map[string]any {
	total := Stats{Labels: map[string]int{}}
	union := map[uint64]struct{}{}
	for _, d := range dirs {
		var s Stats
		raw, err := os.ReadFile(filepath.Join(d, "stats.json"))
		if err != nil {
			continue
		}
		if json.Unmarshal(raw, &s) != nil {
			continue
		}
		total.Evaluations += s.Evaluations
		total.Fixed += s.Fixed
		for k, v := range s.Labels {
			total.Labels[k] += v
		}
		if len(total.Samples) < 8 {
			n := 8 - len(total.Samples)
			if n > 2 {
				n = 2
			}
			if n > len(s.Samples) {
				n = len(s.Samples)
			}
			total.Samples = append(total.Samples, s.Samples[len(s.Samples)-n:]...)
		}
		hs, _ := os.ReadFile(filepath.Join(d, "hashes"))
		for ; len(hs) >= 8; hs = hs[8:] {
			union[binary.LittleEndian.Uint64(hs)] = struct{}{}
		}
	}
	labels := map[string]int{}
	keys := make([]string, 0)
	for k := range total.Labels {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		labels[k] = total.Labels[k]
	}
	if total.Samples == nil {
		total.Samples = []any{}
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     env.Tier,
		"seed":     env.Seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(union),
			"fixed_cases":         total.Fixed,
			"rule":                p.Rule,
			"samples":             total.Samples,
			"classes":             labels,
			"shards":              len(dirs),
		},
		"wall_s": time.Since(start).Seconds(),
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	return ev
}

func run(dir string, extra []string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), extra...)
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s %v: %w\n%s", name, args, err, out)
	}
	return nil
}

// WebDriver is the program which bundles and runs the web page.
var WebDriver []byte

const esbuild = "/opt/veriftools/node/node_modules/esbuild"

// modfile selects the go.mod with the patched dependency; see check.sh.
func modfile(name string) string {
	return "-modfile=" + filepath.Join(os.Getenv("VERIF_MODFILES"), name+".mod")
}

// build builds what the property needs from the current tree of the repository.
func build(p *Prop, env *Env, known []Known) error {
	if p.NeedCLI {
		env.CLI = filepath.Join(env.Scratch, "hangulize")
		if err := run(env.Repo, nil, "go", "build", modfile("repo"), "-ldflags", "-X main.version=verif-1.2.3", "-o", env.CLI, "./cmd/hangulize"); err != nil {
			return err
		}
	}
	if p.NeedMani {
		env.Mani = filepath.Join(env.Scratch, "manifest")
		if err := run(env.Repo, nil, "go", "build", modfile("repo"), "-ldflags", "-X main.version=verif-1.2.3", "-o", env.Mani, "./cmd/manifest.json"); err != nil {
			return err
		}
	}
	if p.NeedWasm {
		env.WasmDir = filepath.Join(env.Scratch, "wasm")
		if err := os.MkdirAll(env.WasmDir, 0o755); err != nil {
			return err
		}
		js := []string{"GOOS=js", "GOARCH=wasm"}
		for _, name := range []string{"hangulize.wasm", "cyrillic.translit.wasm", "furigana.translit.wasm", "pinyin.translit.wasm"} {
			if err := run(env.Repo, js, "go", "build", modfile("repo"), "-ldflags", "-X main.version=verif-1.2.3", "-o", filepath.Join(env.WasmDir, name), "./cmd/"+name); err != nil {
				return err
			}
		}
	}
	if p.NeedWeb {
		env.WebDir = filepath.Join(env.Scratch, "web")
		if err := os.MkdirAll(env.WebDir, 0o755); err != nil {
			return err
		}
		driver := filepath.Join(env.WebDir, "driver.js")
		if err := os.WriteFile(driver, WebDriver, 0o644); err != nil {
			return err
		}
		if err := run(env.Repo, nil, "node", driver, "--bundle", esbuild, filepath.Join(env.Repo, "web/src"), env.WebDir); err != nil {
			return err
		}
	}
	if p.Race {
		if err := run(filepath.Join(env.Verif, "harness"), nil, "go", "build", modfile("harness"), "-race", "-o", env.Self+".race", "."); err != nil {
			return err
		}
	}
	if p.Plain && len(known) > 0 {
		if err := run(filepath.Join(env.Verif, "harness"), nil, "go", "build", "-o", env.Self+".plain", "."); err != nil {
			return err
		}
	}
	return nil
}

// printable escapes control letters and broken UTF-8 for a terminal or a log.
func printable(s string) string {
	var b strings.Builder
	for _, r := range strings.ToValidUTF8(s, "\ufffd") {
		if r == '\n' || r == '\t' || !unicode.IsControl(r) {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "\\x%02x", r)
		}
	}
	return b.String()
}
