package fw

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of a worker.
const (
	ExitOK      = 0
	ExitFail    = 10 // a case failed; see fail.json
	ExitMemory  = 97
	ExitTimeout = 98
)

func stack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Failure is a failed case, which is also the replay file.
type Failure struct {
	Property string          `json:"property"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Shard    int             `json:"shard"`
	Shrunk   bool            `json:"shrunk"`

	// The run which met it, if it does not fail alone.
	Shards  int `json:"shards,omitempty"`
	Seconds int `json:"seconds,omitempty"`
}

// Stats is what a worker covered.
type Stats struct {
	Evaluations int            `json:"evaluations"`
	Fixed       int            `json:"fixed"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Rejected    int            `json:"rejected"`
}

const memLimit = 3 << 30

type worker struct {
	p     *Prop
	env   *Env
	dir   string
	shard int

	cur     *os.File
	started atomic.Int64 // unix nano of the current case, 0 if idle
	stats   Stats
	slowest time.Duration
	hashes  map[uint64]struct{}
}

func newWorker(p *Prop, env *Env, dir string, shard int) *worker {
	w := &worker{p: p, env: env, dir: dir, shard: shard}
	w.stats.Labels = map[string]int{}
	w.hashes = map[uint64]struct{}{}
	f, err := os.Create(filepath.Join(dir, "current"))
	if err != nil {
		panic(err)
	}
	w.cur = f
	return w
}

func (w *worker) monitor() {
	var ms runtime.MemStats
	n := 0
	for {
		time.Sleep(100 * time.Millisecond)
		s := w.started.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > w.p.CaseTimeout {
			fmt.Fprintf(os.Stderr, "timeout: a case took longer than %v\n", w.p.CaseTimeout)
			os.Exit(ExitTimeout)
		}
		if n++; n%3 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				fmt.Fprintf(os.Stderr, "memory: the heap is larger than %d bytes\n", uint64(memLimit))
				os.Exit(ExitMemory)
			}
		}
	}
}

// eval checks one case.
func (w *worker) eval(v any, count bool) ([]byte, error) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	// The case is on disk before it runs, so a crash or a hang is replayable.
	var hdr [4]byte
	binary.LittleEndian.PutUint32(hdr[:], uint32(len(b)))
	_, _ = w.cur.WriteAt(append(hdr[:], b...), 0)

	ctx := &Ctx{Env: w.env, Labels: w.stats.Labels}
	if !count {
		ctx.Labels = map[string]int{}
	}
	w.started.Store(time.Now().UnixNano())
	t0 := time.Now()
	cerr := w.p.Check(ctx, v)
	w.started.Store(0)
	if d := time.Since(t0); d > w.slowest {
		w.slowest = d
		if d > 3*time.Second && os.Getenv("VERIF_SLOW") != "" {
			fmt.Fprintf(os.Stderr, "slow %v: %.300s\n", d, b)
		}
	}

	if count {
		w.stats.Evaluations += 1 + ctx.Extra
		if ctx.nontrivial {
			h := fnv.New64a()
			h.Write(b)
			sum := h.Sum64()
			if _, ok := w.hashes[sum]; !ok {
				w.hashes[sum] = struct{}{}
				n := len(w.hashes)
				if n <= 2 || (n <= 400 && n%100 == 0) {
					if len(b) < 3000 {
						w.stats.Samples = append(w.stats.Samples, json.RawMessage(b))
					}
				}
			}
		}
	}
	return b, cerr
}

func (w *worker) save() {
	w.stats.Nontrivial = len(w.hashes)
	b, _ := json.Marshal(w.stats)
	_ = os.WriteFile(filepath.Join(w.dir, "stats.json"), b, 0o644)
	buf := make([]byte, 0, len(w.hashes)*8)
	for h := range w.hashes {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	_ = os.WriteFile(filepath.Join(w.dir, "hashes"), buf, 0o644)
}

func (w *worker) fail(b []byte, msg string, shrunk bool) {
	f := Failure{Property: w.p.ID, Case: b, Message: msg, Seed: w.env.Seed, Shard: w.shard, Shrunk: shrunk}
	out, _ := json.MarshalIndent(f, "", " ")
	_ = os.WriteFile(filepath.Join(w.dir, "fail.json"), out, 0o644)
}

// tb implements rapid.TB.
type tb struct {
	failed  bool
	logs    []string
	skipped bool
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.skipped = true; runtime.Goexit() }
func (t *tb) Skip(a ...any)             { t.skipped = true; runtime.Goexit() }
func (t *tb) SkipNow()                  { t.skipped = true; runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.failed = true; runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.failed = true; runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		panic(err)
	}
}

// WorkerMain generates and checks cases until the deadline.
func WorkerMain(p *Prop, env *Env, dir string, shard, shards int, dur time.Duration) int {
	debug.SetGCPercent(200)
	w := newWorker(p, env, dir, shard)
	go w.monitor()

	deadline := time.Now().Add(dur)

	// The deterministic cases first.
	if p.Fixed != nil {
		for i, v := range p.Fixed(env) {
			if i%shards != shard {
				continue
			}
			b, err := w.eval(v, true)
			w.stats.Fixed++
			if err != nil {
				w.fail(b, err.Error(), false)
				w.save()
				return ExitFail
			}
		}
	}

	if p.Gen == nil {
		w.save()
		return ExitOK
	}

	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.checks", fmt.Sprint(p.Batch))
	if p.FailSlow {
		setFlag("rapid.shrinktime", "0s")
	} else {
		setFlag("rapid.shrinktime", "15s")
	}

	for round := uint64(0); time.Now().Before(deadline); round++ {
		seed := splitmix(splitmix(env.Seed) ^ splitmix(uint64(shard)<<32|round))
		if seed == 0 {
			seed = 1
		}
		setFlag("rapid.seed", fmt.Sprint(seed))

		var (
			lastCase []byte
			lastMsg  string
			failed   bool
		)
		t := &tb{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(t, func(rt *rapid.T) {
				if !failed && time.Now().After(deadline.Add(2*time.Second)) {
					return // out of time within a batch
				}
				v := p.Gen(rt)
				b, err := w.eval(v, !failed)
				if err != nil {
					failed = true
					lastCase, lastMsg = b, err.Error()
					rt.Fatalf("%s", "violated")
				}
			})
		}()
		<-done
		if failed {
			w.fail(lastCase, lastMsg, true)
			w.save()
			return ExitFail
		}
		if t.failed {
			// rapid itself gave up (for example the generator rejects too
			// much): that is an error of the check.
			fmt.Fprintln(os.Stderr, "rapid:", strings.Join(t.logs, "\n"))
			w.save()
			return 3
		}
	}
	w.save()
	return ExitOK
}

// ReplayMain checks the single case of a replay file in isolation.
func ReplayMain(p *Prop, env *Env, dir string, file string) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Failure
	if err := json.Unmarshal(raw, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := p.New()
	if err := json.Unmarshal(f.Case, v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w := newWorker(p, env, dir, 0)
	w.p.CaseTimeout = 4 * w.p.CaseTimeout
	go w.monitor()
	b, cerr := w.eval(v, true)
	w.save()
	if cerr != nil {
		fmt.Println(cerr)
		w.fail(b, cerr.Error(), false)
		return ExitFail
	}
	return ExitOK
}
