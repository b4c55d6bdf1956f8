package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

type c27op struct {
	Op     string `json:"op"`
	Lang   string `json:"lang,omitempty"`
	Word   fw.S   `json:"word,omitempty"`
	Scheme string `json:"scheme,omitempty"`
	Want   fw.S   `json:"want,omitempty"` // filled in for a fresh process
}

type c27case struct {
	Fresh  bool      `json:"fresh"`  // in a process which has done nothing before
	Stable []string  `json:"stable"` // languages which nobody unloads
	Gs     [][]c27op `json:"gs"`
	Spec   *gen.Spec `json:"spec,omitempty"`

	Stress bool `json:"stress,omitempty"` // the known finding; see stressMain
}

var c27schemes = []string{"verif-a", "verif-b", "가"}

func genC27(t *rapid.T) c27case {
	x := c27case{Fresh: gen.Chance(t, 20, "fresh")}
	ls := map[string]bool{}
	// The dictionary takes 10 seconds to load with the race detector.
	all := langsExcept("furigana")
	if gen.Chance(t, 1, "japanese") {
		all = langs
	}
	for n := gen.Range(t, 1, 3, "langs"); n > 0; n-- {
		ls[genLang(t, all)] = true
	}
	if gen.Chance(t, 50, "cyrillic") {
		ls[gen.Pick(t, intersect(translitLangs, all), "lang")] = true
	}
	own := gen.Keys(ls)
	if gen.Chance(t, 60, "stable") {
		x.Stable = own
	} else {
		x.Stable = []string{}
	}
	if gen.Chance(t, 30, "spec") {
		x.Spec = gen.GenSpec(t)
	}
	// A few words are shared between the goroutines.
	type lw struct{ lang, word string }
	var words []lw
	for n := gen.Range(t, 1, 4, "words"); n > 0; n-- {
		l := gen.Pick(t, own, "lang")
		words = append(words, lw{l, gen.Word(t, gen.DataOf(model.Bundled(l)))})
	}
	for g := gen.Range(t, 2, 6, "goroutines"); g > 0; g-- {
		var ops []c27op
		for n := gen.Range(t, 1, 10, "ops"); n > 0; n-- {
			op := c27op{Op: gen.Pick(t, []string{"word", "word", "word", "shared", "shared", "own", "load", "load", "load", "unload", "list", "parse", "use", "use", "unuse", "unuse", "has", "install", "translit"}, "op")}
			w := gen.Pick(t, words, "word")
			op.Lang = w.lang
			switch op.Op {
			case "word", "shared", "own", "parse", "translit":
				op.Word = fw.S(w.word)
			case "use", "unuse", "has":
				op.Lang, op.Scheme = "", gen.Pick(t, c27schemes, "scheme")
			case "unload":
				if len(x.Stable) > 0 {
					op.Lang = gen.Pick(t, langsExcept2(x.Stable), "other")
				}
			}
			ops = append(ops, op)
		}
		x.Gs = append(x.Gs, ops)
	}
	return x
}

func intersect(a, b []string) []string {
	var out []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
			}
		}
	}
	return out
}

func langsExcept2(not []string) []string {
	var out []string
	for _, l := range langs {
		ok := true
		for _, n := range not {
			ok = ok && l != n
		}
		if ok {
			out = append(out, l)
		}
	}
	return out
}

// The registry of the package as a set of schemes, for Porcupine.
type regIn struct{ op, scheme string }

var regModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		for _, o := range h {
			s := o.Input.(regIn).scheme
			by[s] = append(by[s], o)
		}
		var out [][]porcupine.Operation
		for _, s := range gen.Keys(by) {
			out = append(out, by[s])
		}
		return out
	},
	Init: func() any { return false },
	Step: func(state, in, out any) (bool, any) {
		has, ok := state.(bool), out.(bool)
		switch in.(regIn).op {
		case "use":
			return ok == !has, true
		case "unuse":
			return ok == has, false
		}
		return ok == has, has
	},
	Equal: func(a, b any) bool { return a.(bool) == b.(bool) },
	DescribeOperation: func(in, out any) string {
		return fmt.Sprintf("%s(%s) = %v", in.(regIn).op, in.(regIn).scheme, out)
	},
}

// runC27 runs the operations; those on words know what they want.
func runC27(x c27case, firstInstall bool) error {
	var (
		wg    sync.WaitGroup
		start = make(chan struct{})
		mu    sync.Mutex
		errs  []error
		hist  []porcupine.Operation
		specs = map[string]*hangulize.Spec{}
		t0    = time.Now()

		installs atomic.Int64
	)
	fail := func(f string, a ...any) {
		mu.Lock()
		errs = append(errs, fmt.Errorf(f, a...))
		mu.Unlock()
	}
	defer func() {
		for _, s := range c27schemes {
			hangulize.UnuseTranslit(s)
		}
	}()
	stable := map[string]bool{}
	for _, l := range x.Stable {
		stable[l] = true
	}

	if firstInstall {
		// The first use of all: exactly one Install wins.
		for range x.Gs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if translit.Install() {
					installs.Add(1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if n := installs.Load(); n != 1 {
			return fmt.Errorf("%d of %d concurrent Installs have installed, want 1", n, len(x.Gs))
		}
		start = make(chan struct{})
	}

	shared := map[string]hangulize.Hangulizer{}
	for _, ops := range x.Gs {
		for _, op := range ops {
			if op.Op == "shared" && shared[op.Lang] == nil {
				h, err := newHangulizer(op.Lang)
				if err != nil {
					return err
				}
				shared[op.Lang] = h
			}
		}
	}
	if firstInstall {
		for l := range shared {
			if !stable[l] {
				hangulize.UnloadSpec(l)
			}
		}
	}
	var src string
	if x.Spec != nil {
		m, err := x.Spec.Model()
		if err == nil {
			src = gen.SpecSource(m)
		}
	}

	run := func(g int, op c27op) {
		verify := func(got string, err error) {
			if err != nil || got != string(op.Want) {
				fail("%s: %s: %s becomes %s (%v), want %s", op.Op, op.Lang, q(string(op.Word)), q(got), err, q(string(op.Want)))
			}
		}
		word := string(op.Word)
		switch op.Op {
		case "word":
			verify(hangulize.Hangulize(op.Lang, word))
		case "shared":
			verify(shared[op.Lang].Hangulize(word))
		case "own":
			h, err := newHangulizer(op.Lang)
			if err != nil {
				fail("own: %w", err)
				return
			}
			last := word
			h.Trace(func(t hangulize.Trace) { last = t.Word })
			got, err := h.Hangulize(word)
			verify(got, err)
			if err == nil && last != got && !strings.Contains(word, "\x00") {
				fail("own: %s: %s: the last event has %s, the result is %s", op.Lang, q(word), q(last), q(got))
			}
		case "parse":
			if src != "" {
				if _, err := hangulize.ParseSpec(strings.NewReader(src)); err != nil {
					fail("parse: %w", err)
				}
			}
			spec, err := hangulize.ParseSpec(strings.NewReader(model.Source(op.Lang)))
			if err != nil {
				fail("parse: %w", err)
				return
			}
			h, err := withTranslits(spec)
			if err != nil {
				fail("parse: %w", err)
				return
			}
			verify(h.Hangulize(word))
		case "translit":
			for _, s := range model.Bundled(op.Lang).Translit {
				tr := nativeTranslit(s)
				a, err := tr.Transliterate(word)
				b, err2 := tr.Transliterate(word)
				if err != nil || err2 != nil || a != b {
					fail("translit: %s: %s becomes %s and %s (%v, %v)", s, q(word), q(a), q(b), err, err2)
				}
			}
		case "load":
			spec, err := hangulize.LoadSpec(op.Lang)
			if err != nil || spec.Lang.ID != op.Lang {
				fail("load: %s: %v", op.Lang, err)
				return
			}
			if stable[op.Lang] {
				mu.Lock()
				was := specs[op.Lang]
				specs[op.Lang] = spec
				mu.Unlock()
				if was != nil && was != spec {
					fail("load: %s: two different specs though nobody unloads it", op.Lang)
				}
			}
		case "unload":
			hangulize.UnloadSpec(op.Lang)
		case "list":
			ls := hangulize.ListLangs()
			if !reflect.DeepEqual(ls, langs) {
				fail("list: %q", ls)
			}
			for i := range ls {
				ls[i] = "changed"
			}
		case "install":
			if translit.Install() {
				fail("install: installed twice")
			}
			if ts := hangulize.Translits(); len(ts) < len(translit.Translits()) {
				fail("install: %d Translits", len(ts))
			}
		case "use", "unuse", "has":
			call := time.Since(t0)
			var ok bool
			switch op.Op {
			case "use":
				ok = hangulize.UseTranslit(&fake{scheme: op.Scheme})
			case "unuse":
				ok = hangulize.UnuseTranslit(op.Scheme)
			default:
				ts := hangulize.Translits()
				ok = ts[op.Scheme] != nil
				delete(ts, op.Scheme)
				ts["mine"] = nil
			}
			ret := time.Since(t0)
			mu.Lock()
			hist = append(hist, porcupine.Operation{ClientId: g, Input: regIn{op.Op, op.Scheme}, Call: int64(call), Output: ok, Return: int64(ret)})
			mu.Unlock()
		}
	}
	for g, ops := range x.Gs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fail("panic: %v", r)
				}
			}()
			<-start
			for _, op := range ops {
				run(g, op)
				runtime.Gosched()
			}
		}()
	}
	close(start)
	wg.Wait()
	for l := range stable {
		if spec, err := hangulize.LoadSpec(l); err != nil || specs[l] != nil && specs[l] != spec {
			fail("load: %s: another spec at the end (%v)", l, err)
		}
	}
	if len(errs) > 0 {
		return errors.Join(errs...)
	}
	if porcupine.CheckOperationsTimeout(regModel, hist, 10*time.Second) == porcupine.Illegal {
		var b strings.Builder
		for _, o := range hist {
			fmt.Fprintf(&b, "%d: [%d, %d] %s\n", o.ClientId, o.Call, o.Return, regModel.DescribeOperation(o.Input, o.Output))
		}
		return fmt.Errorf("the history of the registry is not that of a set:\n%s", b.String())
	}
	return nil
}

// concMain runs a case in a fresh process.
func concMain() {
	var x c27case
	if err := json.NewDecoder(os.Stdin).Decode(&x); err != nil {
		panic(err)
	}
	if err := runC27(x, true); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

func checkC27(c *fw.Ctx, x c27case) error {
	if x.Stress {
		return runStress(c.Env)
	}
	ops := 0
	var (
		items []batchItem
		wants []*fw.S
	)
	for g, gs := range x.Gs {
		x.Gs[g] = append([]c27op{}, gs...)
		for i := range x.Gs[g] {
			op := &x.Gs[g][i]
			ops++
			switch op.Op {
			case "word", "shared", "own", "parse":
				items = append(items, batchItem{op.Lang, op.Word})
				wants = append(wants, &op.Want)
			}
		}
	}
	ww := len(wants)
	if x.Fresh {
		// In a process without the race detector, to save time.
		out, err := runBatch(c.Env.Self, items)
		if err != nil {
			return err
		}
		for i := range out {
			*wants[i] = out[i]
		}
	} else {
		if err := installGlobally(); err != nil {
			return err
		}
		for i, it := range items {
			h, err := sharedHangulizer(it.Lang)
			if err != nil {
				return err
			}
			r, err := h.Hangulize(string(it.Word))
			if err != nil {
				return err
			}
			*wants[i] = fw.S(r)
		}
	}
	c.NonTrivialIf(len(x.Gs) >= 2 && ops >= 6 && ww >= 2)
	c.Extra += ops
	if !x.Fresh {
		return runC27(x, false)
	}
	c.Label("fresh process")
	in, _ := json.Marshal(x)
	p := exec.Command(c.Env.Self+".race", "conc")
	p.Stdin = bytes.NewReader(in)
	out, err := p.CombinedOutput()
	if err != nil {
		if len(out) > 6000 {
			out = out[:6000]
		}
		return fmt.Errorf("in a fresh process: %w\n%s", err, out)
	}
	return nil
}

func init() {
	fw.Hooks["conc"] = concMain
	fw.Reg("C27",
		"A case is 2 to 6 goroutines with up to 10 operations each: transcribing (by the package-level function, a shared Hangulizer, own traced ones, fresh parses), loading and unloading specs, listing languages, using Translits directly, adding and removing Translits of the default registry, and installing the standard ones; in this process, or as the first thing a fresh process does. The build has the race detector, which must stay silent; every transcription must be the sequential one, specs which nobody unloads must be the same object, exactly one of the first concurrent Installs wins, and the history of the registry must be linearizable as a set (Porcupine). Non-trivial: at least 6 operations of which 2 transcribe.",
		genC27, checkC27,
		func(p *fw.Prop) {
			p.Race, p.Plain = true, true
			p.Batch = 10
			p.Quick = 25 * time.Second
			p.CaseTimeout = 200 * time.Second
		},
		fw.FixedCases(func(e *fw.Env) (out []c27case) {
			// The first use of everything at once.
			for _, ls := range [][]string{{"jpn", "chi"}, {"rus", "bul", "ukr"}, {"chi"}, {"ita"}} {
				x := c27case{Fresh: true, Stable: ls}
				for g := 0; g < 6; g++ {
					var ops []c27op
					for _, l := range ls {
						ex := model.Bundled(l).Test
						ops = append(ops, c27op{Op: []string{"word", "load", "own"}[g%3], Lang: l, Word: fw.S(ex[g%len(ex)][0])},
							c27op{Op: "translit", Lang: l, Word: fw.S(ex[g%len(ex)][0])})
					}
					x.Gs = append(x.Gs, ops)
				}
				out = append(out, x)
			}
			return
		}))
}
