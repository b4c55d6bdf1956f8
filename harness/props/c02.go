package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

type c02op struct {
	Op   string `json:"op"` // word, load, unload, trace, reparse, many, broken
	Lang string `json:"lang"`
	Word fw.S   `json:"word"`
	N    int    `json:"n,omitempty"` // how many words
}

type c02case struct {
	Lang  string  `json:"lang"`
	Words []fw.S  `json:"words"`
	Ops   []c02op `json:"ops"`
	Proc  bool    `json:"proc"`

	// Before does the words of other languages also before the first use of
	// the package-level function.
	Before bool `json:"before,omitempty"`

	// Spec is the spec of a language which is not bundled.
	Spec *gen.Spec `json:"spec,omitempty"`

	Stress bool `json:"stress,omitempty"` // the known finding; see stressMain
}

type batchItem struct {
	Lang string `json:"lang"`
	Word fw.S   `json:"word"`
}

// kin are the languages whose ID begins with the ID of another, both ways.
var kin = func() map[string][]string {
	m := map[string][]string{}
	for _, a := range langs {
		for _, b := range langs {
			if a != b && (strings.HasPrefix(a, b) || strings.HasPrefix(b, a)) {
				m[a] = append(m[a], b)
			}
		}
	}
	return m
}()

// batchMain transcribes words in a fresh process.
func batchMain() {
	var items []batchItem
	if err := json.NewDecoder(os.Stdin).Decode(&items); err != nil {
		panic(err)
	}
	if err := installGlobally(); err != nil {
		panic(err)
	}
	var out []fw.S
	for _, it := range items {
		r, err := hangulize.Hangulize(it.Lang, string(it.Word))
		if err != nil {
			r = "error: " + err.Error()
		}
		out = append(out, fw.S(r))
	}
	_ = json.NewEncoder(os.Stdout).Encode(out)
}

func runBatch(self string, items []batchItem) ([]fw.S, error) {
	in, _ := json.Marshal(items)
	c := exec.Command(self, "batch")
	c.Stdin = bytes.NewReader(in)
	var stderr bytes.Buffer
	c.Stderr = &stderr
	raw, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("fresh process: %w\n%s", err, stderr.String())
	}
	var out []fw.S
	if err := json.Unmarshal(raw, &out); err != nil {
		return nil, fmt.Errorf("fresh process: %w", err)
	}
	return out, nil
}

// stressMain reproduces the known finding of Kagome: the result depends on
// which lattice nodes the other goroutines have used. It is run in a build
// without the patched dependency.
func stressMain() {
	if err := installGlobally(); err != nil {
		panic(err)
	}
	var bad atomic.Pointer[string]
	var wg sync.WaitGroup
	end := time.Now().Add(15 * time.Second)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := g; time.Now().Before(end) && bad.Load() == nil; i += 16 {
				w := jaWords[i%len(jaWords)] + jaWords[i*7%len(jaWords)]
				var was string
				for k := 0; k < 4; k++ {
					r, err := hangulize.Hangulize("jpn", w)
					if err != nil {
						panic(err)
					}
					if k > 0 && was != r {
						msg := fmt.Sprintf("%s becomes both %s and %s", w, was, r)
						bad.Store(&msg)
					}
					was = r
				}
			}
		}(g)
	}
	wg.Wait()
	if msg := bad.Load(); msg != nil {
		fmt.Println(*msg)
		os.Exit(1)
	}
}

func runStress(env *fw.Env) error {
	if out, err := exec.Command(env.Self+".plain", "stress").CombinedOutput(); err != nil {
		return fmt.Errorf("%s (%w)", out, err)
	}
	return nil
}

func init() {
	fw.Hooks["batch"] = batchMain
	fw.Hooks["stress"] = stressMain

	fw.Reg("C02",
		"A case is up to 5 words of a bundled language and a history of up to 8 operations (words of other languages, loading, unloading, tracing, re-parsing the source). Every word must get the same result from a fresh parse of the source, from the shared Hangulizer, from the package-level function before and after the history, in both orders, from a copy whose maps were built again, and (in a part of the cases) from a fresh process; a generated spec must give the same results each time it is parsed. Non-trivial: at least two words whose results have Hangul and a non-empty history.",
		func(t *rapid.T) c02case {
			if gen.Chance(t, 10, "spec") {
				x := c02case{Spec: gen.GenSpec(t)}
				m, err := x.Spec.Model()
				for n := gen.Range(t, 1, 4, "n"); err == nil && n > 0; n-- {
					x.Words = append(x.Words, fw.S(gen.SpecWord(t, x.Spec, m)))
				}
				return x
			}
			x := c02case{Lang: genLang(t, langs)}
			d := gen.DataOf(model.Bundled(x.Lang))
			for n := gen.Range(t, 1, 5, "n"); n > 0; n-- {
				x.Words = append(x.Words, fw.S(gen.Word(t, d)))
			}
			for n := gen.Range(t, 0, 8, "ops"); n > 0; n-- {
				op := c02op{Op: gen.Pick(t, []string{"word", "word", "word", "load", "unload", "trace", "reparse", "broken"}, "op")}
				if gen.Chance(t, 2, "many") {
					op.Op, op.N = "many", gen.Pick(t, []int{70, 130, 260, 520, 1030}, "how many")
				}
				op.Lang = x.Lang
				if gen.Chance(t, 60, "other") {
					op.Lang = genLang(t, langs)
				}
				if op.Op == "word" || op.Op == "trace" {
					op.Word = fw.S(gen.Word(t, gen.DataOf(model.Bundled(op.Lang))))
				}
				x.Ops = append(x.Ops, op)
			}
			if l := kin[x.Lang]; len(l) > 0 && gen.Chance(t, 50, "kin") {
				// The ID and the word of one language read as those of
				// another if they are written together.
				other := gen.Pick(t, l, "other")
				w := gen.Pick(t, x.Words, "which")
				if strings.HasPrefix(other, x.Lang) {
					x.Words = append(x.Words, fw.S(other[len(x.Lang):])+w)
					x.Ops = append(x.Ops, c02op{Op: "word", Lang: other, Word: w})
				} else {
					x.Ops = append(x.Ops, c02op{Op: "word", Lang: other, Word: fw.S(x.Lang[len(other):]) + w})
				}
				x.Before = gen.Chance(t, 50, "before")
			}
			x.Proc = gen.Chance(t, 6, "proc")
			return x
		},
		checkC02,
		fw.FixedCases(func(e *fw.Env) []c02case {
			// Sources which overlap, so the order of a map could tell.
			out := []c02case{
				{Words: []fw.S{"abcab", "cab"}, Spec: &gen.Spec{Script: "Latn", Macros: map[string]string{"@": "a", "@@": "b", "@@@": "c", "%": "(?:a|b)", "%@": "ab"}, Transcribe: [][2]string{{"@@@", "ㅏ"}, {"%@", "ㅣ"}, {"@@", "ㅗ"}, {"@", "ㅜ"}}}},
				{Words: []fw.S{"abcab", "abab"}, Spec: &gen.Spec{Script: "Latn", Normalize: map[string][]string{"x": {"a", "bc"}, "y": {"ab", "c"}, "z": {"abc", "b"}}, Transcribe: [][2]string{{"x", "ㅏ"}, {"y", "ㅣ"}, {"z", "ㅗ"}}}},
			}
			for _, l := range langs {
				var ws []fw.S
				for i, ex := range model.Bundled(l).Test {
					if i < 40 {
						ws = append(ws, fw.S(ex[0]))
					}
				}
				n := 300
				if l == "ita" || l == "rus" || l == "nld" {
					n = 8000
				}
				for _, other := range kin[l] {
					x := c02case{Lang: l, Before: true}
					for i, w := range ws {
						if i >= 8 {
							break
						}
						if strings.HasPrefix(other, l) {
							x.Words = append(x.Words, fw.S(other[len(l):])+w)
							x.Ops = append(x.Ops, c02op{Op: "word", Lang: other, Word: w})
						} else {
							x.Words = append(x.Words, w)
							x.Ops = append(x.Ops, c02op{Op: "word", Lang: other, Word: fw.S(l[len(other):]) + w})
						}
					}
					out = append(out, x)
				}
				out = append(out, c02case{Lang: l, Words: ws, Ops: []c02op{{Op: "many", Lang: l, N: n}}, Proc: l < "c"})
			}
			return out
		}),
		func(p *fw.Prop) { p.Batch = 30; p.Plain = true },
	)
}

// checkC02Spec parses the source of a spec several times.
func checkC02Spec(c *fw.Ctx, x c02case) error {
	m, err := x.Spec.Model()
	if err != nil {
		return nil
	}
	c.Label("a generated spec")
	src := gen.SpecSource(m)
	var want []string
	for k := 0; k < 8; k++ {
		spec, err := hangulize.ParseSpec(strings.NewReader(src))
		if err != nil {
			return fmt.Errorf("the spec %s is refused: %w", q(src), err)
		}
		h := hangulize.New(spec)
		for i, w := range x.Words {
			got, err := h.Hangulize(string(w))
			if err != nil {
				return err
			}
			if k == 0 {
				want = append(want, got)
			} else if got != want[i] {
				return fmt.Errorf("%s becomes %s, but %s once the same spec is parsed again:\n%s", q(string(w)), q(want[i]), q(got), src)
			}
		}
	}
	return nil
}

func checkC02(c *fw.Ctx, x c02case) error {
	if x.Spec != nil {
		return checkC02Spec(c, x)
	}
	if x.Stress {
		return runStress(c.Env)
	}
	if err := installGlobally(); err != nil {
		return err
	}
	shared, err := sharedHangulizer(x.Lang)
	if err != nil {
		return err
	}
	source := shared.Spec().Source
	want := make([]string, len(x.Words))
	full := 0
	for i, w := range x.Words {
		if want[i], err = shared.Hangulize(string(w)); err != nil {
			return fmt.Errorf("%s: %s: %w", x.Lang, q(string(w)), err)
		}
		if strings.IndexFunc(want[i], isSyllable) >= 0 {
			full++
		}
	}
	c.NonTrivialIf(full >= 2 && len(x.Ops) > 0)

	verify := func(where string, reverse bool, f func(string) (string, error)) error {
		for k := range x.Words {
			i := k
			if reverse {
				i = len(x.Words) - 1 - k
			}
			got, err := f(string(x.Words[i]))
			if err != nil {
				return fmt.Errorf("%s: %s: %s: %w", where, x.Lang, q(string(x.Words[i])), err)
			}
			if got != want[i] {
				return fmt.Errorf("%s: %s: %s becomes %s, but %s at first", where, x.Lang, q(string(x.Words[i])), q(got), q(want[i]))
			}
			c.Extra++
		}
		return nil
	}
	pkg := func(w string) (string, error) { return hangulize.Hangulize(x.Lang, w) }
	reparse := func(src string) (hangulize.Hangulizer, error) {
		spec, err := hangulize.ParseSpec(strings.NewReader(src))
		if err != nil {
			return nil, err
		}
		return withTranslits(spec)
	}

	if x.Before {
		for _, op := range x.Ops {
			if op.Op == "word" {
				if _, err := hangulize.Hangulize(op.Lang, string(op.Word)); err != nil {
					return err
				}
			}
		}
	}
	if err := verify("package-level function", false, pkg); err != nil {
		return err
	}
	for _, op := range x.Ops {
		switch op.Op {
		case "word":
			if _, err := hangulize.Hangulize(op.Lang, string(op.Word)); err != nil {
				return err
			}
		case "load":
			if _, err := hangulize.LoadSpec(op.Lang); err != nil {
				return err
			}
		case "many":
			h, err := sharedHangulizer(op.Lang)
			if err != nil {
				return err
			}
			ex := model.Bundled(op.Lang).Test
			for i := 0; i < op.N; i++ {
				w := ex[i%len(ex)][0] + strings.Repeat(ex[i/len(ex)%len(ex)][0], i%2)
				got, err := h.Hangulize(w)
				if err != nil {
					return err
				}
				if i%2 == 0 && got != ex[i%len(ex)][1] {
					return fmt.Errorf("%s: %s becomes %s after %d words", op.Lang, q(w), q(got), i)
				}
			}
		case "broken":
			if _, err := hangulize.ParseSpec(strings.NewReader(model.Source(op.Lang) + "\n\"")); err == nil {
				return fmt.Errorf("a broken source is a spec")
			}
			if _, err := hangulize.Hangulize("no such language", "a"); err == nil {
				return fmt.Errorf("no error for an unknown language")
			}
		case "unload":
			hangulize.UnloadSpec(op.Lang)
		case "trace":
			h, err := sharedHangulizer(op.Lang)
			if err != nil {
				return err
			}
			h.Trace(func(hangulize.Trace) {})
			_, err = h.Hangulize(string(op.Word))
			h.Trace(nil)
			if err != nil {
				return err
			}
		case "reparse":
			s, err := hangulize.LoadSpec(op.Lang)
			if err != nil {
				return err
			}
			h, err := reparse(s.Source)
			if err != nil {
				return err
			}
			if op.Lang == x.Lang {
				if err := verify("another parse", true, h.Hangulize); err != nil {
					return err
				}
			}
		}
	}
	if err := verify("shared Hangulizer after the history", true, shared.Hangulize); err != nil {
		return err
	}
	if err := verify("package-level function after the history", true, pkg); err != nil {
		return err
	}
	fresh, err := reparse(source)
	if err != nil {
		return err
	}
	if err := verify("a fresh parse", false, fresh.Hangulize); err != nil {
		return err
	}
	if x.Proc {
		c.Label("fresh process")
		var items []batchItem
		for i := range x.Words {
			items = append(items, batchItem{x.Lang, x.Words[len(x.Words)-1-i]})
		}
		out, err := runBatch(c.Env.Self, items)
		if err != nil {
			return err
		}
		k := -1
		return verify("a fresh process", true, func(string) (string, error) {
			k++
			return string(out[k]), nil
		})
	}
	return nil
}
