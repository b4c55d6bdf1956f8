package props

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

// ---------------------------------------------------------------------------
// C15

type c15op struct {
	Op   string `json:"op"` // load, unload, list, word, mutate, parse
	Lang fw.S   `json:"lang"`
	Word fw.S   `json:"word"`
}

type c15case struct {
	Ops []c15op `json:"ops"`
}

// weirdLang draws a name which looks like that of a bundled spec.
func weirdLang(t *rapid.T) string {
	l := gen.Pick(t, langs, "of")
	switch gen.Int(t, 8, "weird") {
	case 0:
		return gen.Pick(t, []string{"", ".", "..", "/", "eng", "unknown", "kor", "*", "specs", "\x00", "\xff", "it", "jp", "specs/ita", "ita.hsl/.."}, "name")
	case 1:
		return strings.ToUpper(l)
	case 2:
		return l + ".hsl"
	case 3:
		return "./" + l
	case 4:
		return "../specs/" + l
	case 5:
		return l + gen.Pick(t, []string{" ", "/", "\x00", "x", "-", "\n"}, "suffix")
	case 6:
		return gen.Pick(t, []string{" ", "/", "x/", "\ufeff"}, "prefix") + l
	default:
		// The ISO codes are no names unless they are the ID.
		return gen.Runes(t, 0, 4, "any", gen.AnyRune)
	}
}

func genC15(t *rapid.T) c15case {
	var x c15case
	// A few languages only, so the operations meet.
	few := []string{gen.Pick(t, langs, "l1"), gen.Pick(t, langs, "l2"), gen.Pick(t, langs, "l3")}
	for n := gen.Range(t, 1, 25, "n"); n > 0; n-- {
		op := c15op{Op: gen.Pick(t, []string{"load", "load", "load", "unload", "list", "word", "mutate"}, "op")}
		op.Lang = fw.S(gen.Pick(t, few, "lang"))
		if gen.Chance(t, 20, "weird?") {
			op.Lang = fw.S(weirdLang(t))
		}
		if op.Op == "word" {
			op.Word = fw.S(gen.Runes(t, 0, 5, "w", gen.AnyRune))
		}
		x.Ops = append(x.Ops, op)
	}
	return x
}

func checkC15(c *fw.Ctx, x c15case) error {
	known := map[string]bool{}
	for _, l := range langs {
		known[l] = true
	}
	cached := map[string]*hangulize.Spec{}
	ever := map[string][]*hangulize.Spec{}
	for _, op := range x.Ops {
		hangulize.UnloadSpec(string(op.Lang))
	}
	loads, unknowns := 0, 0
	for i, op := range x.Ops {
		lang := string(op.Lang)
		fail := func(f string, a ...any) error {
			return fmt.Errorf("operation %d (%s %q): %s", i, op.Op, lang, fmt.Sprintf(f, a...))
		}
		switch op.Op {
		case "load":
			spec, err := hangulize.LoadSpec(lang)
			if !known[lang] {
				unknowns++
				if !errors.Is(err, hangulize.ErrSpecNotFound) || spec != nil || !strings.Contains(err.Error(), lang) {
					return fail("gives %v, %v", spec, err)
				}
				continue
			}
			if err != nil {
				return fail("%v", err)
			}
			if spec.Lang.ID != lang {
				return fail("the ID of the spec is %q", spec.Lang.ID)
			}
			if old := cached[lang]; old != nil {
				loads++
				if old != spec {
					return fail("the cached spec is not given again")
				}
			} else {
				for _, old := range ever[lang] {
					if old == spec {
						return fail("the unloaded spec is given again")
					}
				}
				// The unloaded ones remain usable and are the same.
				for _, old := range ever[lang] {
					if err := sameSpec(old, spec); err != nil {
						return fail("loaded again: %v", err)
					}
				}
				cached[lang] = spec
				ever[lang] = append(ever[lang], spec)
				m := model.Bundled(lang)
				if spec.Lang.Codes != m.Codes || spec.Lang.Script != m.Script || strings.Join(spec.Lang.Translit, "|") != strings.Join(m.Translit, "|") ||
					len(spec.Rewrite) != len(m.Rewrite) || len(spec.Transcribe) != len(m.Transcribe) {
					return fail("another spec: %+v", spec.Lang)
				}
			}
		case "unload":
			hangulize.UnloadSpec(lang)
			delete(cached, lang)
		case "list", "mutate":
			got := hangulize.ListLangs()
			if !sort.StringsAreSorted(got) {
				return fail("not sorted: %q", got)
			}
			if strings.Join(got, "|") != strings.Join(langs, "|") {
				return fail("%q, want %q", got, langs)
			}
			if op.Op == "mutate" {
				for i := range got {
					got[i] = "mutated"
				}
			}
		case "word":
			word := string(op.Word)
			got, err := hangulize.Hangulize(lang, word)
			if !known[lang] {
				unknowns++
				if !errors.Is(err, hangulize.ErrSpecNotFound) || got != word || !strings.Contains(err.Error(), lang) {
					return fail("gives %q, %v", got, err)
				}
				continue
			}
			if len(model.Bundled(lang).Translit) > 0 {
				if !errors.Is(err, hangulize.ErrTranslitNotImported) {
					return fail("gives %q, %v without the Translits", got, err)
				}
			} else if err != nil {
				return fail("%v", err)
			}
			// The package-level function uses the cache, too.
			if cached[lang] == nil {
				spec, err := hangulize.LoadSpec(lang)
				if err != nil {
					return fail("%v", err)
				}
				cached[lang] = spec
				ever[lang] = append(ever[lang], spec)
			}
		}
	}
	c.NonTrivialIf(loads > 0)
	c.LabelIf(unknowns > 0, "unknown language")
	c.LabelIf(loads > 0, "loaded from the cache")
	return nil
}

// ---------------------------------------------------------------------------
// C16

type c16op struct {
	Op string `json:"op"` // use, unuse, list, install, new, word
	H  int    `json:"h"`  // 0: the package, 1..: a Hangulizer
	S  int    `json:"s"`  // the scheme
	T  int    `json:"t"`  // which of the Translits of the scheme
}

type c16case struct {
	Ops []c16op `json:"ops"`
}

// fake is a Translit which marks what it has seen.
type fake struct {
	scheme string
	s, n   int
}

func (f *fake) Scheme() string { return f.scheme }
func (f *fake) Transliterate(w string) (string, error) {
	return fmt.Sprintf("%s#%d.%d", w, f.s, f.n), nil
}

var fakeSchemes = []string{"furigana", "pinyin", "cyrillic[bg]", "cyrillic[mk]", "cyrillic[ru]", "cyrillic[ua]", "x", "", "cyrillic", "Furigana"}

const nFakes = 3

// fakes are shared by all cases: they have no state.
var fakes = func() (out [][]*fake) {
	for i, s := range fakeSchemes {
		var fs []*fake
		for n := 0; n < nFakes; n++ {
			fs = append(fs, &fake{s, i, n})
		}
		out = append(out, fs)
	}
	return
}()

const nStandard = 6

func genC16(t *rapid.T) c16case {
	var x c16case
	hs := 1
	few := gen.Chance(t, 60, "few")
	for n := gen.Range(t, 1, 30, "n"); n > 0; n-- {
		op := c16op{Op: []string{"use", "unuse", "list", "install", "new", "word"}[gen.Weighted(t, "op", 8, 5, 2, 4, 2, 3)]}
		op.H = gen.Int(t, hs, "h")
		op.S = gen.Int(t, len(fakeSchemes), "s")
		if few {
			op.S = gen.Pick(t, []int{0, 5, 4, 6}, "s")
		}
		op.T = gen.Int(t, nFakes, "t")
		if op.Op == "new" {
			if hs == 4 {
				continue
			}
			op.H = hs
			hs++
		}
		x.Ops = append(x.Ops, op)
	}
	return x
}

const c16spec = `
lang:
    id = "c16"
    codes = "x", "xxx"
    translit = %s
`

var c16specs = func() (out []*hangulize.Spec) {
	for _, s := range fakeSchemes {
		spec, err := hangulize.ParseSpec(strings.NewReader(fmt.Sprintf(c16spec, gen.Quote(s))))
		if err != nil {
			panic(err)
		}
		out = append(out, spec)
	}
	return
}()

// c16langs are bundled languages which need the scheme of the same index, and
// one which needs none.
var c16langs = func() (out []string) {
	for _, s := range fakeSchemes[:nStandard] {
		for _, l := range langs {
			if tr := model.Bundled(l).Translit; len(tr) == 1 && tr[0] == s {
				out = append(out, l)
				break
			}
		}
	}
	return append(out, "ita")
}()

const c16word = "中 かな privet 1"

func checkC16(c *fw.Ctx, x c16case) error {
	for s := range hangulize.Translits() {
		hangulize.UnuseTranslit(s)
	}
	type world struct {
		h hangulize.Hangulizer
		m map[string]hangulize.Translit
	}
	ws := []*world{{nil, map[string]hangulize.Translit{}}}
	list := func(w *world) map[string]hangulize.Translit {
		if w.h == nil {
			return hangulize.Translits()
		}
		return w.h.Translits()
	}
	verify := func(where string) error {
		for i, w := range ws {
			got := list(w)
			same := len(got) == len(w.m)
			for k, v := range w.m {
				same = same && got[k] == v
			}
			if !same {
				return fmt.Errorf("%s: registry %d has %v, want %v", where, i, got, w.m)
			}
		}
		return nil
	}
	if err := verify("at first"); err != nil {
		return err
	}
	standard := translit.Translits()
	rollback, refused := false, false
	for i, op := range x.Ops {
		where := fmt.Sprintf("operation %d %+v (%q)", i, op, fakeSchemes[op.S])
		if op.Op == "new" {
			// Two Hangulizers of the same spec are independent, too.
			ws = append(ws, &world{hangulize.New(c16specs[op.S%2]), map[string]hangulize.Translit{}})
		}
		w := ws[op.H%len(ws)]
		f := fakes[op.S][op.T%nFakes]
		switch op.Op {
		case "use":
			var got bool
			if w.h == nil {
				got = hangulize.UseTranslit(f)
			} else {
				got = w.h.UseTranslit(f)
			}
			_, has := w.m[f.scheme]
			if got == has {
				return fmt.Errorf("%s: gives %v", where, got)
			}
			refused = refused || has
			if !has {
				w.m[f.scheme] = f
			}
		case "unuse":
			var got bool
			if w.h == nil {
				got = hangulize.UnuseTranslit(f.scheme)
			} else {
				got = w.h.UnuseTranslit(f.scheme)
			}
			if _, has := w.m[f.scheme]; got != has {
				return fmt.Errorf("%s: gives %v", where, got)
			}
			delete(w.m, f.scheme)
		case "list":
			// What is returned is only a copy.
			m := list(w)
			for k := range m {
				delete(m, k)
			}
			m["furigana"] = f
			m["other"] = f
			ts := translit.Translits()
			if len(ts) != nStandard {
				return fmt.Errorf("%s: %d standard Translits", where, len(ts))
			}
			var names []string
			for j := range ts {
				names = append(names, ts[j].Scheme())
				if ts[j] != standard[j] {
					return fmt.Errorf("%s: the standard Translits have changed", where)
				}
				ts[j] = f
			}
			sort.Strings(names)
			if strings.Join(names, " ") != "cyrillic[bg] cyrillic[mk] cyrillic[ru] cyrillic[ua] furigana pinyin" {
				return fmt.Errorf("%s: the standard Translits are %q", where, names)
			}
		case "install":
			conflicts := 0
			for _, s := range standard {
				if _, has := w.m[s.Scheme()]; has {
					conflicts++
				}
			}
			var got bool
			if w.h == nil {
				got = translit.Install()
			} else {
				got = translit.Install(w.h)
			}
			if got != (conflicts == 0) {
				return fmt.Errorf("%s: gives %v with %d conflicts", where, got, conflicts)
			}
			if conflicts > 0 {
				rollback = true
			} else {
				for _, s := range standard {
					w.m[s.Scheme()] = s
				}
			}
		case "word":
			if w.h == nil {
				// The package-level function uses the default registry as it is
				// now.
				lang := c16langs[op.S%len(c16langs)]
				spec, err := hangulize.LoadSpec(lang)
				if err != nil {
					return err
				}
				h := hangulize.New(spec)
				for _, t := range w.m {
					h.UseTranslit(t)
				}
				want, wantErr := h.Hangulize(c16word)
				got, err := hangulize.Hangulize(lang, c16word)
				if got != want || fmt.Sprint(err) != fmt.Sprint(wantErr) || errors.Is(err, hangulize.ErrTranslitNotImported) != errors.Is(wantErr, hangulize.ErrTranslitNotImported) {
					return fmt.Errorf("%s: Hangulize(%q, %q) gives %q, %v, but a Hangulizer with the same Translits %q, %v", where, lang, c16word, got, err, want, wantErr)
				}
				continue
			}
			spec := w.h.Spec()
			scheme := spec.Lang.Translit[0]
			got, err := w.h.Hangulize("1")
			if t, has := w.m[scheme]; has {
				want := ""
				if f, ok := t.(*fake); ok {
					want, _ = f.Transliterate("1")
				} else if want, err = t.Transliterate("1"); err != nil {
					return fmt.Errorf("%s: %w", where, err)
				}
				if err != nil || got != want {
					return fmt.Errorf("%s: Hangulize gives %q, %v, want %q", where, got, err, want)
				}
			} else if !errors.Is(err, hangulize.ErrTranslitNotImported) || errors.Is(err, hangulize.ErrTranslit) || got != "" {
				return fmt.Errorf("%s: Hangulize gives %q, %v without the Translit", where, got, err)
			}
		}
		if err := verify(where); err != nil {
			return err
		}
	}
	c.LabelIf(rollback, "Install refused")
	c.LabelIf(refused, "UseTranslit refused")
	c.NonTrivialIf(rollback || refused)
	return nil
}

// ---------------------------------------------------------------------------
// C17

type c17step struct {
	Scheme string `json:"scheme"`
	Mode   string `json:"mode"` // ok, error, error with a text, missing
	Cause  int    `json:"cause,omitempty"`
	Out    fw.S   `json:"out"` // appended to the word
}

type c17case struct {
	Steps []c17step `json:"steps"`
	// Chain lists the steps in the order of the spec; one may be repeated.
	Chain  []int  `json:"chain"`
	Words  []fw.S `json:"words"`
	Global bool   `json:"global"`
	Trace  bool   `json:"trace"`
	Nested bool   `json:"nested"`
}

var errStep = errors.New("step")

// stepCauses are the errors of a Translit, such as one using Hangulize itself.
var stepCauses = []error{
	errStep,
	fmt.Errorf("inner: %w", hangulize.ErrTranslitNotImported),
	fmt.Errorf("inner: %w", hangulize.ErrSpecNotFound),
	fmt.Errorf("%w: inner", hangulize.ErrTranslit),
	io.EOF,
}

type stepT struct {
	c17step
	seen   *[]string
	nested func()
}

func (s *stepT) Scheme() string { return s.c17step.Scheme }

func (s *stepT) Transliterate(w string) (string, error) {
	*s.seen = append(*s.seen, s.c17step.Scheme+": "+w)
	if s.nested != nil {
		s.nested()
	}
	switch s.Mode {
	case "error":
		return "", stepCauses[s.Cause]
	case "error with a text":
		return w + string(s.Out), stepCauses[s.Cause]
	}
	return w + string(s.Out), nil
}

func genC17(t *rapid.T) c17case {
	var x c17case
	n := gen.Range(t, 1, 4, "n")
	allOK := gen.Chance(t, 50, "all ok")
	kin := []string{"t", "t[x]", "t[y]", "T", " t", "t ", "tt", "[x]", "x", "t[", "t.x", "t/x", "t-x", "t:x", "t#1", "t?"}
	if gen.Chance(t, 40, "kin") {
		for i := range kin {
			j := gen.Range(t, i, len(kin)-1, "shuffle")
			kin[i], kin[j] = kin[j], kin[i]
		}
	} else {
		kin = []string{"t0", "t1", "t2", "t3"}
	}
	for i := 0; i < n; i++ {
		s := c17step{Scheme: kin[i], Mode: "ok"}
		if !allOK {
			s.Mode = gen.Pick(t, []string{"ok", "ok", "error", "error with a text", "missing"}, "mode")
			if gen.Chance(t, 30, "another cause") {
				s.Cause = gen.Range(t, 1, len(stepCauses)-1, "cause")
			}
		}
		s.Out = fw.S(gen.Runes(t, 0, 3, "out", gen.AnyRune))
		x.Steps = append(x.Steps, s)
	}
	for m := gen.Range(t, 0, 5, "m"); m > 0; m-- {
		x.Chain = append(x.Chain, gen.Int(t, n, "which"))
	}
	for k := gen.Range(t, 1, 3, "words"); k > 0; k-- {
		x.Words = append(x.Words, fw.S(gen.Runes(t, 0, 5, "w", gen.AnyRune)))
	}
	x.Global = gen.Chance(t, 40, "global")
	x.Trace = gen.Chance(t, 40, "trace")
	x.Nested = gen.Chance(t, 30, "nested")
	if x.Global {
		// A bundled language: its only Translit.
		x.Steps = x.Steps[:1]
		x.Steps[0].Scheme = gen.Pick(t, []string{"furigana", "pinyin", "cyrillic[bg]", "cyrillic[mk]", "cyrillic[ru]", "cyrillic[ua]"}, "scheme")
		x.Chain = []int{0}
	}
	return x
}

func checkC17(c *fw.Ctx, x c17case) error {
	var seen []string
	var nested func()
	if x.Nested {
		// A Translit may use Hangulize itself.
		nested = func() {
			_, _ = hangulize.Hangulize("ita", "a")
			_ = hangulize.Translits()
			hangulize.UnuseTranslit("no such scheme")
		}
	}
	var schemes []string
	for _, i := range x.Chain {
		schemes = append(schemes, x.Steps[i].Scheme)
	}
	var ts []hangulize.Translit
	for _, s := range x.Steps {
		if s.Mode != "missing" {
			ts = append(ts, &stepT{s, &seen, nested})
		}
	}
	type runner struct {
		name string
		run  func(string) (string, error)
		fin  func(string) (string, error) // the rest of the procedure
	}
	var rs []runner
	if x.Global {
		for s := range hangulize.Translits() {
			hangulize.UnuseTranslit(s)
		}
		for _, t := range ts {
			hangulize.UseTranslit(t)
		}
		for _, l := range langs {
			if tr := model.Bundled(l).Translit; len(tr) == 1 && tr[0] == schemes[0] {
				l := l
				rs = append(rs, runner{"the language " + l,
					func(w string) (string, error) { return hangulize.Hangulize(l, w) },
					func(w string) (string, error) {
						s, err := model.Bundled(l).Run(w)
						if err != nil {
							return "", err
						}
						return s.Result, nil
					}})
				break
			}
		}
		if len(rs) == 0 {
			return nil
		}
	} else {
		lists := ""
		if len(schemes) > 0 {
			lists = "translit = " + gen.QuoteAll(schemes)
		}
		spec, err := hangulize.ParseSpec(strings.NewReader("lang:\n  id = \"c17\"\n  codes = \"x\", \"y\"\n  script = \"Latn\"\n  " + lists + "\ntranscribe:\n  \"a\" -> \"ㅏ\"\n"))
		if err != nil {
			return err
		}
		m := &model.Spec{Script: "Latn", Transcribe: []*model.Rule{{From: "a", To: "ㅏ"}}}
		if err := m.Prepare(); err != nil {
			return err
		}
		h := hangulize.New(spec)
		for _, t := range ts {
			h.UseTranslit(t)
		}
		if x.Trace {
			h.Trace(func(hangulize.Trace) {})
		}
		rs = append(rs, runner{"a Hangulizer", h.Hangulize, func(w string) (string, error) {
			s, err := m.Run(w)
			if err != nil {
				return "", err
			}
			return s.Result, nil
		}})
	}
	for _, r := range rs {
		for _, w := range x.Words {
			word := string(w)
			seen = nil
			got, err := r.run(word)
			var wantSeen []string
			var wantErr error
			failed, like := "", false
			cur := word
			for _, i := range x.Chain {
				s := x.Steps[i]
				failed = s.Scheme
				if s.Mode == "missing" {
					wantErr = hangulize.ErrTranslitNotImported
					break
				}
				wantSeen = append(wantSeen, s.Scheme+": "+cur)
				if s.Mode != "ok" {
					wantErr, like = hangulize.ErrTranslit, s.Cause == 1
					break
				}
				cur += string(s.Out)
			}
			if strings.Join(seen, "\n") != strings.Join(wantSeen, "\n") {
				return fmt.Errorf("%s, %s: the Translits got %q, want %q", r.name, q(word), seen, wantSeen)
			}
			if wantErr != nil {
				other := hangulize.ErrTranslit
				if wantErr == other {
					other = hangulize.ErrTranslitNotImported
				}
				// A cause of the error may be wrapped, too.
				if !errors.Is(err, wantErr) || errors.Is(err, other) && !like || got != "" || !strings.Contains(err.Error(), failed) {
					return fmt.Errorf("%s, %s: %q, %v, want %v of %q", r.name, q(word), got, err, wantErr, failed)
				}
				c.Label(wantErr.Error())
				c.NonTrivial()
				continue
			}
			if err != nil {
				return fmt.Errorf("%s, %s: %w", r.name, q(word), err)
			}
			want, err := r.fin(cur)
			if err != nil {
				return err
			}
			if got != want {
				return fmt.Errorf("%s, %s: %s, want %s", r.name, q(word), q(got), q(want))
			}
			if len(x.Chain) > 1 {
				c.NonTrivial()
			}
		}
	}
	return nil
}

func init() {
	fw.Reg("C15",
		"A case is a history of up to 25 operations (load, unload, list the languages, change the returned list, transcribe by the package-level function) over a few bundled languages and names which only look like ones. The model is a cache: a bundled spec is the same object until it is unloaded, has the ID it was loaded by and the metadata of the source; any other name is ErrSpecNotFound and gives the word back; the list is sorted, complete, and a copy. Non-trivial: a spec is loaded from the cache.",
		genC15, checkC15)
	fw.Reg("C16",
		"A case is a history of up to 30 operations (use, unuse, list and change the returned map, install the standard Translits, create a Hangulizer, transcribe) over the default registry and up to three Hangulizers. The model is one map per registry; after every operation all registries are compared with their models: no scheme is replaced, Install is all or nothing, the registries are independent. Non-trivial: a UseTranslit or an Install was refused.",
		genC16, checkC16)
	fw.Reg("C17",
		"A case is a chain of up to five Translits of which some fail or are missing, words, and the way of use (a Hangulizer, traced or not, or the package-level function with a bundled language; the Translits may use Hangulize themselves). The Translits must see the words in the order of the spec, each the output of the one before; the first failure is ErrTranslit or ErrTranslitNotImported with an empty result; without one the result is that of the rest of the procedure. Non-trivial: a failure, or at least two Translits.",
		genC17, checkC17)
}
