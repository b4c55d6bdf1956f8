package props

import (
	"fmt"
	"strings"
	"sync"
	"unicode"

	"github.com/hangulize/hangulize"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

type c07case struct {
	Lang string `json:"lang"`

	Script string `json:"script,omitempty"` // a spec of this script which only has the letters of A instead of a language

	A fw.S `json:"a"`
	B fw.S `json:"b"` // letters of A replaced by variants

	Times int `json:"times,omitempty"` // both are repeated
}

// variants lists, for each lower-case base letter of a script, the letters
// which are read as the same.
var variants = func() func(script string) map[rune][]rune {
	var mu sync.Mutex
	cache := map[string]map[rune][]rune{}
	return func(script string) map[rune][]rune {
		mu.Lock()
		defer mu.Unlock()
		if m := cache[script]; m != nil {
			return m
		}
		m := map[rune][]rune{}
		for r := rune(0); r < 0x20000; r++ {
			if model.InScript(script, r) {
				n := model.NormalizeLetter(script, r)
				m[n] = append(m[n], r)
			}
		}
		cache[script] = m
		return m
	}
}()

func init() {
	var all []string
	for _, l := range langsExcept("furigana", "pinyin") {
		if s := model.Bundled(l).Script; s != "Geor" {
			all = append(all, l)
		}
	}
	fw.Reg("C07",
		"A case is a word of a bundled language in an alphabetic script and the same word with letters replaced by other cases or by letters with diacritics which the language neither keeps nor maps (by tables computed from Unicode data). Both must be transcribed in the same way. Also every variant of every letter of the scripts by a spec which only has a rule for the letter. Non-trivial: at least one letter differs and the result has Hangul.",
		func(t *rapid.T) c07case {
			x := c07case{Lang: genLang(t, all)}
			spec := model.Bundled(x.Lang)
			w := gen.Word(t, gen.DataOf(spec))
			var a, b []rune
			for _, r := range w {
				a = append(a, r)
				n := r
				if spec.InScript(r) && !spec.Kept(r) {
					n = model.NormalizeLetter(spec.Script, r)
				}
				vs := variants(spec.Script)[n]
				if spec.InScript(n) && len(vs) > 0 && gen.Chance(t, 40, "vary") {
					v := gen.Pick(t, vs, "v")
					if gen.Chance(t, 50, "upper") {
						v = unicode.ToUpper(n)
					}
					if !spec.Kept(v) && spec.InScript(v) && model.NormalizeLetter(spec.Script, v) == n {
						b = append(b, v)
						continue
					}
				}
				b = append(b, r)
			}
			x.A, x.B = fw.S(string(a)), fw.S(string(b))
			x.Times = longTimes(t, len(w))
			return x
		},
		func(c *fw.Ctx, x c07case) error {
			if x.Script != "" {
				return checkC07letters(c, x)
			}
			spec := model.Bundled(x.Lang)
			h, err := sharedHangulizer(x.Lang)
			if err != nil {
				return err
			}
			x.A, x.B = fw.S(repeated(x.A, x.Times)), fw.S(repeated(x.B, x.Times))
			c.LabelIf(len(x.A) > 4096, "long")
			// The custom normalization and the Translit must not tell the
			// words apart: they are outside of this law.
			ta, err := transliterate(h, spec.Translit, string(x.A))
			if err != nil {
				return err
			}
			tb, err := transliterate(h, spec.Translit, string(x.B))
			if err != nil {
				return err
			}
			ca, na := spec.NormalizeWord(ta)
			cb, nb := spec.NormalizeWord(tb)
			if na != nb {
				c.Label("told apart by the language")
				return nil
			}
			_, _ = ca, cb
			ra, err := h.Hangulize(string(x.A))
			if err != nil {
				return err
			}
			rb, err := h.Hangulize(string(x.B))
			if err != nil {
				return err
			}
			c.NonTrivialIf(x.A != x.B && strings.IndexFunc(ra, isSyllable) >= 0)
			if ra != rb {
				return fmt.Errorf("%s: %s becomes %s, but its variant %s becomes %s", x.Lang, q(string(x.A)), q(ra), q(string(x.B)), q(rb))
			}
			return nil
		},
		fw.FixedCases(func(e *fw.Env) []c07case {
			// Every variant of every letter, once, in the words of an example.
			var out []c07case
			for _, l := range all {
				spec := model.Bundled(l)
				for base, vs := range variants(spec.Script) {
					if !spec.InScript(base) {
						continue
					}
					for _, v := range vs {
						if v != base && !spec.Kept(v) {
							out = append(out, c07case{Lang: l, A: fw.S("a" + string(base) + "a"), B: fw.S("a" + string(v) + "a")})
						}
					}
				}
			}
			// And of all letters of the scripts.
			for _, script := range []string{"Latn", "Cyrl", "Grek", "Hrkt"} {
				for base, vs := range variants(script) {
					for _, v := range vs {
						if v != base && model.InScript(script, base) {
							out = append(out, c07case{Script: script, A: fw.S(strings.Repeat(string(base), 2)), B: fw.S(strings.Repeat(string(v), 2))})
						}
					}
				}
			}
			sortCases(out)
			// Long texts in upper case.
			for _, l := range all {
				spec := model.Bundled(l)
				var w []string
				n := 0
				for i, ex := range spec.Test {
					if i < 60 {
						w = append(w, ex[0])
						n += len(ex[0]) + 1
					}
				}
				a := strings.Join(w, " ") + " "
				b := strings.Map(func(r rune) rune {
					u := unicode.ToUpper(r)
					if spec.InScript(r) && spec.InScript(u) && !spec.Kept(r) && !spec.Kept(u) && model.NormalizeLetter(spec.Script, u) == model.NormalizeLetter(spec.Script, r) {
						return u
					}
					return r
				}, a)
				out = append(out, c07case{Lang: l, A: fw.S(a), B: fw.S(b), Times: 40000/n + 1})
			}
			return out
		}))
}

// checkC07letters transcribes letters and their variants by a spec which only
// has a rule for each letter.
func checkC07letters(c *fw.Ctx, x c07case) error {
	m := &model.Spec{ID: "x", Codes: [2]string{"x", "x"}, Script: x.Script}
	for i, r := range string(x.A) {
		m.Transcribe = append(m.Transcribe, &model.Rule{From: string(r), To: string(rune('가' + i))})
	}
	spec, err := hangulize.ParseSpec(strings.NewReader(gen.SpecSource(m)))
	if err != nil {
		return err
	}
	h := hangulize.New(spec)
	ra, err := h.Hangulize(string(x.A))
	if err != nil {
		return err
	}
	rb, err := h.Hangulize(string(x.B))
	if err != nil {
		return err
	}
	c.NonTrivialIf(x.A != x.B && strings.IndexFunc(ra, isSyllable) >= 0)
	c.Label("a spec of single letters")
	if ra != rb {
		return fmt.Errorf("by the rules of %s: %s becomes %s, but its variant %s becomes %s", q(string(x.A)), q(string(x.A)), q(ra), q(string(x.B)), q(rb))
	}
	return nil
}

func sortCases(cs []c07case) {
	// insertion order of a map is random: sort
	key := func(c c07case) string {
		return c.Lang + "\x00" + c.Script + "\x00" + string(c.B) + "\x00" + string(c.A)
	}
	sortBy(cs, key)
}
