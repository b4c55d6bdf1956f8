package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

type partsCase struct {
	Lang  string `json:"lang"`
	Parts []fw.S `json:"parts"` // odd parts are foreign

	// Times repeats the parts to make a long text.
	Times int `json:"times,omitempty"`
}

// longTimes draws how often a text of n bytes is repeated.
func longTimes(t *rapid.T, n int) int {
	if !gen.Chance(t, 1, "long") || n == 0 {
		return 0
	}
	return gen.Pick(t, []int{300, 1100, 4200, 9000, 33000, 70000}, "bytes")/n + 1
}

// expand repeats the parts.
func (x partsCase) expand() partsCase {
	if x.Times < 2 {
		return x
	}
	last := len(x.Parts) - 1
	parts := make([]fw.S, 0, x.Times*(last+2))
	for k := 0; k < x.Times; k++ {
		if k > 0 {
			// Between the repeats is the last foreign run.
			parts = append(parts, x.Parts[last-1])
		}
		parts = append(parts, x.Parts...)
	}
	x.Parts = parts
	return x
}

// scriptParts have every letter of the scripts.
func scriptParts(langs []string) (out []partsCase) {
	for i, l := range langs {
		spec := model.Bundled(l)
		fs := foreignOf(l, false)
		all := model.ScriptLetters(spec.Script)
		ex := []rune(spec.Test[i%len(spec.Test)][0])
		for k := 0; k < len(all); k += 150 {
			x := partsCase{Lang: l}
			for j, r := range all[k:min(k+150, len(all))] {
				w := string(r)
				if j%3 == 0 {
					w = string(ex[:1]) + w + string(ex[len(ex)-1:])
				}
				x.Parts = append(x.Parts, fw.S(w), fw.S(fs[(k+j)%len(fs)]))
			}
			x.Parts = append(x.Parts, "")
			out = append(out, x)
		}
	}
	return out
}

// longParts are texts of about 70 KB, one for each language.
func longParts(langs []string) (out []partsCase) {
	for i, l := range langs {
		x := partsCase{Lang: l}
		n := 0
		fs := foreignOf(l, false)
		for k, ex := range model.Bundled(l).Test {
			if k >= 40 {
				break
			}
			// A shift for every language cuts it elsewhere.
			f := fs[(i+k)%len(fs)] + strings.Repeat(fs[0], (i+k)%5)
			x.Parts = append(x.Parts, fw.S(ex[0]), fw.S(f))
			n += len(ex[0]) + len(f)
		}
		x.Parts = append(x.Parts, "")
		x.Times = 70000/n + 1
		out = append(out, x)
	}
	return out
}

func genParts(t *rapid.T, all []string, hangul bool, max int) partsCase {
	lang := genLang(t, all)
	d := gen.DataOf(model.Bundled(lang))
	fs := foreignOf(lang, hangul)
	korean := []string{"가", "힣", "ㄱ", "ㅏ", "나라", "ㅋㅋ"}
	x := partsCase{Lang: lang}
	n := gen.Range(t, 1, max, "n")
	for i := 0; i < n; i++ {
		x.Parts = append(x.Parts, fw.S(genNative(t, d)))
		k := gen.Range(t, 1, 3, "k")
		s := ""
		for ; k > 0; k-- {
			if max == 4 && gen.Chance(t, 25, "korean") {
				s += gen.Pick(t, korean, "f")
				continue
			}
			s += gen.Pick(t, fs, "f")
		}
		x.Parts = append(x.Parts, fw.S(s))
	}
	x.Parts = append(x.Parts, fw.S(genNative(t, d)))
	x.Times = longTimes(t, len(x.word()))
	return x
}

// genNative draws a word of the language.
func genNative(t *rapid.T, d *gen.LangData) string {
	switch gen.Weighted(t, "native", 3, 3, 2, 1) {
	case 0:
		return gen.Runes(t, 0, 6, "w", func(t *rapid.T) rune {
			if gen.Chance(t, 6, "any of the script") {
				return gen.Pick(t, model.ScriptLetters(d.Spec.Script), "script")
			}
			return gen.Pick(t, d.Alphabet, "l")
		})
	case 1:
		return gen.Pick(t, d.Examples, "ex")
	case 2:
		return gen.RuleWord(t, d)
	default:
		return gen.Pick(t, []string{"", " ", "  ", "\t"}, "sp")
	}
}

func (x partsCase) word() string { return strings.Join(fw.Strs(x.Parts), "") }

func init() {
	fw.Reg("C05",
		"A case is a word of a bundled language (except those read with a Japanese dictionary) with runs of letters which belong neither to its script nor to its rules, Hangul among them (compared with the result of the word with letters for private use in their place). These letters must appear in the result exactly once each, in order, contiguous within a run, and no letter of the source script may remain. Non-trivial: at least two foreign runs and a transcribed syllable.",
		func(t *rapid.T) partsCase { return genParts(t, langsExcept("furigana"), false, 4) },
		func(c *fw.Ctx, x partsCase) error {
			h, err := sharedHangulizer(x.Lang)
			if err != nil {
				return err
			}
			spec := model.Bundled(x.Lang)
			x = x.expand()
			word := x.word()
			got, err := h.Hangulize(word)
			if err != nil {
				return err
			}
			fset := map[rune]bool{}
			for _, f := range foreignOf(x.Lang, false) {
				fset[[]rune(f)[0]] = true
			}
			// The result may have any Hangul, so every foreign Hangul letter
			// is told apart by a letter for private use, which must give the
			// same result.
			var hide, show []string
			x.Parts = append([]fw.S{}, x.Parts...)
			for i := 1; i < len(x.Parts); i += 2 {
				x.Parts[i] = fw.S(strings.Map(func(r rune) rune {
					if !isSyllable(r) && !isJamo(r) {
						return r
					}
					p := rune(0xf0000 + len(show))
					fset[p] = true
					hide, show = append(hide, string(r)), append(show, string(p), string(r))
					return p
				}, string(x.Parts[i])))
			}
			if len(hide) > 0 {
				c.Label("foreign Hangul")
				word2 := x.word()
				got2, err := h.Hangulize(word2)
				if err != nil {
					return err
				}
				if back := strings.NewReplacer(show...).Replace(got2); back != got {
					return fmt.Errorf("%s: Hangulize(%s) = %s, but with other letters than Hangul it is %s", x.Lang, q(word), q(got), q(back))
				}
				word, got = word2, got2
			}
			keep := func(s string) string {
				return strings.Map(func(r rune) rune {
					if fset[r] {
						return r
					}
					return -1
				}, s)
			}
			if keep(got) != keep(word) {
				return fmt.Errorf("%s: Hangulize(%s) = %s: the foreign letters are %s, want %s", x.Lang, q(word), q(got), q(keep(got)), q(keep(word)))
			}
			syl, rest := 0, got
			for i := 1; i < len(x.Parts); i += 2 {
				at := strings.Index(rest, string(x.Parts[i]))
				if at < 0 {
					return fmt.Errorf("%s: Hangulize(%s) = %s: the run %s is broken", x.Lang, q(word), q(got), q(string(x.Parts[i])))
				}
				rest = rest[at+len(x.Parts[i]):]
			}
			lits := rhsLits(spec)
			for _, r := range got {
				if isSyllable(r) {
					syl++
				}
				if spec.InScript(r) && !lits[r] && !fset[r] {
					return fmt.Errorf("%s: Hangulize(%s) = %s: the letter %+q is left", x.Lang, q(word), q(got), r)
				}
			}
			c.NonTrivialIf(len(x.Parts) >= 5 && syl > 0)
			c.LabelIf(len(word) > 4096, "long")
			return nil
		},
		fw.FixedCases(func(e *fw.Env) []partsCase {
			return append(longParts(langsExcept("furigana")), scriptParts(langsExcept("furigana"))...)
		}))

	fw.Reg("C06",
		"A case is a pair or triple of words of a bundled language (except those read with a Japanese dictionary) joined by letters which take no part in the transcription. The result must be the results of the words joined by the same letters. Non-trivial: at least two of the words have a syllable in their results.",
		func(t *rapid.T) partsCase { return genParts(t, langsExcept("furigana"), true, 2) },
		func(c *fw.Ctx, x partsCase) error {
			h, err := sharedHangulizer(x.Lang)
			if err != nil {
				return err
			}
			x = x.expand()
			word := x.word()
			got, err := h.Hangulize(word)
			if err != nil {
				return err
			}
			var sum strings.Builder
			full := 0
			alone := map[fw.S]string{}
			for i, p := range x.Parts {
				if i%2 == 1 {
					sum.WriteString(string(p))
					continue
				}
				one, ok := alone[p]
				if !ok {
					if one, err = h.Hangulize(string(p)); err != nil {
						return err
					}
					alone[p] = one
				}
				for _, r := range one {
					if isSyllable(r) {
						full++
						break
					}
				}
				sum.WriteString(one)
			}
			c.NonTrivialIf(full >= 2)
			c.LabelIf(len(word) > 4096, "long")
			if want := sum.String(); got != want {
				at := 0
				for at < len(got) && at < len(want) && got[at] == want[at] {
					at++
				}
				return fmt.Errorf("%s: Hangulize(%s) = %s, but its words separately give %s (they differ at byte %d)", x.Lang, q(word), q(got), q(want), at)
			}
			return nil
		},
		fw.FixedCases(func(e *fw.Env) []partsCase {
			return append(longParts(langsExcept("furigana")), scriptParts(langsExcept("furigana"))...)
		}))
}
