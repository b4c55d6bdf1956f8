package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/harness/fw"
	"verif/harness/model"
)

func init() {
	fw.Reg("C03",
		"A case is a word for one of the 40 bundled languages: letters of the language, a mutated example, a word sampled from a rule's pattern, several words, any Unicode, a literal of the sources, or a long repetition. Fixed cases: words which need each rule, letter and value of the specs. The oracle is the naive procedure and the naive HRE matcher of /verif/harness/model over the reference copies of the specs. Non-trivial: at least two different rules fired.",
		genLangWord,
		func(c *fw.Ctx, x langWord) error {
			h, err := sharedHangulizer(x.Lang)
			if err != nil {
				return err
			}
			spec := model.Bundled(x.Lang)
			word := string(x.Word)
			got, err := h.Hangulize(word)
			if err != nil {
				return fmt.Errorf("%s: Hangulize(%s): %w", x.Lang, q(word), err)
			}
			tw, err := transliterate(h, spec.Translit, word)
			if err != nil {
				return err
			}
			st, err := spec.Run(tw)
			if err != nil {
				return fmt.Errorf("model: %w", err)
			}
			c.NonTrivialIf(len(st.FiredRewrite)+len(st.FiredTranscribe) > 1)
			c.LabelIf(len(st.FiredRewrite) > 0, "rewritten")
			c.LabelIf(len(st.FiredTranscribe) > 0, "transcribed")
			c.LabelIf(len(st.Segs) > 1, "several segments")
			c.LabelIf(len(spec.Translit) > 0, "transliterated")
			c.LabelIf(st.Unmatched, "some letters not transcribed")
			if got != st.Result {
				return fmt.Errorf("%s: Hangulize(%s) = %s, want %s", x.Lang, q(word), q(got), q(st.Result))
			}
			return nil
		},
		fw.FixedCases(func(e *fw.Env) []langWord {
			var out []langWord
			for _, l := range langs {
				short := ""
				for _, ex := range model.Bundled(l).Test {
					out = append(out, langWord{l, fw.S(ex[0])})
					if n := utf8.RuneCountInString(ex[0]); short == "" || n > 3 && n < utf8.RuneCountInString(short) {
						short = ex[0]
					}
				}
				// The words which need each of the rules, of their letters,
				// and of the values of the vars.
				for _, w := range model.Witnesses(l) {
					out = append(out, langWord{l, fw.S(w)})
				}
				// Every letter of the script.
				all := model.ScriptLetters(model.Bundled(l).Script)
				for k := 0; k < len(all); k += 40 {
					out = append(out, langWord{l, fw.S(string(all[k:min(k+40, len(all))]))})
				}
				// A word of more than a thousand words, most rules which match
				// it do so a thousand times.
				out = append(out, langWord{l, fw.S(strings.Repeat(short+" ", 1030))})
			}
			return out
		}))
}
