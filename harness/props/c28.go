package props

import (
	"fmt"
	"strings"
	"sync"
	"unicode"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

type c28case struct {
	Script string `json:"script"`
	Word   fw.S   `json:"word"`
	Times  int    `json:"times,omitempty"` // the word is repeated
}

var c28kana = map[rune]rune{'カ': '가', 'ナ': '나', 'マ': '마', 'ン': '운'}

var (
	c28mu sync.Mutex
	c28hs = map[string]hangulize.Hangulizer{}
)

func c28hangulizer(script string) (hangulize.Hangulizer, error) {
	c28mu.Lock()
	defer c28mu.Unlock()
	if h := c28hs[script]; h != nil {
		return h, nil
	}
	s := &model.Spec{Script: script}
	if script == "Hrkt" {
		for _, k := range []rune("カナマン") {
			s.Transcribe = append(s.Transcribe, &model.Rule{From: string(k), To: string(c28kana[k])})
		}
	}
	spec, err := hangulize.ParseSpec(strings.NewReader(gen.SpecSource(s)))
	if err != nil {
		return nil, err
	}
	c28hs[script] = hangulize.New(spec)
	return c28hs[script], nil
}

func init() {
	jp := []rune("。、：！？〜「」『』")
	others := []rune(" \u3000\u200b\n,.!'\"-()（）・“”…1aé가中+$^|~=¿「」。、")
	// Every punctuation, mark and space of Unicode.
	var puncts []rune
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.In(r, unicode.P, unicode.S, unicode.Z, unicode.Cf, unicode.Cc) {
			puncts = append(puncts, r)
		}
	}
	fw.Reg("C28",
		"A case is a string of kana, Japanese punctuation, other punctuation, spaces, zero-width spaces and foreign letters for a Japanese spec (or a spec of another script, which must leave the punctuation alone). The oracle rewrites each Japanese punctuation to its Korean counterpart, where the space is kept only between non-blank neighbours. Non-trivial: a Japanese punctuation next to another punctuation or a space.",
		func(t *rapid.T) c28case {
			x := c28case{Script: "Hrkt"}
			if gen.Chance(t, 20, "script") {
				x.Script = gen.Pick(t, []string{"", "Latn", "Cyrl", "Geor", "Grek"}, "name")
			}
			x.Word = fw.S(gen.Runes(t, 0, 12, "w", func(t *rapid.T) rune {
				switch gen.Weighted(t, "kind", 8, 6, 6, 2, 3) {
				case 0:
					return gen.Pick(t, jp, "jp")
				case 1:
					return gen.Pick(t, []rune("カナマンかなまん"), "kana")
				case 2:
					return gen.Pick(t, others, "o")
				case 3:
					return gen.Pick(t, gen.Interesting, "any")
				default:
					return gen.Pick(t, puncts, "punct")
				}
			}))
			x.Times = longTimes(t, len(x.Word))
			return x
		},
		func(c *fw.Ctx, x c28case) error {
			h, err := c28hangulizer(x.Script)
			if err != nil {
				return err
			}
			word := repeated(x.Word, x.Times)
			got, err := h.Hangulize(word)
			if err != nil {
				return err
			}
			// The transcribed word before the localization.
			var mid strings.Builder
			blank := false
			rs := []rune(word)
			flush := func() {
				if blank {
					mid.WriteRune(' ')
				}
				blank = false
			}
			for _, r := range rs {
				switch {
				case unicode.IsSpace(r):
					blank = true
				case model.InScript(x.Script, r):
					n := r
					if x.Script == "Hrkt" {
						n = model.NormalizeLetter("Hrkt", r)
					}
					if s, ok := c28kana[n]; ok && x.Script == "Hrkt" {
						flush()
						mid.WriteRune(s)
					}
					// Other letters are never transcribed; they are a part
					// of the run of spaces.
				default:
					flush()
					mid.WriteRune(r)
				}
			}
			flush()
			want := model.Localize(x.Script, mid.String())
			for i, r := range rs {
				if strings.ContainsRune(string(jp), r) {
					if i > 0 && (unicode.IsPunct(rs[i-1]) || unicode.IsSpace(rs[i-1])) {
						c.NonTrivial()
					}
				}
			}
			if got != want {
				return fmt.Errorf("script %q: %s becomes %s, want %s", x.Script, q(word), q(got), q(want))
			}
			if strings.ContainsRune(got, '\u200b') {
				return fmt.Errorf("script %q: %s becomes %s, which has a zero-width space", x.Script, q(word), q(got))
			}
			return nil
		},
		fw.FixedCases(func(e *fw.Env) []c28case {
			// Every punctuation between every pair of neighbours.
			var out []c28case
			around := []string{"", "カ", " ", "、", "!", "(", "1", "\u200b", "「", "+"}
			for _, p := range jp {
				for _, l := range around {
					for _, r := range around {
						out = append(out, c28case{"Hrkt", fw.S(l + string(p) + r), 0})
					}
				}
			}
			// Every punctuation in every script.
			for _, script := range []string{"", "Latn", "Cyrl", "Geor", "Grek", "Hrkt"} {
				for i := 0; i < len(puncts); i += 100 {
					var w strings.Builder
					for _, r := range puncts[i:min(i+100, len(puncts))] {
						w.WriteString("1" + string(r) + "。" + string(r))
					}
					out = append(out, c28case{script, fw.S(w.String()), 0})
				}
			}
			// Each at every place of a long text.
			for i, p := range jp {
				w := "カ1" + strings.Repeat("+", i%4) + string(p) + "ナ" + string(p)
				out = append(out, c28case{"Hrkt", fw.S(w), 140000 / len([]rune(w))})
			}
			return out
		}))
}
