package props

import (
	"fmt"
	"regexp"
	"strings"
	"sync"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

// c08tokens are what the rules of the spec write; the i-th one is written for
// the i-th Georgian letter.
var c08tokens = func() []string {
	var out []string
	for _, r := range model.Leads() {
		out = append(out, string(r))
	}
	for _, r := range model.Medials() {
		out = append(out, string(r))
	}
	for _, r := range model.Tails() {
		out = append(out, "-"+string(r))
	}
	out = append(out, "가", "각", "힣", "쒸", "ㄱㅏ", "ㅏ-ㄴ", "ㅎㅏ-ㄴ", "-ㄹㄹ", ".", "x", "·", "한글", "-", "ㄱㅏ-", "--ㄴ", "-ㅏ", "-가")
	// Letters which are no Jamo, though some look like one.
	for _, r := range "\u200d\u200c\ufeff\u0301ㅥㆍ\u3164\u318eﾡﾤ\u115f가\ud7b0ꥠ힤\u00ad\U000e0100\U0010ffff\ufffd" {
		out = append(out, string(r))
	}
	return out
}()

var c08letters = func() []rune {
	var out []rune
	for r := rune(0x10d0); r <= 0x10fa; r++ {
		out = append(out, r)
	}
	for r := rune(0x2d00); r <= 0x2d25; r++ {
		out = append(out, r)
	}
	for r := rune(0x10a0); r <= 0x10c5; r++ {
		out = append(out, r)
	}
	return out
}()

var c08once sync.Once
var c08h hangulize.Hangulizer

func c08hangulizer() (hangulize.Hangulizer, error) {
	var err error
	c08once.Do(func() {
		s := &model.Spec{Script: "Geor"}
		for i, tok := range c08tokens {
			s.Transcribe = append(s.Transcribe, &model.Rule{From: string(c08letters[i]), To: tok})
		}
		var spec *hangulize.Spec
		spec, err = hangulize.ParseSpec(strings.NewReader(gen.SpecSource(s)))
		if err == nil {
			c08h = hangulize.New(spec)
		}
	})
	if c08h == nil {
		return nil, fmt.Errorf("can't parse the spec: %v", err)
	}
	return c08h, err
}

// c08impossible are tails which Hangul does not have.
var c08impossible = regexp.MustCompile("-[ㄸㅃㅉ]")

type c08case struct {
	Toks []int `json:"toks"` // -1: a foreign letter

	// Times repeats the tokens to make a long run.
	Times int `json:"times,omitempty"`
}

func joinToks(toks []int) string {
	var b strings.Builder
	for _, i := range toks {
		if i < 0 {
			b.WriteString("1")
		} else {
			b.WriteString(c08tokens[i])
		}
	}
	return b.String()
}

// composeNaive composes syllables by the groups lead? medial? tail?.
func composeNaive(toks []string) string {
	// flatten to (position, letter)
	type item struct {
		pos int // 0 lead, 1 medial, 2 tail, 3 syllable, 4 other
		r   rune
	}
	var items []item
	hyphen := false
	for _, r := range strings.Join(toks, "") {
		if r == '-' {
			hyphen = true
			continue
		}
		it := item{4, r}
		switch {
		case r >= 'ㅏ' && r <= 'ㅣ':
			it.pos = 1
		case r >= 'ㄱ' && r <= 'ㅎ' && hyphen:
			it.pos = 2
		case r >= 'ㄱ' && r <= 'ㅎ':
			it.pos = 0
		case isSyllable(r):
			it.pos = 3
		}
		hyphen = false
		items = append(items, it)
	}
	var out strings.Builder
	for i := 0; i < len(items); {
		if items[i].pos == 4 {
			out.WriteRune(items[i].r)
			i++
			continue
		}
		if items[i].pos == 3 {
			r := items[i].r
			i++
			if (r-0xac00)%28 == 0 && i < len(items) && items[i].pos == 2 {
				r += rune(strings.Index(string(model.Tails()), string(items[i].r))/3 + 1)
				i++
			}
			out.WriteRune(r)
			continue
		}
		lead, medial, tail := 'ㅇ', 'ㅡ', rune(0)
		if items[i].pos == 0 {
			lead = items[i].r
			i++
		}
		if i < len(items) && items[i].pos == 1 {
			medial = items[i].r
			i++
		}
		if i < len(items) && items[i].pos == 2 {
			tail = items[i].r
			i++
		}
		out.WriteRune(model.Syllable(lead, medial, tail))
	}
	return out.String()
}

func init() {
	nt := len(c08tokens)
	fw.Reg("C08",
		"A case is a sequence of Jamo, tails (hyphen + Jamo), composed syllables, and other letters written by the rules of a spec, with runs interrupted by foreign letters. Fixed cases: all pairs of tokens, and all 11172 lead-medial-tail triples. The oracle groups the sequence greedily into lead? medial? tail?, filling ㅇ and ㅡ. Non-trivial: at least three tokens.",
		func(t *rapid.T) c08case {
			n := gen.Range(t, 1, 14, "n")
			var x c08case
			for ; n > 0; n-- {
				if gen.Chance(t, 8, "foreign") {
					x.Toks = append(x.Toks, -1)
				} else {
					x.Toks = append(x.Toks, gen.Int(t, nt, "tok"))
				}
			}
			if gen.Chance(t, 3, "long") {
				x.Times = gen.Pick(t, []int{10, 30, 90, 170, 350, 700, 1400}, "times")
			}
			return x
		},
		func(c *fw.Ctx, x c08case) error {
			h, err := c08hangulizer()
			if err != nil {
				return err
			}
			var word, want strings.Builder
			var run []string
			toks := x.Toks
			for k := 1; k < x.Times; k++ {
				toks = append(toks[:len(toks):len(toks)], x.Toks...)
			}
			if c08impossible.MatchString(joinToks(toks)) {
				return nil
			}
			if x.Times > 0 {
				c.Label("long")
			}
			for _, i := range toks {
				if i < 0 {
					word.WriteString("1")
					want.WriteString(composeNaive(run))
					want.WriteString("1")
					run = nil
					continue
				}
				word.WriteRune(c08letters[i])
				run = append(run, c08tokens[i])
			}
			want.WriteString(composeNaive(run))
			got, err := h.Hangulize(word.String())
			if err != nil {
				return err
			}
			c.NonTrivialIf(len(x.Toks) >= 3)
			if got != want.String() || !utf8.ValidString(got) {
				var toks []string
				for _, i := range x.Toks {
					if i < 0 {
						toks = append(toks, "(1)")
					} else {
						toks = append(toks, c08tokens[i])
					}
				}
				return fmt.Errorf("the Jamo %q (%d times) become %s, want %s", toks, max(x.Times, 1), q(got), q(want.String()))
			}
			return nil
		},
		fw.FixedCases(func(e *fw.Env) []c08case {
			var out []c08case
			for i := 0; i < nt; i++ {
				var x c08case
				for j := 0; j < nt; j++ {
					if c08impossible.MatchString(c08tokens[i] + c08tokens[j]) {
						continue
					}
					x.Toks = append(x.Toks, i, j, -1)
					if len(x.Toks) >= 60 {
						out = append(out, x)
						x = c08case{}
					}
				}
				out = append(out, x)
			}
			nl, nm, ntl := len(model.Leads()), len(model.Medials()), len(model.Tails())
			for l := 0; l < nl; l++ {
				for m := 0; m < nm; m++ {
					x := c08case{}
					for tl := 0; tl < ntl; tl++ {
						x.Toks = append(x.Toks, l, nl+m, nl+nm+tl)
					}
					out = append(out, x)
				}
			}
			// Long runs, shifted so that any place can be cut.
			for _, n := range []int{500, 12000} {
				for shift := 0; shift < 6; shift++ {
					x := c08case{}
					for i := 0; i < shift; i++ {
						x.Toks = append(x.Toks, nl+i)
					}
					for i := 0; i < n; i++ {
						x.Toks = append(x.Toks, i%nl, nl+i%nm, nl+nm+i%ntl)
					}
					out = append(out, x)
				}
			}
			return out
		}))
}
