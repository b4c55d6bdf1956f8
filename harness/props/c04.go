package props

import (
	"fmt"
	"slices"
	"strings"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

type c04case struct {
	Spec  *gen.Spec `json:"spec"`
	Words []fw.S    `json:"words"`
	// Twin is how another spec, checked in between, differs.
	Twin string `json:"twin,omitempty"`
}

var twins = []string{"joined vars", "swapped vars", "swapped macros", "swapped outputs", "reversed rules", "no normalize", "script"}

// twin is a spec with much of another one. It must not affect the other one
// just as the other one must not affect it.
func twin(x *gen.Spec, how string) *gen.Spec {
	y := &gen.Spec{
		Script: x.Script, Macros: map[string]string{}, Vars: map[string][]string{}, Normalize: x.Normalize,
		Rewrite: slices.Clone(x.Rewrite), Transcribe: slices.Clone(x.Transcribe),
	}
	keys := gen.Keys(x.Vars)
	for i, k := range keys {
		switch how {
		case "joined vars":
			y.Vars[k] = []string{strings.Join(x.Vars[k], " ")}
		case "swapped vars":
			y.Vars[k] = x.Vars[keys[len(keys)-1-i]]
		default:
			y.Vars[k] = x.Vars[k]
		}
	}
	keys = gen.Keys(x.Macros)
	for i, k := range keys {
		y.Macros[k] = x.Macros[k]
		if how == "swapped macros" {
			y.Macros[k] = x.Macros[keys[len(keys)-1-i]]
		}
	}
	for _, rules := range [][][2]string{y.Rewrite, y.Transcribe} {
		switch how {
		case "swapped outputs":
			for i := 0; i < len(rules)/2; i++ {
				j := len(rules) - 1 - i
				rules[i][1], rules[j][1] = rules[j][1], rules[i][1]
			}
		case "reversed rules":
			slices.Reverse(rules)
		}
	}
	switch how {
	case "no normalize":
		y.Normalize = nil
	case "script":
		for i, s := range gen.Scripts {
			if s == x.Script {
				y.Script = gen.Scripts[(i+1)%len(gen.Scripts)]
			}
		}
	}
	return y
}

func genC04(t *rapid.T) c04case {
	x := c04case{Spec: gen.GenSpec(t)}
	m, err := x.Spec.Model()
	if err != nil {
		panic(err)
	}
	for n := gen.Range(t, 1, 4, "words"); n > 0; n-- {
		x.Words = append(x.Words, fw.S(gen.Flood(t, gen.SpecWord(t, x.Spec, m), 2)))
	}
	if gen.Chance(t, 30, "twin") {
		x.Twin = gen.Pick(t, twins, "how")
	}
	return x
}

// checkSpec compares Hangulize of a spec with the model.
func checkSpec(c *fw.Ctx, x *gen.Spec, words []fw.S) error {
	m, err := x.Model()
	if err != nil {
		return nil
	}
	src := gen.SpecSource(m)
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	if err != nil {
		return fmt.Errorf("the spec is rejected: %w\n%s", err, src)
	}
	h := hangulize.New(spec)
	for _, fw := range words {
		word := string(fw)
		st, err := m.Run(word)
		if err != nil {
			continue // an empty match: out of the domain
		}
		got, err := h.Hangulize(word)
		if err != nil {
			return err
		}
		c.Extra++
		n := len(st.FiredRewrite) + len(st.FiredTranscribe)
		c.NonTrivialIf(n >= 2)
		c.LabelIf(n >= 2, "two rules fired")
		c.LabelIf(len(st.FiredRewrite) > 0 && len(st.FiredTranscribe) > 0, "rewritten and transcribed")
		c.LabelIf(st.Unmatched, "unmatched letters dropped")
		if got != st.Result {
			return fmt.Errorf("%s becomes %s, want %s (normalized %s, rewritten %q, jamo %q)\n%s",
				q(word), q(got), q(st.Result), q(st.Normalized), st.Rewritten, st.Jamo, src)
		}
	}
	return nil
}

func init() {
	fw.Reg("C04",
		"A case is a generated spec (script, macros, vars, normalize, up to 5 rewrite and 6 transcribe rules from the HRE grammar) written as HSL, and up to 4 words sampled from its rules. The oracle is the naive procedure over the naive matcher: normalize, partition, rewrite in order, transcribe with masking, drop the unmatched, compose, localize. In some cases a spec which differs only in its vars, macros, outputs, order, normalization or script is checked in between. Non-trivial: at least two different rules fired on a word.",
		genC04,
		func(c *fw.Ctx, x c04case) error {
			if err := checkSpec(c, x.Spec, x.Words); err != nil || x.Twin == "" {
				return err
			}
			c.Label("twin: " + x.Twin)
			if err := checkSpec(c, twin(x.Spec, x.Twin), x.Words); err != nil {
				return fmt.Errorf("after the spec without %s: %w", x.Twin, err)
			}
			if err := checkSpec(c, x.Spec, x.Words); err != nil {
				return fmt.Errorf("after the spec with %s: %w", x.Twin, err)
			}
			return nil
		},
		func(p *fw.Prop) { p.Batch = 50 },
	)

	fw.Reg("C21",
		"A case is a bundled or a generated spec and up to 4 words. With a tracing function every word has the result it has without one; the events are exactly those of the naive procedure: the steps in order, the word after every change, the rule (its number and source) which made it, and the scheme or script as the reason; no event after the function is removed, and the package and other Hangulizers of the same spec stay untraced. Non-trivial: at least four events with a rule.",
		func(t *rapid.T) c21case {
			var x c21case
			if gen.Chance(t, 55, "bundled") {
				x.Lang = genLang(t, langs)
				d := gen.DataOf(model.Bundled(x.Lang))
				for n := gen.Range(t, 1, 4, "words"); n > 0; n-- {
					x.Words = append(x.Words, fw.S(gen.Word(t, d)))
				}
			} else {
				x.c04case = genC04(t)
			}
			return x
		},
		checkC21,
		func(p *fw.Prop) { p.Batch = 30 },
	)
}

type c21case struct {
	Lang string `json:"lang,omitempty"`
	c04case
}

func checkC21(c *fw.Ctx, x c21case) error {
	var (
		m   *model.Spec
		h   hangulize.Hangulizer
		err error
	)
	if x.Lang != "" {
		m = model.Bundled(x.Lang)
		h, err = newHangulizer(x.Lang)
	} else {
		if m, err = x.Spec.Model(); err != nil {
			return nil
		}
		var spec *hangulize.Spec
		if spec, err = hangulize.ParseSpec(strings.NewReader(gen.SpecSource(m))); err == nil {
			h, err = withTranslits(spec)
		}
	}
	if err != nil {
		return err
	}
	other, err := withTranslits(h.Spec())
	if err != nil {
		return err
	}

	for _, fw := range x.Words {
		word := string(fw)
		if strings.Contains(word+gen.SpecSource(m), "\x00") {
			continue // the events show what is masked with NUL as a dot
		}

		// The expected events.
		want := []model.Event{{Step: "Input", Word: word, Rule: -1}}
		w := word
		for _, scheme := range m.Translit {
			if w, err = transliterate(other, []string{scheme}, w); err != nil {
				return err
			}
			want = append(want, model.Event{Step: "Transliterate", Word: w, Why: scheme, Rule: -1})
		}
		st, err := m.Run(w)
		if err != nil {
			continue
		}
		want = model.Changes(append(want, st.Events...))

		plain, err := h.Hangulize(word)
		if err != nil {
			return err
		}
		var traces []hangulize.Trace
		h.Trace(func(t hangulize.Trace) { traces = append(traces, t) })
		traced, err := h.Hangulize(word)
		if err != nil {
			return err
		}
		n := len(traces)
		if r, err := other.Hangulize(word); err != nil || r != plain || len(traces) != n {
			return fmt.Errorf("%s: another Hangulizer of the same spec: %s, %v, %d events", q(word), q(r), err, len(traces)-n)
		}
		h.Trace(nil)
		after, err := h.Hangulize(word)
		if err != nil {
			return err
		}
		if len(traces) != n {
			return fmt.Errorf("%s: %d events after the tracing function was removed", q(word), len(traces)-n)
		}
		if traced != plain || after != plain {
			return fmt.Errorf("%s becomes %s, but %s while tracing, %s after tracing", q(word), q(plain), q(traced), q(after))
		}
		c.Extra++

		ruled := 0
		for i, e := range want {
			if i >= len(traces) {
				return fmt.Errorf("%s: %d events, want %d; missing %+v", q(word), len(traces), len(want), e)
			}
			t := traces[i]
			if t.Step != e.Step || t.Word != e.Word || t.Why != e.Why || (t.Rule == nil) != (e.Rule < 0) {
				return fmt.Errorf("%s: event %d is %+v (%s), want %+v", q(word), i, t, q(t.Word), e)
			}
			if t.Rule != nil {
				ruled++
				rules := m.Rewrite
				if e.Step == "Transcribe" {
					rules = m.Transcribe
				}
				r := rules[e.Rule]
				if t.Rule.ID != e.Rule || t.Rule.From.String() != r.From || t.Rule.To.String() != r.To {
					return fmt.Errorf("%s: event %d names the rule %d %s, want %d %q -> %q", q(word), i, t.Rule.ID, t.Rule, e.Rule, r.From, r.To)
				}
			}
		}
		if len(traces) != len(want) {
			return fmt.Errorf("%s: %d events, want %d; unexpected %+v", q(word), len(traces), len(want), traces[len(want)])
		}
		c.NonTrivialIf(ruled >= 4)
		if len(traces) > 0 && traces[len(traces)-1].Word != plain {
			return fmt.Errorf("%s: the last event has %s, but the result is %s", q(word), q(traces[len(traces)-1].Word), q(plain))
		}
	}
	return nil
}
