package gen

import (
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// Spec is a generated spec, as plain data.
type Spec struct {
	Script     string              `json:"script"`
	Macros     map[string]string   `json:"macros,omitempty"`
	Vars       map[string][]string `json:"vars,omitempty"`
	Normalize  map[string][]string `json:"normalize,omitempty"`
	Rewrite    [][2]string         `json:"rewrite,omitempty"`
	Transcribe [][2]string         `json:"transcribe,omitempty"`

	repl *strings.Replacer
}

// Model builds the reference spec.
func (x *Spec) Model() (*model.Spec, error) {
	s := &model.Spec{
		ID: "gen", Codes: [2]string{"g", "gen"}, Script: x.Script,
		Macros: x.Macros, Vars: x.Vars, Normalize: x.Normalize,
	}
	for _, r := range x.Rewrite {
		s.Rewrite = append(s.Rewrite, &model.Rule{From: r[0], To: r[1]})
	}
	for _, r := range x.Transcribe {
		s.Transcribe = append(s.Transcribe, &model.Rule{From: r[0], To: r[1]})
	}
	return s, s.Prepare()
}

// Scripts are the supported scripts.
var Scripts = []string{"", "Latn", "Cyrl", "Geor", "Grek", "Hrkt"}

// jamoOut draws what a transcribe rule writes.
func jamoOut(t *rapid.T, vars map[string][]string) string {
	var b strings.Builder
	names := Keys(vars)
	for n := Range(t, 0, 3, "nj"); n > 0; n-- {
		switch Weighted(t, "jamo", 4, 4, 2, 2, 1) {
		case 0:
			b.WriteString(Pick(t, []string{"ㄱ", "ㄴ", "ㄹ", "ㅂ", "ㅅ", "ㅇ", "ㅌ"}, "lead"))
		case 1:
			b.WriteString(Pick(t, []string{"ㅏ", "ㅗ", "ㅣ", "ㅡ", "ㅘ"}, "medial"))
		case 2:
			b.WriteString("-" + Pick(t, []string{"ㄱ", "ㄴ", "ㄹ", "ㅅ", "ㅇ"}, "tail"))
		case 3:
			if len(names) > 0 {
				b.WriteString("<" + Pick(t, names, "var") + ">")
			}
		default:
			b.WriteString(Pick(t, []string{"가", "x", " ", "1", "-", ",", "."}, "lit"))
		}
	}
	return b.String()
}

// GenSpec draws a spec whose rules never match an empty text.
func GenSpec(t *rapid.T) *Spec {
	x := &Spec{}
	x.Script = Pick(t, Scripts, "script")
	x.Macros, x.Vars = EnvFeatures(t)
	if Chance(t, 40, "jamovar") {
		x.Vars["j"] = []string{"ㄱ", "ㄴ", "ㅏ"}
	}
	x.Normalize = map[string][]string{}
	for n := Weighted(t, "nnorm", 8, 2, 2, 1); n > 0; n-- {
		k := Pick(t, append([]string{"'", "É", "ab", "1", "ゃ", "Ё", "ს", "ά", "bA", "1AB", "ÉB", "1ΑΒ", "βΑ", "бАБ", "1БВ", "1あか", "カあ"}, hreLetters...), "to")
		var froms []string
		for m := Range(t, 0, 3, "nfrom"); m > 0; m-- {
			froms = append(froms, Pick(t, append([]string{"A", "B", "É", "ab", "abc", "ba", "’", "Ё", "ΑΒ", "が", "\u0301", "á"}, hreLetters...), "from"))
		}
		x.Normalize[k] = froms
	}
	// The same letters cannot be converted into two.
	seen := map[string]bool{}
	for _, k := range Keys(x.Normalize) {
		var froms []string
		for _, f := range x.Normalize[k] {
			if !seen[f] {
				seen[f] = true
				froms = append(froms, f)
			}
		}
		if len(froms) == 0 {
			delete(x.Normalize, k)
			continue
		}
		x.Normalize[k] = froms
	}
	for n := Range(t, 0, 5, "nrw"); n > 0; n-- {
		x.Rewrite = append(x.Rewrite, [2]string{ruleExpr(t, x), RExpr(t, x.Macros, x.Vars)})
	}
	for n := Range(t, 0, 6, "ntr"); n > 0; n-- {
		x.Transcribe = append(x.Transcribe, [2]string{ruleExpr(t, x), jamoOut(t, x.Vars)})
	}
	x.toScript(t)
	return x
}

// ruleExpr draws a pattern, often a simple one.
func ruleExpr(t *rapid.T, x *Spec) string {
	if Chance(t, 50, "simple") {
		e := letters(t, 1, 2)
		switch Weighted(t, "ctx", 6, 1, 1, 1, 1) {
		case 1:
			e = "^" + e
		case 2:
			e += "$"
		case 3:
			e += "{" + letters(t, 1, 1) + "}"
		case 4:
			e = "{~" + letters(t, 1, 1) + "}" + e
		}
		return e
	}
	return Expr(t, x.Macros, x.Vars, true)
}

// scriptLetters are the counterparts of the letters of the patterns.
var scriptLetters = map[string]string{
	"Cyrl": "абвгдежз",
	"Geor": "აბგდევზთ",
	"Grek": "αβγδεζηθ",
	"Hrkt": "アカサータナハマ",
	"Latn": "abcdefgh",
	"":     "abcdefgh",
}

// toScript writes most of the letters in the script of the spec.
func (x *Spec) toScript(t *rapid.T) {
	to := []rune(scriptLetters[x.Script])
	var args []string
	for i, l := range []string{"a", "b", "c", "d", "é", "ё", "𝒂", "가"} {
		if i < 4 || Chance(t, 75, "in script") {
			args = append(args, l, string(to[i]))
		}
	}
	r := strings.NewReplacer(args...)
	x.repl = r
	for k, v := range x.Macros {
		x.Macros[k] = r.Replace(v)
	}
	for _, vs := range x.Vars {
		for i, v := range vs {
			vs[i] = r.Replace(v)
		}
	}
	norm := map[string][]string{}
	seen := map[string]bool{}
	for _, k := range Keys(x.Normalize) {
		var froms []string
		for _, v := range x.Normalize[k] {
			if v = r.Replace(v); !seen[v] {
				seen[v] = true
				froms = append(froms, v)
			}
		}
		norm[r.Replace(k)] = froms
	}
	x.Normalize = norm
	for _, rules := range [][][2]string{x.Rewrite, x.Transcribe} {
		for i, rule := range rules {
			// The names of vars are not translated.
			from := outsideVars(r, rule[0])
			p, err := model.CompilePat(from, x.Macros, x.Vars)
			if err != nil || p.CoreMayBeEmpty() || outOfDomain(p) {
				from = r.Replace("a") // a class with an empty range, for example
			}
			rules[i] = [2]string{from, outsideVars(r, rule[1])}
		}
	}
}

func outsideVars(r *strings.Replacer, s string) string {
	var b strings.Builder
	for s != "" {
		i := strings.IndexByte(s, '<')
		j := -1
		if i >= 0 {
			j = strings.IndexByte(s[i:], '>')
		}
		if j < 0 {
			b.WriteString(r.Replace(s))
			break
		}
		b.WriteString(r.Replace(s[:i]))
		b.WriteString(s[i : i+j+1])
		s = s[i+j+1:]
	}
	return b.String()
}

// SpecWord draws a word for a generated spec.
func SpecWord(t *rapid.T, x *Spec, s *model.Spec) string {
	rules := append(append([]*model.Rule{}, s.Rewrite...), s.Transcribe...)
	var b strings.Builder
	for n := Range(t, 1, 6, "parts"); n > 0; n-- {
		if len(rules) > 0 && Chance(t, 85, "rule") {
			b.WriteString(HREWord(t, Pick(t, rules, "which").P))
		} else {
			b.WriteString(Runes(t, 1, 4, "w", func(t *rapid.T) rune {
				return []rune(Pick(t, append([]string{"A", "B", "É", "Ё", "Α", "Β", "ა", "が", "あ", "か", "ー", "。", "「", "」", ",", "1", " ", "\n", "가"}, hreLetters...), "l"))[0]
			}))
		}
		b.WriteString(Pick(t, []string{"", "", " ", ",", "1", "\u3000", "-"}, "sep"))
	}
	w := b.String()
	if Chance(t, 70, "in script") {
		w = x.repl.Replace(w)
	}
	if Chance(t, 25, "upper") {
		w = strings.ToUpper(w)
	}
	return w
}

func outOfDomain(p *model.Pat) bool {
	return p.CoreIsAlt() && (p.NegA != nil || p.NegB != nil) || p.NegAW < 0 || p.NegBW < 0
}
