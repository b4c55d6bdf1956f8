package gen

import (
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// HRE is a generated HRE environment and expression.
type HRE struct {
	Expr   string              `json:"expr"`
	Macros map[string]string   `json:"macros,omitempty"`
	Vars   map[string][]string `json:"vars,omitempty"`
}

// hreLetters are few, so matches are frequent; they have various UTF-8 widths.
var hreLetters = []string{"a", "b", "c", "d", "é", "가", "-", "'", "𝒂", "ё"}

var macroKeys = []string{"@", "%", "@@", "M", "MN", "&"}

// EnvFeatures chooses macros and vars.
func EnvFeatures(t *rapid.T) (map[string]string, map[string][]string) {
	macros := map[string]string{}
	for n := Weighted(t, "nmacro", 4, 3, 2, 1); n > 0; n-- {
		k := Pick(t, macroKeys, "mk")
		switch Weighted(t, "mv", 6, 4, 4, 2, 2, 1) {
		case 0:
			macros[k] = "[" + letters(t, 1, 3) + "]"
		case 1:
			macros[k] = letters(t, 1, 2)
		case 2:
			macros[k] = "(?:" + letters(t, 1, 2) + "|" + letters(t, 1, 2) + ")"
		case 3:
			macros[k] = "<v>"
		case 4:
			macros[k] = "(" + letters(t, 1, 2) + ")"
		default:
			// What a macro writes is not expanded again.
			form := Pick(t, []string{"%s", "b%s", "%sb", "(%s|a)", "%s%s", "(?:%s)"}, "again")
			macros[k] = strings.ReplaceAll(form, "%s", Pick(t, append([]string{k, k}, macroKeys...), "inner"))
		}
	}
	vars := map[string][]string{}
	for _, name := range []string{"v", "w", "long"} {
		if !Chance(t, 70, "var?") {
			continue
		}
		var vals []string
		for n := Range(t, 1, 4, "nval"); n > 0; n-- {
			switch Weighted(t, "val", 24, 8, 4, 1) {
			case 3:
				// A value may be nothing.
				vals = append(vals, "")
			case 0:
				vals = append(vals, letters(t, 1, 1))
			case 1:
				vals = append(vals, letters(t, 2, 3))
			default:
				vals = append(vals, Pick(t, []string{".", "+", "^", "$", "|", "(", "*", "a.", "[a]"}, "meta"))
			}
		}
		vars[name] = vals
	}
	return macros, vars
}

func letters(t *rapid.T, min, max int) string {
	var b strings.Builder
	for n := Range(t, min, max, "nl"); n > 0; n-- {
		b.WriteString(Pick(t, hreLetters, "l"))
	}
	return strings.TrimLeft(b.String(), "-") + strings.Repeat("a", boolInt(strings.Trim(b.String(), "-") == ""))
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

type patGen struct {
	t      *rapid.T
	macros []string
	vars   []string
	look   bool // in a lookaround
}

func (g *patGen) alt(depth int) string {
	n := 1 + Weighted(g.t, "nalt", 6, 3, 1)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, g.cat(depth))
	}
	return strings.Join(parts, "|")
}

func (g *patGen) cat(depth int) string {
	var b strings.Builder
	for n := Range(g.t, 1, 3, "ncat"); n > 0; n-- {
		b.WriteString(g.piece(depth))
	}
	return b.String()
}

// piece is a quantified atom.
func (g *patGen) piece(depth int) string {
	atom, canRep := g.atom(depth)
	if canRep {
		switch Weighted(g.t, "rep", 12, 1, 1, 2, 1) {
		case 1:
			return atom + "*"
		case 2:
			return atom + "+"
		case 3:
			return atom + "?"
		case 4:
			return atom + Pick(g.t, []string{"*?", "+?", "??"}, "lazy")
		}
	}
	return atom
}

func (g *patGen) atom(depth int) (string, bool) {
	t := g.t
	w := []int{14, 4, 1, 2, 3, 4, 3, 2}
	if depth <= 0 {
		w[4], w[5] = 0, 0
	}
	if len(g.macros) == 0 {
		w[6] = 0
	}
	if len(g.vars) == 0 {
		w[7] = 0
	}
	switch Weighted(t, "atom", w...) {
	case 0:
		l := Pick(t, hreLetters, "l")
		return l, true
	case 1:
		neg := ""
		if Chance(t, 25, "neg") {
			neg = "^"
		}
		if Chance(t, 20, "range") {
			return "[" + neg + "a-c" + Pick(t, hreLetters[4:6], "l") + "]", true
		}
		return "[" + neg + letters(t, 1, 3) + "]", true
	case 2:
		return ".", true
	case 3:
		return `\` + Pick(t, []string{".", "^", "$", "+", "*", "?", "(", ")", "[", "]", "|", "/", " ", "(?:a"}, "esc"), true
	case 4:
		return "(?:" + g.nonEmptyAlt(depth-1) + ")", true
	case 5:
		return "(" + g.nonEmptyAlt(depth-1) + ")", true
	case 6:
		return Pick(t, g.macros, "macro"), false
	default:
		return "<" + Pick(t, g.vars, "var") + ">", false
	}
}

// nonEmptyAlt is an alternation whose every branch has a plain letter.
func (g *patGen) nonEmptyAlt(depth int) string {
	n := 1 + Weighted(g.t, "nalt", 4, 4, 1)
	var parts []string
	for i := 0; i < n; i++ {
		s := Pick(g.t, hreLetters, "l")
		if depth > 0 && Chance(g.t, 40, "deep") {
			s += g.piece(depth)
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, "|")
}

// Expr draws an expression whose matches are never empty. Limited: negative
// lookarounds have limited widths.
func Expr(t *rapid.T, macros map[string]string, vars map[string][]string, limited bool) string {
	g := &patGen{t: t, macros: Keys(macros), vars: Keys(vars)}
	for i := 0; i < 20; i++ {
		e := g.expr()
		p, err := model.CompilePat(e, macros, vars)
		if err != nil {
			continue
		}
		if p.CoreMayBeEmpty() {
			continue
		}
		if p.CoreIsAlt() && (p.NegA != nil || p.NegB != nil) {
			continue
		}
		if limited && (p.NegAW < 0 || p.NegBW < 0) {
			continue
		}
		return e
	}
	return "a"
}

func (g *patGen) expr() string {
	t := g.t
	core := ""
	if Chance(t, 12, "topalt") {
		core = g.cat(2) + "|" + g.cat(2)
	} else {
		core = g.cat(2)
	}
	switch Weighted(t, "mid", 30, 1, 1, 1) {
	case 1:
		core += "$" + Pick(t, hreLetters, "l")
	case 2:
		core += "^" + Pick(t, hreLetters, "l")
	case 3:
		core += "{}" + Pick(t, hreLetters, "l")
	}
	left := Pick(t, []string{"", "", "", "", "^", "^", "^^", "^^^"}, "edgeL")
	right := Pick(t, []string{"", "", "", "", "$", "$", "$$", "$$$"}, "edgeR")
	if Chance(t, 35, "lookL") && (left == "" || Chance(t, 8, "paradoxL")) {
		left += g.lookaround()
	}
	if Chance(t, 35, "lookR") && (right == "" || Chance(t, 8, "paradoxR")) {
		right = g.lookaround() + right
	}
	e := left + core + right
	if strings.HasSuffix(core, `\`) || strings.HasSuffix(e, `\$`) {
		return "a"
	}
	return e
}

func (g *patGen) lookaround() string {
	t := g.t
	neg := Chance(t, 45, "negative")
	s := ""
	switch Weighted(t, "look", 5, 3) {
	case 0:
		s = g.nonEmptyAlt(1)
	default:
		s = g.alt(1)
	}
	if neg {
		return "{~" + s + "}"
	}
	switch Weighted(t, "lookEdge", 12, 1, 1, 1, 1) {
	case 1:
		s += "|$"
	case 2:
		s = "^|" + s
	case 3:
		s = "^" + s
	case 4:
		s += "$"
	}
	return "{" + s + "}"
}

// WideExpr draws an expression with a long lookaround.
func WideExpr(t *rapid.T) string {
	k := Pick(t, []int{5, 17, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600}, "k")
	unit := Pick(t, []string{"a", "é", "가", ".", "[ab]", "(?:b|가)", `\.`}, "unit")
	end := Pick(t, []string{"", "c", "b|a", "|a"}, "end")
	look := Pick(t, []string{"{~%s}", "{~%s}", "{%s}"}, "look")
	form := Pick(t, []string{"%sb", "b%s", "b%s$", "^%sb"}, "form")
	return strings.ReplaceAll(form, "%s", strings.ReplaceAll(look, "%s", strings.Repeat(unit, k)+end))
}

// GenHRE draws an environment and an expression.
func GenHRE(t *rapid.T, limited bool) HRE {
	macros, vars := EnvFeatures(t)
	if Chance(t, 1, "wide") {
		return HRE{WideExpr(t), nil, nil}
	}
	return HRE{Expr(t, macros, vars, limited), macros, vars}
}

// HREWord draws a word for a pattern.
func HREWord(t *rapid.T, p *model.Pat) string {
	other := func(t *rapid.T) rune {
		if Chance(t, 6, "any") {
			return AnyRune(t)
		}
		return []rune(Pick(t, append([]string{" ", " ", "{", "}", "\n", "."}, hreLetters...), "l"))[0]
	}
	switch Weighted(t, "word", 6, 3, 1, 1, 1) {
	case 0:
		return PatWord(t, p, other)
	case 1:
		return Runes(t, 0, 12, "w", other)
	case 2:
		return PatWord(t, p, other) + Pick(t, []string{" ", "{}", "\t ", "\f"}, "sep") + PatWord(t, p, other)
	case 3: // many matches
		var b strings.Builder
		Sample(t, p.LookL, &b, other)
		Sample(t, p.Core, &b, other)
		Sample(t, p.LookR, &b, other)
		return strings.Repeat(b.String(), Range(t, 2, 6, "k"))
	default:
		w := PatWord(t, p, other)
		at := Int(t, len(w)+1, "at")
		return w[:at] + string(rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "raw")) + w[at:]
	}
}

// RExpr draws a replacement expression.
func RExpr(t *rapid.T, macros map[string]string, vars map[string][]string) string {
	var b strings.Builder
	names := Keys(vars)
	mk := Keys(macros)
	sort.Strings(mk)
	for n := Range(t, 0, 4, "nr"); n > 0; n-- {
		switch Weighted(t, "rpart", 4, 3, 1, 1) {
		case 1:
			if len(names) > 0 {
				b.WriteString("<" + Pick(t, names, "var") + ">")
				continue
			}
			b.WriteString("x")
		case 2:
			b.WriteString(Pick(t, append([]string{"{}", ".", "<zz>", `\/`, `\`, "/", " ", "(?:"}, mk...), "misc"))
		case 3:
			b.WriteString(string(AnyRune(t)))
		default:
			b.WriteString(Pick(t, hreLetters, "l"))
		}
	}
	return b.String()
}
