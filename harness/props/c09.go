package props

import (
	"fmt"
	"reflect"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

type c09case struct {
	gen.HRE
	Word fw.S `json:"word"`
	N    int  `json:"n"`
}

func genC09(t *rapid.T) c09case {
	x := c09case{HRE: gen.GenHRE(t, false)}
	p, err := model.CompilePat(x.Expr, x.Macros, x.Vars)
	if err != nil {
		panic(err)
	}
	x.Word = fw.S(gen.Flood(t, gen.HREWord(t, p), 3))
	x.N = gen.Pick(t, []int{-1, -1, -1, -1, 1, 2, 3, 0, 1000}, "n")
	return x
}

type c10case struct {
	c09case
	To string `json:"to"`
}

type c11case struct {
	gen.HRE
	Valid bool `json:"valid"`
	Word  fw.S `json:"word"`

	Broken bool `json:"broken,omitempty"` // must be refused

	// Regexp is a regular expression of a known width.
	Regexp string `json:"regexp,omitempty"`
	Width  int    `json:"width,omitempty"`
}

func outOfDomain(p *model.Pat) bool {
	return p.CoreMayBeEmpty() || p.CoreIsAlt() && (p.NegA != nil || p.NegB != nil)
}

func init() {
	fw.Reg("C09",
		"A case is an HRE expression from a grammar (literals, classes, groups, quantifiers, macros, vars, edges, positive and negative lookarounds, literal {}), a word sampled from the pattern or random (also with invalid UTF-8), and a limit. The oracle is a naive backtracking matcher: all locations and submatches must agree. Non-trivial: at least one match, or a candidate rejected by a lookaround.",
		genC09,
		func(c *fw.Ctx, x c09case) error {
			mp, err := model.CompilePat(x.Expr, x.Macros, x.Vars)
			if err != nil {
				return nil
			}
			p, err := hre.NewPattern(x.Expr, x.Macros, x.Vars)
			if err != nil {
				return fmt.Errorf("%q (macros %q, vars %q): %w", x.Expr, x.Macros, x.Vars, err)
			}
			word := string(x.Word)
			want, err := mp.Find(word, x.N)
			if err != nil {
				return nil
			}
			got := p.Find(word, x.N)
			look := strings.Contains(x.Expr, "{")
			c.NonTrivialIf(len(got) > 0 || look && word != "")
			c.LabelIf(len(got) > 0, "matched")
			c.LabelIf(len(got) > 1, "matched twice or more")
			c.LabelIf(len(got) > 0 && look, "matched with a lookaround")
			c.LabelIf(len(got) > 0 && strings.ContainsAny(x.Expr, "^$"), "matched with an edge")
			if len(got) == 0 && len(want) == 0 {
				return nil
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("%q (macros %q, vars %q): Find(%s, %d) = %v, want %v", x.Expr, x.Macros, x.Vars, q(word), x.N, got, want)
			}
			return nil
		})

	fw.Reg("C10",
		"A case is an HRE expression with vars and macros, a replacement expression, a word, and a limit. The oracle interpolates the n-th var of the replacement by the index of the value matched by the n-th captured var, modulo the number of values; a match which cannot be mapped stays. Non-trivial: at least one match is replaced.",
		func(t *rapid.T) c10case {
			x := c10case{c09case: genC09(t)}
			x.To = gen.RExpr(t, x.Macros, x.Vars)
			return x
		},
		func(c *fw.Ctx, x c10case) error {
			mp, err := model.CompilePat(x.Expr, x.Macros, x.Vars)
			if err != nil {
				return nil
			}
			p, err := hre.NewPattern(x.Expr, x.Macros, x.Vars)
			if err != nil {
				return fmt.Errorf("%q (macros %q, vars %q): %w", x.Expr, x.Macros, x.Vars, err)
			}
			word := string(x.Word)
			mr := model.CompileRPat(x.To, x.Macros, x.Vars)
			want, err := model.Replace(mp, mr, word, x.N)
			if err != nil {
				return nil
			}
			r := hre.NewRPattern(x.To, x.Macros, x.Vars)
			got := p.Replace(word, r, x.N)
			c.NonTrivialIf(got != word)
			c.LabelIf(got != word && strings.Contains(x.To, "<"), "a var mapped")
			if got != want {
				return fmt.Errorf("%q -> %q (macros %q, vars %q): Replace(%s, %d) = %s, want %s", x.Expr, x.To, x.Macros, x.Vars, q(word), x.N, q(got), q(want))
			}
			// A Rule replaces all matches.
			if want, err := model.Replace(mp, mr, word, -1); err == nil {
				rule := hangulize.Rule{ID: 1, From: p, To: r}
				if got := rule.Replace(word); got != want {
					return fmt.Errorf("the rule %s (macros %q, vars %q): Replace(%s) = %s, want %s", rule, x.Macros, x.Vars, q(word), q(got), q(want))
				}
				if rule.String() != `"`+x.Expr+`" -> "`+x.To+`"` {
					return fmt.Errorf("the rule of %q and %q prints %s", x.Expr, x.To, rule)
				}
			}
			if r.String() != x.To {
				return fmt.Errorf("RPattern %q prints %q", x.To, r.String())
			}
			if gl, wl := r.Letters(), model.CollectRLetters(x.To); string(gl) != string(wl) {
				return fmt.Errorf("letters of the RPattern %q are %q, want %q", x.To, string(gl), string(wl))
			}
			return nil
		})

	fw.Reg("C11",
		"A case is a grammatical HRE expression, or any string over metacharacters and letters. Compiling must terminate without a panic: a grammatical expression compiles, a lookaround in the middle is an error, and what compiles has the exact letters and lookaround widths of the model (RegexpMaxWidth also by itself), prints its source, and searches any word without a panic (unless a match would be empty) into ordered matches inside the word; compiling again gives the same. Non-trivial: the expression compiles and has a metacharacter.",
		func(t *rapid.T) c11case {
			if gen.Chance(t, 5, "regexp") {
				var x c11case
				x.Regexp, x.Width = genRegexp(t, 4)
				return x
			}
			if gen.Chance(t, 60, "valid") {
				x := c11case{HRE: gen.GenHRE(t, false), Valid: true}
				if gen.Chance(t, 12, "wide") {
					x.Expr = gen.WideExpr(t)
				}
				if gen.Chance(t, 10, "middle") {
					x.Expr = "a" + gen.Pick(t, []string{"{b}", "{~b}", "{2}", "{ }"}, "mid") + "a"
					x.Valid = false
				}
				p, err := model.CompilePat(x.Expr, x.Macros, x.Vars)
				if err == nil {
					x.Word = fw.S(gen.Flood(t, gen.HREWord(t, p), 3))
				}
				return x
			}
			macros, vars := gen.EnvFeatures(t)
			if gen.Chance(t, 25, "broken") {
				// What is no regexp, wherever it is.
				bad := gen.Pick(t, []string{"(", "(a", "[", "[a", "a**", "[b-a]", "(?z)", "a\\", "(a\\", "(?P<x", "\\pX", "a\\\\\\", "(?P<n>b", "\\8"}, "bad")
				form := gen.Pick(t, []string{"%s", "b%s", "{%s}b", "b{%s}", "{~%s}b", "b{~%s}", "^%s", "{a}%s", "{~a}%s", "<v>%s"}, "form")
				if gen.Chance(t, 25, "quantifier") {
					// Nothing is to repeat, and "?" begins no flags.
					bad = gen.Pick(t, []string{"?a", "?:a", "*a", "+a", "?i:a", "?P<x>a", "??a", "?", "*", "+", "??"}, "bad quantifier")
					form = gen.Pick(t, []string{"{%s}b", "b{%s}", "{~%s}b", "b{~%s}", "{a|%s}b", "b{a|%s}", "{~a|%s}b", "b{~a|%s}"}, "look")
				}
				x := c11case{HRE: gen.HRE{Expr: fmt.Sprintf(form, bad), Macros: macros, Vars: vars}, Broken: true}
				for k := range macros {
					if strings.Contains(x.Expr, k) {
						delete(macros, k)
					}
				}
				return x
			}
			toks := []string{"a", "b", "é", "가", "^", "^^", "$", "$$", "{", "}", "{a}", "{~a}", "{}", "<v>", "<w>", "<", ">", "<zz>", "(", ")", "(?:", "(?P<x>", "(?i)", "[", "]", "[^", "[a-c]", "|", "*", "+", "?", ".", "\\", "\\.", "\\d", "\\p{L}", "@", " ", "-", "~", "/", ",", "#", "{2}", "{1,2}", "\xff"}
			x := c11case{HRE: gen.HRE{Macros: macros, Vars: vars}}
			var b strings.Builder
			for n := gen.Range(t, 0, 8, "n"); n > 0; n-- {
				if gen.Chance(t, 10, "any") {
					b.WriteString(string(gen.AnyRune(t)))
				} else {
					b.WriteString(gen.Pick(t, toks, "tok"))
				}
			}
			x.Expr = strings.ToValidUTF8(b.String(), "\ufffd")
			x.Word = fw.S(gen.Runes(t, 0, 8, "w", func(t *rapid.T) rune {
				return []rune(gen.Pick(t, []string{"a", "b", "é", "가", " ", "{", "}", "-", "."}, "l"))[0]
			}))
			return x
		},
		checkC11)
}

// genRegexp draws a regular expression and the width of its longest match,
// which is -1 when there is no longest.
func genRegexp(t *rapid.T, depth int) (string, int) {
	k := gen.Weighted(t, "re", 4, 2, 2, 1, boolInt(depth > 0)*4, boolInt(depth > 0)*4, boolInt(depth > 0)*4)
	switch k {
	case 0:
		w := gen.Runes(t, 1, 4, "lit", func(t *rapid.T) rune { return gen.Pick(t, []rune("abé가𝒂"), "l") })
		return w, utf8.RuneCountInString(w)
	case 1:
		return gen.Pick(t, []string{".", "[ab]", "[^가]", `\d`, `\pL`, `\.`, "(?s:.)", "(?i:a)"}, "class"), 1
	case 2:
		return gen.Pick(t, []string{"^", "$", `\b`, `\B`, "(?:)", `\A`, `\z`, "(?m:^)", "(?m:$)"}, "empty"), 0
	case 3:
		return gen.Pick(t, []string{"a*", "a+", "[ab]*?", "(?:ab)+?", "a{2,}", "(?:a|b)*"}, "unlimited"), -1
	case 4:
		a, n := genRegexp(t, depth-1)
		lo := gen.Range(t, 0, 3, "min")
		hi := lo + gen.Range(t, 0, 3, "more")
		re := fmt.Sprintf("(?:%s){%d,%d}", a, lo, hi)
		switch gen.Int(t, 4, "repeat") {
		case 0:
			hi, re = 1, "(?:"+a+")?"
		case 1:
			hi, re = lo, fmt.Sprintf("(%s){%d}", a, lo)
		}
		if hi == 0 {
			return re, 0
		}
		if n > 0 {
			n *= hi
		}
		return re, n
	case 5:
		a, n := genRegexp(t, depth-1)
		b, m := genRegexp(t, depth-1)
		if n < 0 || m < 0 {
			return "(?:" + a + ")" + b, -1
		}
		return "(?:" + a + ")" + b, n + m
	default:
		a, n := genRegexp(t, depth-1)
		b, m := genRegexp(t, depth-1)
		if n < 0 || m < 0 {
			return "(" + a + "|" + b + ")", -1
		}
		return "(" + a + "|" + b + ")", max(n, m)
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func checkC11(c *fw.Ctx, x c11case) error {
	if x.Regexp != "" {
		re, err := syntax.Parse(x.Regexp, syntax.Perl)
		if err != nil {
			return nil
		}
		c.Label("a width")
		c.NonTrivial()
		if got := hre.RegexpMaxWidth(re); got != x.Width {
			return fmt.Errorf("the width of the regular expression %q is %d, want %d", x.Regexp, got, x.Width)
		}
		return nil
	}
	desc := fmt.Sprintf("%q (macros %q, vars %q)", x.Expr, x.Macros, x.Vars)
	p, err := hre.NewPattern(x.Expr, x.Macros, x.Vars)
	p2, err2 := hre.NewPattern(x.Expr, x.Macros, x.Vars)
	if (err == nil) != (err2 == nil) {
		return fmt.Errorf("%s: compiles only sometimes: %v, %v", desc, err, err2)
	}
	mp, merr := model.CompilePat(x.Expr, x.Macros, x.Vars)
	if x.Expr == "" && err == nil {
		return fmt.Errorf("the empty expression compiles")
	}
	// With an edge inside of a lookaround the expression may never match at
	// all, so its other parts may go unnoticed.
	if merr == model.ErrMiddle && err == nil && !strings.ContainsAny(x.Expr, "^$") {
		return fmt.Errorf("%s: a lookaround in the middle compiles", desc)
	}
	if x.Broken && err == nil {
		return fmt.Errorf("%s: compiles", desc)
	}
	if merr == nil && err != nil && x.Valid {
		return fmt.Errorf("%s: %w", desc, err)
	}
	r := hre.NewRPattern(x.Expr, x.Macros, x.Vars)
	if r.String() != x.Expr {
		return fmt.Errorf("%s: the RPattern prints %q", desc, r)
	}
	if err != nil {
		c.Label("rejected")
		return nil
	}
	c.NonTrivialIf(strings.ContainsAny(x.Expr, "^${}<>()[]|*+?."))
	if p.String() != x.Expr {
		return fmt.Errorf("%s: prints %q", desc, p)
	}
	if e := p.Explain(); !strings.Contains(e, x.Expr) || e != p2.Explain() {
		return fmt.Errorf("%s: explained as %q", desc, e)
	}
	if l, l2 := string(p.Letters()), string(p2.Letters()); l != l2 {
		return fmt.Errorf("%s: letters %q and %q", desc, l, l2)
	}
	// What is done to the letters is no business of the pattern.
	for _, letters := range []func() []rune{p.Letters, r.Letters} {
		was := letters()
		want := string(was)
		for i := range was {
			was[i] = '\x00'
		}
		_ = append(was[:0], '\x01')
		if got := string(letters()); got != want {
			return fmt.Errorf("%s: letters %q, but %q once they are overwritten", desc, want, got)
		}
	}
	a, b := p.NegativeLookaroundWidths()
	if x.Valid && merr == nil {
		if got, want := string(p.Letters()), string(mp.Letters()); got != want {
			return fmt.Errorf("%s: letters %q, want %q", desc, got, want)
		}
		if !mp.Never && (a != mp.NegAW || b != mp.NegBW) {
			return fmt.Errorf("%s: lookaround widths %d, %d, want %d, %d", desc, a, b, mp.NegAW, mp.NegBW)
		}
	}

	word := string(x.Word)
	ms, panicked := findSafely(p, word)
	if panicked != nil {
		if merr == nil {
			if _, err := mp.Find(word, -1); err == nil && !outOfDomain(mp) {
				return fmt.Errorf("%s: Find(%s) panics: %v", desc, q(word), panicked)
			}
		} else if !strings.Contains(fmt.Sprint(panicked), "zero-width") {
			return fmt.Errorf("%s: Find(%s) panics: %v", desc, q(word), panicked)
		}
		c.Label("empty match")
		return nil
	}
	ms2, _ := findSafely(p2, word)
	if !reflect.DeepEqual(ms, ms2) {
		return fmt.Errorf("%s: Find(%s) = %v, then %v", desc, q(word), ms, ms2)
	}
	last := 0
	for _, m := range ms {
		if len(m) < 2 || len(m)%2 != 0 || m[0] < last || m[1] <= m[0] || m[1] > len(word) {
			return fmt.Errorf("%s: Find(%s) = %v is out of order", desc, q(word), ms)
		}
		if utf8.ValidString(word) && (!utf8.ValidString(word[:m[0]]) || !utf8.ValidString(word[m[0]:m[1]])) {
			return fmt.Errorf("%s: Find(%s) = %v cuts a letter", desc, q(word), ms)
		}
		last = m[1]
	}
	for n := 0; n <= len(ms); n++ {
		if n > 20 && n < len(ms)-3 {
			continue
		}
		part, _ := findSafely2(p, word, n)
		if len(part) != n || n > 0 && !reflect.DeepEqual(part, ms[:n]) {
			return fmt.Errorf("%s: Find(%s, %d) = %v, but all are %v", desc, q(word), n, part, ms)
		}
	}
	return nil
}

func findSafely(p *hre.Pattern, word string) ([][]int, any) { return findSafely2(p, word, -1) }

func findSafely2(p *hre.Pattern, word string, n int) (ms [][]int, panicked any) {
	defer func() { panicked = recover() }()
	return p.Find(word, n), nil
}
