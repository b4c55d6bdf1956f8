package props

import (
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"

	"verif/harness/fw"
	"verif/harness/gen"
)

// line is a pair of a section.
type specLine struct {
	L    string   `json:"l"`
	List bool     `json:"list"`
	R    []string `json:"r"`
}

type specSec struct {
	Name  string     `json:"name"`
	Lines []specLine `json:"lines"`
}

type c14case struct {
	Secs []specSec `json:"secs"`
	// What is wrong with the spec.
	Defect string `json:"defect,omitempty"`
}

func (x *c14case) source() string {
	var b strings.Builder
	for _, sec := range x.Secs {
		fmt.Fprintf(&b, "%s:\n", gen.Quote(sec.Name))
		for _, l := range sec.Lines {
			arrow := "="
			if l.List {
				arrow = "->"
			}
			fmt.Fprintf(&b, "    %s %s %s\n", gen.Quote(l.L), arrow, gen.QuoteAll(l.R))
		}
	}
	return b.String()
}

func (x *c14case) sec(name string) *specSec {
	for i := range x.Secs {
		if x.Secs[i].Name == name {
			return &x.Secs[i]
		}
	}
	return nil
}

var specDefects = []string{"codes", "script", "pattern", "middle", "empty pattern", "unlimited", "macro values", "kind", "no right", "duplicated"}

func genC14(t *rapid.T) c14case {
	g := gen.GenSpec(t)
	str := func(label string) string { return strings.ToValidUTF8(genHSLString(t), "?") }
	var x c14case
	x.Secs = append(x.Secs, specSec{"lang", []specLine{
		{"id", false, []string{str("id")}},
		{"codes", false, []string{str("code"), str("code")}},
		{"english", false, []string{str("english")}},
		{"korean", false, []string{str("korean")}},
		{"script", false, []string{g.Script}},
	}})
	if gen.Chance(t, 40, "translit") {
		l := specLine{L: "translit"}
		for n := gen.Range(t, 0, 3, "n"); n > 0; n-- {
			l.R = append(l.R, gen.Pick(t, []string{"furigana", "pinyin", "cyrillic[ru]", "x", "", "Pinyin", " x ", "가"}, "scheme"))
		}
		x.Secs[0].Lines = append(x.Secs[0].Lines, l)
	}
	config := specSec{Name: "config"}
	if gen.Chance(t, 60, "authors") {
		l := specLine{L: "authors"}
		for n := gen.Range(t, 0, 3, "n"); n > 0; n-- {
			l.R = append(l.R, str("author"))
		}
		config.Lines = append(config.Lines, l)
	}
	if gen.Chance(t, 40, "author") {
		config.Lines = append(config.Lines, specLine{"author", false, []string{str("author")}})
	}
	if gen.Chance(t, 60, "stage") {
		config.Lines = append(config.Lines, specLine{"stage", false, []string{str("stage")}})
	}
	x.Secs = append(x.Secs, config)
	macros, vars, norm := specSec{Name: "macros"}, specSec{Name: "vars"}, specSec{Name: "normalize"}
	for _, k := range gen.Keys(g.Macros) {
		macros.Lines = append(macros.Lines, specLine{k, false, []string{g.Macros[k]}})
	}
	for _, k := range gen.Keys(g.Vars) {
		vars.Lines = append(vars.Lines, specLine{k, false, g.Vars[k]})
	}
	for _, k := range gen.Keys(g.Normalize) {
		norm.Lines = append(norm.Lines, specLine{k, false, g.Normalize[k]})
	}
	rewrite, transcribe, test := specSec{Name: "rewrite"}, specSec{Name: "transcribe"}, specSec{Name: "test"}
	rule := func(r [2]string) specLine {
		l := specLine{r[0], true, []string{r[1]}}
		if gen.Chance(t, 10, "more") {
			l.R = append(l.R, "unused")
		}
		return l
	}
	for _, r := range g.Rewrite {
		rewrite.Lines = append(rewrite.Lines, rule(r))
	}
	for _, r := range g.Transcribe {
		transcribe.Lines = append(transcribe.Lines, rule(r))
	}
	for n := gen.Range(t, 0, 3, "tests"); n > 0; n-- {
		test.Lines = append(test.Lines, specLine{str("word"), true, []string{str("result")}})
	}
	x.Secs = append(x.Secs, macros, vars, norm, rewrite, transcribe, test)
	if gen.Chance(t, 20, "unknown section") {
		x.Secs = append(x.Secs, specSec{"whatever", []specLine{{"a", gen.Chance(t, 50, "list"), []string{"b"}}}})
	}
	if gen.Chance(t, 30, "order") {
		x.Secs = rapid.Permutation(x.Secs).Draw(t, "perm")
	}

	if !gen.Chance(t, 60, "defect") {
		if gen.Chance(t, 30, "no lang") {
			// Every section is optional.
			at := gen.Int(t, len(x.Secs), "drop")
			if n := x.Secs[at].Name; n != "macros" && n != "vars" {
				x.Secs = append(x.Secs[:at:at], x.Secs[at+1:]...)
			}
		}
		return x
	}
	x.Defect = gen.Pick(t, specDefects, "which")
	insert := func(s *specSec, l specLine) {
		at := gen.Int(t, len(s.Lines)+1, "at")
		s.Lines = append(s.Lines[:at:at], append([]specLine{l}, s.Lines[at:]...)...)
	}
	rules := x.sec(gen.Pick(t, []string{"rewrite", "transcribe"}, "rules"))
	bad := func(exprs ...string) {
		insert(rules, specLine{gen.Pick(t, exprs, "expr"), true, []string{"ㄱ"}})
	}
	switch x.Defect {
	case "codes":
		l := &x.sec("lang").Lines[1]
		l.R = gen.Pick(t, [][]string{nil, {"it"}, {"it", "ita", "x"}}, "codes")
		if gen.Chance(t, 20, "no codes") {
			lang := x.sec("lang")
			lang.Lines = append(lang.Lines[:1:1], lang.Lines[2:]...)
		}
	case "script":
		x.sec("lang").Lines[4].R = []string{gen.Pick(t, []string{"latn", "Latin", "LATN", "Hang", "roman", " Latn", "Latn ", "Cyr", "Hira", "x"}, "script")}
	case "pattern":
		bad("(", "a(b", "a)", "[", "a[b", "[z-a]", "a**", "(*a)", "(?P<x>a", "(?z)a", "{~(}a", "a{~[}", "{(}a", "a(?", "a\\")
	case "middle":
		bad("a{b}a", "a{~b}a", "{b}{c}a", "a{b}{c}", "a{~b}b$")
	case "empty pattern":
		bad("")
	case "unlimited":
		bad("{~a*}b", "{~a+}b", "b{~a*}", "b{~.+}", "b{~(?:ab)*}", "{~[ab]+?}c", "b{~a|b*}", "b{~x(?:a|b+)}")
	case "macro values":
		insert(x.sec("macros"), specLine{"UNUSED", false, gen.Pick(t, [][]string{nil, {"a", "b"}}, "values")})
	case "kind":
		sec := &x.Secs[gen.Int(t, 8, "which")]
		for sec.Name == "whatever" {
			sec = x.sec("test")
		}
		isList := sec.Name == "rewrite" || sec.Name == "transcribe" || sec.Name == "test"
		sec.Lines = nil
		for n := gen.Range(t, 1, 3, "n"); n > 0; n-- {
			sec.Lines = append(sec.Lines, specLine{fmt.Sprint("key", n), !isList, []string{"a", "b"}[:gen.Range(t, 1, 2, "vals")]})
		}
	case "no right":
		insert(x.sec(gen.Pick(t, []string{"rewrite", "transcribe", "test"}, "sec")), specLine{"a", true, nil})
	case "duplicated":
		sec := x.sec(gen.Pick(t, []string{"lang", "config", "macros", "vars", "normalize"}, "sec"))
		insert(sec, specLine{"dup", false, []string{"a"}})
		insert(sec, specLine{"dup", false, []string{gen.Pick(t, []string{"a", "b"}, "same")}})
	}
	return x
}

func lineOf(sec *specSec, l string) []string {
	if sec != nil {
		for _, p := range sec.Lines {
			if p.L == l {
				return p.R
			}
		}
	}
	return nil
}

func checkC14(c *fw.Ctx, x c14case) error {
	src := x.source()
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	if x.Defect != "" {
		c.Label("defect: " + x.Defect)
		c.NonTrivial()
		if err == nil {
			return fmt.Errorf("accepted in spite of a defect (%s):\n%s", x.Defect, src)
		}
		if spec != nil {
			return fmt.Errorf("a spec and the error %v:\n%s", err, src)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%w\n%s", err, src)
	}

	one := func(sec, l string) string {
		r := lineOf(x.sec(sec), l)
		if len(r) == 0 {
			return ""
		}
		return r[0]
	}
	differs := func(what string, got, want any) error {
		gv := reflect.ValueOf(got)
		if k := gv.Kind(); (k == reflect.Map || k == reflect.Slice) && gv.Len() == 0 && reflect.ValueOf(want).Len() == 0 {
			return nil
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%s is %q, want %q\n%s", what, got, want, src)
		}
		return nil
	}
	var codes [2]string
	copy(codes[:], lineOf(x.sec("lang"), "codes"))
	var authors []string
	authors = append(append(authors, lineOf(x.sec("config"), "author")...), lineOf(x.sec("config"), "authors")...)
	macros, vars, norm := map[string]string{}, map[string][]string{}, map[string][]string{}
	for name, m := range map[string]map[string][]string{"vars": vars, "normalize": norm} {
		if sec := x.sec(name); sec != nil {
			for _, l := range sec.Lines {
				m[l.L] = l.R
			}
		}
	}
	if sec := x.sec("macros"); sec != nil {
		for _, l := range sec.Lines {
			macros[l.L] = l.R[0]
		}
	}
	var test [][2]string
	if sec := x.sec("test"); sec != nil {
		for _, l := range sec.Lines {
			test = append(test, [2]string{l.L, l.R[0]})
		}
	}
	rules := func(name string) []string {
		var out []string
		if sec := x.sec(name); sec != nil {
			for i, l := range sec.Lines {
				out = append(out, fmt.Sprintf("%d %q %q", i, l.L, l.R[0]))
			}
		}
		return out
	}
	lang := hangulize.Language{
		ID: one("lang", "id"), Codes: codes, English: one("lang", "english"), Korean: one("lang", "korean"),
		Script: one("lang", "script"), Translit: lineOf(x.sec("lang"), "translit"),
	}
	if len(spec.Lang.Translit) == 0 && len(lang.Translit) == 0 {
		lang.Translit = spec.Lang.Translit
	}
	for _, e := range []error{
		differs("Lang", spec.Lang, lang),
		differs("Authors", spec.Config.Authors, authors),
		differs("Stage", spec.Config.Stage, one("config", "stage")),
		differs("Macros", spec.Macros, macros),
		differs("Vars", spec.Vars, vars),
		differs("Normalize", spec.Normalize, norm),
		differs("Rewrite", ruleStrings(spec.Rewrite), rules("rewrite")),
		differs("Transcribe", ruleStrings(spec.Transcribe), rules("transcribe")),
		differs("Test", spec.Test, test),
		differs("Source", spec.Source, src),
		differs("String", spec.String(), lang.ID),
		differs("the source of rule 0", firstRule(spec.Rewrite), firstModelRule(x.sec("rewrite"))),
	} {
		if e != nil {
			return e
		}
	}
	c.NonTrivialIf(len(spec.Rewrite)+len(spec.Transcribe) >= 2)
	return nil
}

func firstRule(rs []hangulize.Rule) string {
	if len(rs) == 0 {
		return ""
	}
	return rs[0].String()
}

func firstModelRule(s *specSec) string {
	if s == nil || len(s.Lines) == 0 {
		return ""
	}
	return fmt.Sprintf(`"%s" -> "%s"`, s.Lines[0].L, s.Lines[0].R[0])
}

func init() {
	fw.Reg("C14",
		"A case is a generated spec in any order of sections, or one with a single defect hidden among valid lines (a wrong number of codes, an unknown script, an invalid or empty pattern, a lookaround in the middle, an unlimited negative lookaround, a macro without a single value, a section of the wrong kind, a pair without a right, a duplicated key). A valid source must give a Spec with exactly its contents; a defective one must give an error and no Spec. Non-trivial: at least two rules, or a defect.",
		genC14, checkC14,
		func(p *fw.Prop) { p.Batch = 50 },
		fw.FixedCases(func(e *fw.Env) []c14case {
			// Large specs.
			var out []c14case
			for _, n := range []int{257, 1100, 5000} {
				x := c14case{Secs: []specSec{
					{"lang", []specLine{{"id", false, []string{strings.Repeat("x", n)}}, {"codes", false, []string{"it", "ita"}}, {"script", false, []string{"Latn"}}}},
					{Name: "macros"}, {Name: "vars"}, {Name: "normalize"}, {Name: "rewrite"}, {Name: "transcribe"}, {Name: "test"},
				}}
				for i := 0; i < n; i++ {
					if i < 300 {
						x.Secs[1].Lines = append(x.Secs[1].Lines, specLine{fmt.Sprintf("@m%dz", i), false, []string{fmt.Sprint("x", i)}})
						x.Secs[2].Lines = append(x.Secs[2].Lines, specLine{fmt.Sprint("v", i), false, []string{"a", fmt.Sprint("b", i)}})
						x.Secs[3].Lines = append(x.Secs[3].Lines, specLine{string(rune('가' + i)), false, []string{string(rune(0x4e00 + i)), "x"}})
					}
					x.Secs[4].Lines = append(x.Secs[4].Lines, specLine{fmt.Sprint("a", i), true, []string{fmt.Sprint("b", i)}})
					x.Secs[5].Lines = append(x.Secs[5].Lines, specLine{fmt.Sprint("c", i), true, []string{"ㄱ"}})
					x.Secs[6].Lines = append(x.Secs[6].Lines, specLine{fmt.Sprint("w", i), true, []string{"가"}})
				}
				out = append(out, x)
			}
			return out
		}))
}
