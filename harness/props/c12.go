package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"testing/iotest"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hsl"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

// ---------------------------------------------------------------------------
// C12

type hslPair struct {
	L string   `json:"l"`
	R []string `json:"r"`
	// line is where the writer has put the pair.
	Line int `json:"line"`
}

type hslSection struct {
	Name  string    `json:"name"`
	List  bool      `json:"list"`
	Line  int       `json:"line"`
	Pairs []hslPair `json:"pairs"`
}

// c12case has the source and what it means.
type c12case struct {
	Source   string       `json:"source"`
	Sections []hslSection `json:"sections"`
	Chunk    int          `json:"chunk"`
}

func bare(s string) bool {
	for i, r := range s {
		ok := r == '_' || unicode.IsLetter(r) || i > 0 && unicode.IsDigit(r)
		if !ok {
			return false
		}
	}
	return s != ""
}

// hslWriter writes an HSL source in a random layout.
type hslWriter struct {
	t *rapid.T
	strings.Builder
}

func (w *hslWriter) line() int { return 1 + strings.Count(w.String(), "\n") }

func (w *hslWriter) space(label string, must bool) {
	if must {
		w.WriteString(gen.Pick(w.t, []string{" ", "  ", "\t", " \t ", "\u00a0", "\u3000", "\r", "\f", "\v", "\u0085", "\u1680", "\u2028", "\u2029"}, label))
		return
	}
	w.WriteString(gen.Pick(w.t, []string{"", "", " ", "  ", "\t", "\r", "\u2003", "\f", "\v\u2028"}, label))
}

func (w *hslWriter) comment() {
	c := gen.Pick(w.t, []string{"", "x", " a comment", " \"a\" -> \"b\"", "# twice", "\\", "가", "\""}, "comment")
	w.WriteString("#" + c)
}

// str writes a string; it is bare or quoted with optional escapes.
func (w *hslWriter) str(s string) {
	if bare(s) && gen.Chance(w.t, 60, "bare") {
		w.WriteString(s)
		return
	}
	w.WriteByte('"')
	rs := []rune(s)
	for i, r := range rs {
		switch r {
		case '"':
			w.WriteString(`\"`)
		case '\\':
			// A backslash before an ordinary letter stands for itself.
			if i+1 < len(rs) && rs[i+1] != '\\' && rs[i+1] != '"' && gen.Chance(w.t, 60, "plain") {
				w.WriteString(`\`)
			} else {
				w.WriteString(`\\`)
			}
		default:
			w.WriteRune(r)
		}
	}
	w.WriteByte('"')
}

// blank writes lines without any meaning.
func (w *hslWriter) blank() {
	for n := gen.Weighted(w.t, "blank", 6, 2, 1, 1); n > 0; n-- {
		w.space("indent", false)
		if gen.Chance(w.t, 50, "comment?") {
			w.comment()
		}
		w.WriteString("\n")
	}
}

// eol ends a line.
func (w *hslWriter) eol() {
	w.space("trail", false)
	if gen.Chance(w.t, 20, "trailing comment") {
		w.comment()
	}
	w.WriteString(gen.Pick(w.t, []string{"\n", "\n", "\n", "\r\n", "\n\n"}, "eol"))
}

func genHSLString(t *rapid.T) string {
	switch gen.Weighted(t, "str", 5, 4, 1, 2) {
	case 0:
		return gen.Pick(t, []string{"a", "id", "abc", "é", "가나", "_x", "a1", "日本", "Ω2"}, "word")
	case 1:
		return gen.Runes(t, 0, 6, "s", func(t *rapid.T) rune {
			return []rune(gen.Pick(t, []string{"a", "b", `"`, `\`, `\`, "#", "-", ">", "=", ",", ":", " ", "가", "^", "$", "{", "}", "<", ".", "\t", "n"}, "c"))[0]
		})
	case 2:
		return gen.Pick(t, []string{"a\nb", "\n", "\r\n", "\x00", "\u2028", "\ufeff"}, "multiline")
	default:
		return strings.ToValidUTF8(gen.Runes(t, 0, 4, "any", gen.AnyRune), "?")
	}
}

func genC12(t *rapid.T) c12case {
	w := &hslWriter{t: t}
	var secs []hslSection
	names := []string{"lang", "config", "rewrite", "a section", "x", "섹션", ""}
	w.blank()
	for n := gen.Range(t, 0, 5, "sections"); n > 0; n-- {
		name := gen.Pick(t, names[:len(names)-1], "name")
		if gen.Chance(t, 20, "odd name") {
			name = genHSLString(t)
		}
		if name == "" {
			name = "empty"
		}
		w.space("indent", false)
		w.str(name)
		w.space("s", false)
		line := w.line()
		w.WriteString(":")
		w.eol()
		w.blank()
		at := -1
		for i := range secs {
			if secs[i].Name == name {
				at = i
			}
		}
		list := gen.Chance(t, 50, "list")
		if at < 0 {
			at = len(secs)
			secs = append(secs, hslSection{Name: name, List: list, Line: line})
		} else if len(secs[at].Pairs) == 0 {
			secs[at].List, secs[at].Line = list, line
		}
		sec := &secs[at]
		for m := gen.Range(t, 0, 5, "pairs"); m > 0; m-- {
			p := hslPair{L: genHSLString(t)}
			if !sec.List {
				dup := false
				for _, o := range sec.Pairs {
					dup = dup || o.L == p.L
				}
				if dup {
					continue
				}
			}
			for k := gen.Weighted(t, "values", 1, 6, 3, 1); k > 0; k-- {
				p.R = append(p.R, genHSLString(t))
			}
			w.space("indent", false)
			w.str(p.L)
			w.space("s", false)
			p.Line = w.line()
			if sec.List {
				w.WriteString("->")
			} else {
				w.WriteString("=")
			}
			for i, r := range p.R {
				if i > 0 {
					w.space("s", false)
					w.WriteString(",")
				}
				w.space("s", false)
				w.str(r)
			}
			if len(p.R) > 0 && gen.Chance(t, 10, "trailing comma") {
				w.WriteString(",")
			}
			w.eol()
			w.blank()
			sec.Pairs = append(sec.Pairs, p)
		}
	}
	x := c12case{Source: w.String(), Sections: secs}
	if gen.Chance(t, 30, "no newline") {
		x.Source = strings.TrimRight(x.Source, "\n")
	}
	x.Chunk = gen.Pick(t, []int{0, 1, 2, 3, 7}, "chunk")
	return x
}

// chunked reads a few bytes at a time.
type chunked struct {
	r io.Reader
	n int
}

func (c chunked) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

// zeros reads nothing from time to time, which is allowed.
type zeros struct {
	r io.Reader
	n int
}

func (z *zeros) Read(p []byte) (int, error) {
	z.n++
	if z.n%3 != 0 {
		return 0, nil
	}
	return z.r.Read(p)
}

func reader(src string, chunk int) io.Reader {
	switch {
	case chunk == -2:
		return &zeros{r: chunked{strings.NewReader(src), 7}}
	case chunk == 0:
		return strings.NewReader(src)
	case chunk < 0:
		return iotest.DataErrReader(strings.NewReader(src))
	}
	return chunked{strings.NewReader(src), chunk}
}

func sameStrings(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func checkC12(c *fw.Ctx, x c12case) error {
	h, err := hsl.Parse(reader(x.Source, x.Chunk))
	if err != nil {
		return fmt.Errorf("%q: %w", x.Source, err)
	}
	total := 0
	for _, sec := range x.Sections {
		if len(sec.Pairs) == 0 {
			if h[sec.Name] != nil {
				return fmt.Errorf("%q: the empty section %q has pairs", x.Source, sec.Name)
			}
			continue
		}
		got := h[sec.Name]
		if got == nil {
			return fmt.Errorf("%q: no section %q", x.Source, sec.Name)
		}
		total += len(sec.Pairs)
		if got.Line() != sec.Line {
			return fmt.Errorf("%q: the section %q is at the line %d, want %d", x.Source, sec.Name, got.Line(), sec.Line)
		}
		pairs := got.Pairs()
		want := append([]hslPair{}, sec.Pairs...)
		if sec.List {
			if _, ok := got.(*hsl.ListSection); !ok {
				return fmt.Errorf("%q: the section %q is not a list", x.Source, sec.Name)
			}
		} else {
			dict, ok := got.(*hsl.DictSection)
			if !ok {
				return fmt.Errorf("%q: the section %q is not a dict", x.Source, sec.Name)
			}
			pairs = append([]hsl.Pair{}, pairs...)
			sort.Slice(pairs, func(i, j int) bool { return pairs[i].Left() < pairs[j].Left() })
			sortBy(want, func(p hslPair) string { return p.L })
			m := dict.Map()
			single := true
			for _, p := range want {
				if !sameStrings(m[p.L], p.R) || !sameStrings(dict.All(p.L), p.R) {
					return fmt.Errorf("%q: %q = %q, want %q", x.Source, p.L, m[p.L], p.R)
				}
				one := ""
				if len(p.R) > 0 {
					one = p.R[0]
				}
				if dict.One(p.L) != one {
					return fmt.Errorf("%q: One(%q) = %q", x.Source, p.L, dict.One(p.L))
				}
				single = single && len(p.R) == 1
			}
			if len(m) != len(want) || len(dict.All("no such key")) != 0 || dict.One("no such key") != "" {
				return fmt.Errorf("%q: the section %q has other keys: %q", x.Source, sec.Name, m)
			}
			inj, err := dict.Injective()
			if (err == nil) != single {
				return fmt.Errorf("%q: Injective of %q: %v", x.Source, sec.Name, err)
			}
			if err == nil {
				for _, p := range want {
					if inj[p.L] != p.R[0] || len(inj) != len(want) {
						return fmt.Errorf("%q: Injective of %q: %q", x.Source, sec.Name, inj)
					}
				}
			}
		}
		if len(pairs) != len(want) {
			return fmt.Errorf("%q: the section %q has %d pairs, want %d", x.Source, sec.Name, len(pairs), len(want))
		}
		for i, p := range pairs {
			if p.Left() != want[i].L || !sameStrings(p.Right(), want[i].R) {
				return fmt.Errorf("%q: the pair %d of %q is %s, want %q, %q", x.Source, i, sec.Name, p, want[i].L, want[i].R)
			}
			if p.Line() != want[i].Line {
				return fmt.Errorf("%q: the pair %d of %q is at the line %d, want %d", x.Source, i, sec.Name, p.Line(), want[i].Line)
			}
		}
	}
	for name := range h {
		known := false
		for _, sec := range x.Sections {
			known = known || sec.Name == name
		}
		if !known {
			return fmt.Errorf("%q: an unexpected section %q", x.Source, name)
		}
	}
	c.NonTrivialIf(total >= 3)
	return nil
}

// ---------------------------------------------------------------------------
// C13

type c13case struct {
	Source fw.S `json:"source"`
	Chunk  int  `json:"chunk"`
	Fail   int  `json:"fail"`  // the reader fails after so many bytes
	After  int  `json:"after"` // and then: 0 fails again, 1 ends, 2 goes on
	Pad    int  `json:"pad"`   // so many letters of comments before the source
	Error  int  `json:"error"` // which error the reader fails with
}

var errsBroken = []error{
	errors.New("broken reader"),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	io.ErrNoProgress,
	os.ErrClosed,
	context.Canceled,
	&os.PathError{Op: "read", Path: "x.hsl", Err: syscall.EISDIR},
}

type broken struct {
	r      io.Reader
	left   int
	after  int
	failed bool
	err    error
}

func (b *broken) Read(p []byte) (int, error) {
	if b.failed && b.after == 1 {
		return 0, io.EOF
	}
	if b.failed && b.after == 2 {
		return b.r.Read(p)
	}
	if b.left <= 0 {
		b.failed = true
		return 0, b.err
	}
	if len(p) > b.left {
		p = p[:b.left]
	}
	n, err := b.r.Read(p)
	b.left -= n
	return n, err
}

func genC13(t *rapid.T) c13case {
	var src string
	switch gen.Weighted(t, "kind", 3, 3, 3, 1) {
	case 0: // token soup
		toks := []string{"lang", "config", "macros", "vars", "normalize", "rewrite", "transcribe", "test", ":", ":", "=", "->", "->", "-", ">", ",", "\n", "\n", "    ", " ", "\r\n", "#", "# c\n", `"`, `"a"`, `"b"`, `""`, `"\"`, `"\\"`, "id", "codes", `"aa", "bbb"`, "script", `"Latn"`, "a", "1", "가", "\x00", "\xff", "\ufeff", "'", "{", "<v>", "^", "\\"}
		var b strings.Builder
		for n := gen.Range(t, 0, 40, "n"); n > 0; n-- {
			b.WriteString(gen.Pick(t, toks, "tok"))
		}
		src = b.String()
	case 1: // a valid source, damaged
		src = genC12(t).Source
		src = damage(t, src)
	case 2: // a bundled spec, damaged
		src = model.Source(gen.Pick(t, langs, "lang"))
		if gen.Chance(t, 60, "cut") {
			at := gen.Int(t, len(src)+1, "at")
			src = src[:at]
		} else {
			src = damage(t, src)
		}
	default:
		src = string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw"))
	}
	x := c13case{Source: fw.S(src), Chunk: gen.Pick(t, []int{0, -1, -2, 1, 2, 3, 5, 4096}, "chunk")}
	if gen.Chance(t, 5, "pad") {
		// Longer than a buffer of usual size.
		x.Pad = gen.Pick(t, []int{1000, 4090, 4096, 8192, 32768, 65530, 65536, 70000, 200000}, "size")
		x.Chunk = gen.Pick(t, []int{0, -1, -2, 4096, 5000}, "chunk of long")
	}
	x.Fail = gen.Int(t, min(len(src), 40)+1, "fail")
	if gen.Chance(t, 50, "fail late") {
		x.Fail = gen.Int(t, len(x.full())+1, "fail at")
	}
	x.After = gen.Int(t, 3, "after")
	x.Error = gen.Int(t, len(errsBroken), "error")
	return x
}

// full is the source behind its comments. The comments are one line or many.
func (x c13case) full() string {
	if x.Pad == 0 {
		return string(x.Source)
	}
	line := "# comment"
	if x.Pad%2 == 0 {
		line = "# comment: \"a\" -> b\n"
	}
	s := "#" + strings.Repeat(line, x.Pad/len(line)+1)
	return s[:x.Pad-1] + "\n" + string(x.Source)
}

func damage(t *rapid.T, src string) string {
	for n := gen.Range(t, 1, 4, "damages"); n > 0 && len(src) > 0; n-- {
		i := gen.Int(t, len(src), "at")
		j := i + gen.Int(t, min(len(src)-i, 8)+1, "len")
		ins := gen.Pick(t, []string{"", "", `"`, `\`, "\n", ":", "=", "->", ",", "#", " ", "a", "\xff", "{", "(", "<", "^^", "$", "가", "lang:\n", "-"}, "ins")
		src = src[:i] + ins + src[j:]
	}
	return src
}

func dumpHSL(h hsl.HSL) string {
	var names []string
	for k := range h {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, name := range names {
		sec := h[name]
		fmt.Fprintf(&b, "%q %T %d\n", name, sec, sec.Line())
		var ps []string
		for _, p := range sec.Pairs() {
			ps = append(ps, fmt.Sprintf("  %q %q %d\n", p.Left(), p.Right(), p.Line()))
		}
		if _, ok := sec.(*hsl.DictSection); ok {
			sort.Strings(ps)
		}
		b.WriteString(strings.Join(ps, ""))
	}
	return b.String()
}

func checkC13(c *fw.Ctx, x c13case) error {
	src := x.full()
	h, err := hsl.Parse(strings.NewReader(src))
	for _, chunk := range []int{0, x.Chunk} {
		h2, err2 := hsl.Parse(reader(src, chunk))
		if (err == nil) != (err2 == nil) || err == nil && dumpHSL(h) != dumpHSL(h2) {
			return fmt.Errorf("%s: parsed in chunks of %d: %v, %v\n%s\n%s", q(src), chunk, err, err2, dumpHSL(h), dumpHSL(h2))
		}
	}
	if err == nil && h == nil {
		return fmt.Errorf("%s: no result and no error", q(src))
	}
	c.LabelIf(err != nil, "not an HSL")

	spec, serr := hangulize.ParseSpec(reader(src, x.Chunk))
	if err != nil && serr == nil {
		return fmt.Errorf("%s: an invalid HSL (%v) is a spec", q(src), err)
	}
	spec2, serr2 := hangulize.ParseSpec(strings.NewReader(src))
	if (serr == nil) != (serr2 == nil) {
		return fmt.Errorf("%s: a spec only sometimes: %v, %v", q(src), serr, serr2)
	}
	if serr == nil {
		c.Label("a spec")
		if spec == nil || spec.Source != src || spec2.Source != src {
			return fmt.Errorf("%s: the source of the spec is %s", q(src), q(spec.Source))
		}
		if err := sameSpec(spec, spec2); err != nil {
			return fmt.Errorf("%s: parsed twice: %w", q(src), err)
		}
	} else {
		if spec != nil {
			return fmt.Errorf("%s: a spec with an error: %v", q(src), serr)
		}
		c.LabelIf(err == nil, "an HSL but not a spec")
	}
	c.NonTrivialIf(len(h) > 0 || err != nil && len(src) > 3)

	// A broken reader is never taken for the end of the source.
	errBroken := errsBroken[x.Error%len(errsBroken)]
	_, berr := hsl.Parse(&broken{r: reader(src, max(x.Chunk, 0)), left: x.Fail, after: x.After, err: errBroken})
	if err == nil && berr == nil {
		return fmt.Errorf("%s: the error of the reader after %d bytes is lost", q(src), x.Fail)
	}
	// (A letter which is cut may be an illegal token.)
	whole := utf8.ValidString(src[:x.Fail])
	if err == nil && whole && !errors.Is(berr, errBroken) {
		// The lost tail may itself be noticed first, but what is before the
		// failure is valid.
		return fmt.Errorf("%s: the error of the reader after %d bytes becomes %v", q(src), x.Fail, berr)
	}
	bspec, berr := hangulize.ParseSpec(&broken{r: reader(src, max(x.Chunk, 0)), left: x.Fail, after: x.After, err: errBroken})
	if berr == nil || bspec != nil {
		return fmt.Errorf("%s: a spec from a reader which fails after %d bytes", q(src), x.Fail)
	}
	if err == nil && whole && !errors.Is(berr, errBroken) {
		return fmt.Errorf("%s: the error of the reader after %d bytes becomes %v", q(src), x.Fail, berr)
	}
	return nil
}

func ruleStrings(rs []hangulize.Rule) []string {
	var out []string
	for _, r := range rs {
		out = append(out, fmt.Sprintf("%d %q %q", r.ID, r.From.String(), r.To.String()))
	}
	return out
}

// sameSpec compares the public fields.
func sameSpec(a, b *hangulize.Spec) error {
	type view struct {
		Lang                hangulize.Language
		Config              hangulize.Config
		Macros              map[string]string
		Vars, Normalize     map[string][]string
		Rewrite, Transcribe []string
		Test                [][2]string
	}
	of := func(s *hangulize.Spec) view {
		return view{s.Lang, s.Config, s.Macros, s.Vars, s.Normalize, ruleStrings(s.Rewrite), ruleStrings(s.Transcribe), s.Test}
	}
	if va, vb := of(a), of(b); !reflect.DeepEqual(va, vb) {
		return fmt.Errorf("%+v\n%+v", va, vb)
	}
	return nil
}

func init() {
	fw.Reg("C12",
		"A case is a list of sections and pairs (any strings, also with quotes, backslashes, newlines, separators; sections opened again) and a random layout of them (indents, comments, blank lines, CRLF, bare or quoted strings, optional escapes, trailing commas and comments, no last newline), read in chunks. Parsing must give back exactly the sections, pairs, order, kinds and line numbers. Non-trivial: at least three pairs.",
		genC12, checkC12,
		fw.FixedCases(func(e *fw.Env) []c12case {
			// Documents which are larger than buffers of usual sizes.
			var out []c12case
			add := func(list bool, n, size int, values int) {
				arrow := map[bool]string{true: "->", false: "="}[list]
				var b strings.Builder
				b.WriteString("big:\n")
				sec := hslSection{Name: "big", List: list, Line: 1}
				for i := 0; i < n; i++ {
					p := hslPair{L: fmt.Sprintf("%0*d", size, i), Line: i + 2}
					var rs []string
					for j := 0; j < values; j++ {
						v := fmt.Sprintf("%*d", size, j)
						p.R = append(p.R, v)
						rs = append(rs, `"`+v+`"`)
					}
					fmt.Fprintf(&b, "    %q %s %s # %d\n", p.L, arrow, strings.Join(rs, ", "), i)
					sec.Pairs = append(sec.Pairs, p)
				}
				b.WriteString("last:\n  a -> b\n")
				for _, chunk := range []int{0, -1, 4095} {
					out = append(out, c12case{b.String(), []hslSection{sec, {"last", true, n + 2, []hslPair{{"a", []string{"b"}, n + 3}}}}, chunk})
				}
			}
			add(true, 3, 70000, 2)
			add(false, 2, 1100000, 1)
			add(true, 70000, 6, 1)
			add(false, 5000, 6, 3)
			add(true, 2, 6, 70000)
			return out
		}))
	fw.Reg("C13",
		"A case is any text (token soup, a damaged or cut valid source, a damaged or cut bundled spec, raw bytes), a chunking, and the point where the reader breaks. Parsing must end without a panic, must not depend on the chunks or on the run, must keep the whole source, and must report the error of the reader; no invalid HSL is a spec. Non-trivial: a section was parsed, or the text was rejected.",
		genC13, checkC13,
		func(p *fw.Prop) { p.Batch = 30 },
		fw.FixedCases(func(e *fw.Env) []c13case {
			var out []c13case
			src := fw.S(model.Source("ita"))
			for _, pad := range []int{65535, 65536, 1<<20 + 1, 1 << 21, 5<<20 + 1} {
				out = append(out, c13case{Source: src, Pad: pad, Fail: pad})
			}
			for after := 0; after < 3; after++ {
				for fail := 0; fail < 12; fail++ {
					out = append(out, c13case{Source: src, Fail: fail, After: after}, c13case{Source: src, Chunk: 1, Fail: fail, After: after, Error: 1 + fail%6})
				}
			}
			return out
		}))
}
