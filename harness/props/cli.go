package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

type cliRun struct {
	code        int
	out, errOut string
}

// runCLI runs the command with the standard input. Both outputs go to the
// first one if merged.
func runCLI(dir, bin string, stdin []byte, merged bool, args ...string) (cliRun, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.Stdin = bytes.NewReader(stdin)
	var out, errOut bytes.Buffer
	c.Stdout, c.Stderr = &out, &errOut
	if merged {
		c.Stderr = &out
	}
	err := c.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		return cliRun{}, fmt.Errorf("%q: %w", args, err)
	}
	if ctx.Err() != nil {
		return cliRun{}, fmt.Errorf("%q with the input %s does not end", args, q(string(stdin)))
	}
	return cliRun{c.ProcessState.ExitCode(), out.String(), errOut.String()}, nil
}

var cliSeq atomic.Int64

// cliDir makes a directory for the files of a case.
func cliDir(c *fw.Ctx) (string, func(), error) {
	dir, err := os.MkdirTemp(c.Env.Scratch, fmt.Sprintf("cli%d-", cliSeq.Add(1)))
	return dir, func() { os.RemoveAll(dir) }, err
}

// ---------------------------------------------------------------------------
// C23

type c23case struct {
	Lang    string    `json:"lang"`          // a bundled language
	Dev     string    `json:"dev,omitempty"` // "bundled", "generated", "broken", "missing", "translit"
	Spec    *gen.Spec `json:"spec,omitempty"`
	Words   []fw.S    `json:"words,omitempty"` // words as arguments
	Stdin   *fw.S     `json:"stdin,omitempty"` // or lines
	Flag    string    `json:"flag,omitempty"`  // "", "-v", "--verbose"
	At      int       `json:"at"`              // where the flag is
	Merged  bool      `json:"merged"`          // both outputs go to the same file
	Lines   bool      `json:"lines"`           // write a line after the result of the one before
	Unknown string    `json:"unknown,omitempty"`
	Schemes []string  `json:"schemes,omitempty"` // the translits of the generated spec
}

var stdSchemes = []string{"furigana", "pinyin", "cyrillic[bg]", "cyrillic[mk]", "cyrillic[ru]", "cyrillic[ua]"}

// genSchemes draws the translits of a generated spec.
func genSchemes(t *rapid.T) (out []string) {
	if gen.Chance(t, 40, "translits") {
		for n := gen.Range(t, 1, 3, "schemes"); n > 0; n-- {
			out = append(out, gen.Pick(t, stdSchemes, "scheme"))
		}
	}
	return
}

func stdinText(t *rapid.T, word func() string) string {
	var b strings.Builder
	pad := []string{"", "", "", "", " ", "\t", "\r", "\u3000", "\u00a0", "\v", "\u0085", "\ufeff", "-"}
	var was []string
	fresh := word
	word = func() string {
		if len(was) > 0 && gen.Chance(t, 25, "again?") {
			return gen.Pick(t, was, "again")
		}
		was = append(was, fresh())
		return was[len(was)-1]
	}
	n := gen.Range(t, 0, 6, "lines")
	if gen.Chance(t, 6, "many lines") {
		n = gen.Pick(t, []int{12, 20, 40, 80, 150, 280}, "many")
	}
	for ; n > 0; n-- {
		if len(was) > 6 {
			fresh = func() string { return gen.Pick(t, was, "again") }
		}
		lead := gen.Pick(t, pad, "lead")
		b.WriteString(lead)
		if lead != "\ufeff" && lead != "-" && gen.Chance(t, 3, "long") {
			b.WriteString(strings.Repeat(" ", gen.Pick(t, []int{4095, 4096, 65535, 65536, 70000}, "spaces")))
		}
		if !gen.Chance(t, 15, "blank") {
			b.WriteString(word())
		}
		b.WriteString(gen.Pick(t, pad, "trail"))
		if n > 1 || gen.Chance(t, 60, "newline") {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// stdinWords is what the command reads from the standard input.
func stdinWords(text string) []string {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i := range lines {
		lines[i] = strings.TrimSpace(lines[i])
	}
	return lines
}

func genC23(t *rapid.T) c23case {
	x := c23case{Lang: genLang(t, langs)}
	d := gen.DataOf(model.Bundled(x.Lang))
	var ms *model.Spec
	if gen.Chance(t, 30, "dev") {
		x.Dev = gen.Pick(t, []string{"bundled", "bundled", "generated", "generated", "generated", "broken", "missing", "translit"}, "kind")
		if x.Dev == "generated" {
			x.Spec = gen.GenSpec(t)
			x.Schemes = genSchemes(t)
			ms, _ = x.Spec.Model()
		}
	} else if gen.Chance(t, 5, "unknown") {
		x.Unknown = gen.Pick(t, []string{"xxx", "", "Ita", "ita ", "ITA", "../ita", "ita.hsl", "specs/ita", "jpn-", "가", "%d"}, "lang")
	}
	word := func() string {
		if ms != nil {
			return gen.SpecWord(t, x.Spec, ms)
		}
		return gen.Word(t, d)
	}
	if x.Dev != "" || gen.Chance(t, 50, "stdin?") {
		s := fw.S(stdinText(t, word))
		x.Stdin = &s
		x.Lines = gen.Chance(t, 25, "one by one")
	} else {
		for n := gen.Range(t, 1, 5, "words"); n > 0; n-- {
			switch {
			case gen.Chance(t, 8, "empty"):
				x.Words = append(x.Words, "")
			case gen.Chance(t, 6, "odd"):
				x.Words = append(x.Words, fw.S(gen.Pick(t, []string{"-", "--", "-v", "\ufeff", " ", "\n", "dev", "@x", "*", "~"}, "which")))
			default:
				x.Words = append(x.Words, fw.S(gen.Pick(t, []string{"", "", "", "", "", "", "", " ", "\ufeff", "\t"}, "lead")+strings.ReplaceAll(word(), "\x00", "")+gen.Pick(t, []string{"", "", "", "", "", "", "", " ", "\n"}, "trail")))
			}
		}
		if gen.Chance(t, 6, "one odd word") {
			x.Words = []fw.S{fw.S(gen.Pick(t, []string{"-", "--", "-v", "help", "dev", "@x", "\n", "\ufeff"}, "which"))}
		}
		if gen.Chance(t, 30, "more words") {
			// The same words again, which is no reason to skip them.
			for n := gen.Pick(t, []int{1, 2, 5, 9, 17, 40, 70, 140, 300}, "more"); n > 0; n-- {
				x.Words = append(x.Words, gen.Pick(t, x.Words, "again"))
			}
		}
	}
	if gen.Chance(t, 50, "verbose") {
		x.Flag = gen.Pick(t, []string{"-v", "--verbose", "--verbose=true"}, "flag")
		x.At = gen.Int(t, 3, "at")
	} else if gen.Chance(t, 10, "quiet") {
		x.Flag = "--verbose=false"
	}
	x.Merged = gen.Chance(t, 30, "merged")
	return x
}

// oneByOne talks with the command: the result of a line must come before the
// next line is given.
func oneByOne(dir, bin string, words, want []string, args ...string) error {
	c := exec.Command(bin, args...)
	c.Dir = dir
	in, err := c.StdinPipe()
	if err != nil {
		return err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return err
	}
	if err := c.Start(); err != nil {
		return err
	}
	defer func() {
		_ = c.Process.Kill()
		_ = c.Wait()
	}()
	type chunk struct {
		s   string
		err error
	}
	ch := make(chan chunk, 16)
	go func() {
		buf := make([]byte, 1<<16)
		for {
			n, err := out.Read(buf)
			ch <- chunk{string(buf[:n]), err}
			if err != nil {
				return
			}
		}
	}()
	timeout := time.After(45 * time.Second)
	got := ""
	expect := func(want string) error {
		for len(got) < len(want) {
			select {
			case k := <-ch:
				got += k.s
				if k.err != nil && len(got) < len(want) {
					return fmt.Errorf("the output ends after %s, want %s (%w)", q(got), q(want), k.err)
				}
			case <-timeout:
				return fmt.Errorf("waiting for the result of a line: got %s, want %s", q(got), q(want))
			}
		}
		if !strings.HasPrefix(got, want) {
			return fmt.Errorf("got %s, want %s", q(got), q(want))
		}
		got = got[len(want):]
		return nil
	}
	for i, w := range words {
		if _, err := io.WriteString(in, w+"\n"); err != nil {
			return err
		}
		if err := expect(want[i] + "\n"); err != nil {
			return err
		}
	}
	in.Close()
	for k := range ch {
		got += k.s
		if k.err != nil {
			break
		}
	}
	if got != "" {
		return fmt.Errorf("unexpected output %s", q(got))
	}
	return nil
}

func checkC23(c *fw.Ctx, x c23case) error {
	dir, done, err := cliDir(c)
	if err != nil {
		return err
	}
	defer done()

	args := []string{x.Lang}
	var h hangulize.Hangulizer
	failing := false
	switch x.Dev {
	case "":
		h, err = newHangulizer(x.Lang)
	case "missing":
		args, failing = []string{"dev", "missing.hsl"}, true
	default:
		src := model.Source(x.Lang)
		switch x.Dev {
		case "generated":
			m, err := x.Spec.Model()
			if err != nil {
				return nil
			}
			m.Translit = x.Schemes
			src = gen.SpecSource(m)
		case "broken":
			src, failing = src+"\nrewrite:\n    \"a{\" -> \"b\"\n    \"b{x}a\" -> 1 = ,\n", true
		case "translit":
			src, failing = "lang:\n  id = x\n  codes = x, x\n  script = Latn\n  translit = nosuch\ntranscribe:\n  a -> \"ㅏ\"\n", true
		}
		args = []string{"dev", "x.hsl"}
		if err := os.WriteFile(filepath.Join(dir, "x.hsl"), []byte(src), 0o644); err != nil {
			return err
		}
		if !failing {
			var spec *hangulize.Spec
			if spec, err = hangulize.ParseSpec(strings.NewReader(src)); err == nil {
				h, err = withTranslits(spec)
			}
		}
	}
	if err != nil {
		return err
	}
	if x.Unknown != "" {
		args[0] = x.Unknown
	}
	c.LabelIf(x.Dev != "", "dev "+x.Dev)

	var words []string
	var stdin []byte
	base := len(args)
	if x.Stdin != nil {
		stdin = []byte(*x.Stdin)
		words = stdinWords(string(*x.Stdin))
	} else {
		dashed := false
		for _, w := range x.Words {
			dashed = dashed || strings.HasPrefix(string(w), "-")
			args = append(args, string(w))
			if w != "" {
				words = append(words, string(w))
			}
		}
		if dashed {
			args = append(args[:base:base], append([]string{"--"}, args[base:]...)...)
		}
		stdin = []byte("unread\n")
	}
	if x.Flag != "" {
		at := x.At % (base + 1)
		args = append(args[:at:at], append([]string{x.Flag}, args[at:]...)...)
	}
	verbose := x.Flag != "" && !strings.HasSuffix(x.Flag, "false")

	if x.Unknown != "" {
		c.Label("unknown language")
		r, err := runCLI(dir, c.Env.CLI, stdin, false, args...)
		if err != nil {
			return err
		}
		if r.code != 1 || r.out != "" || strings.TrimSpace(r.errOut) == "" || !strings.Contains(r.errOut, x.Unknown) {
			return fmt.Errorf("%q: exit %d, output %q, errors %q; want exit 1 and an error which names the language", args, r.code, r.out, r.errOut)
		}
		return nil
	}
	if failing {
		r, err := runCLI(dir, c.Env.CLI, stdin, false, args...)
		if err != nil {
			return err
		}
		if x.Dev == "translit" && len(words) == 0 {
			return nil
		}
		if r.code != 1 || strings.TrimSpace(strings.ReplaceAll(r.out, "\n", "")) != "" && x.Dev == "translit" || r.errOut == "" {
			return fmt.Errorf("%q with a spec which fails (%s): exit %d, output %q, errors %q; want exit 1 and an error", args, x.Dev, r.code, r.out, r.errOut)
		}
		return nil
	}

	var wantOut, wantErr, both strings.Builder
	var results []string
	full := 0
	for _, w := range words {
		r, events, _, err := collectTraces(h, w)
		if err != nil {
			return err
		}
		results = append(results, r)
		if verbose {
			s := renderTraces(events)
			wantErr.WriteString(s)
			both.WriteString(s)
		}
		wantOut.WriteString(r + "\n")
		both.WriteString(r + "\n")
		if strings.IndexFunc(r, isSyllable) >= 0 {
			full++
		}
	}
	c.NonTrivialIf(full >= 2)
	c.LabelIf(verbose, "verbose")
	c.LabelIf(x.Stdin != nil, "standard input")
	c.LabelIf(len(stdin) > 4096, "long input")
	c.Extra += len(words)

	r, err := runCLI(dir, c.Env.CLI, stdin, x.Merged, args...)
	if err != nil {
		return err
	}
	desc := fmt.Sprintf("%q with the input %s", args, q(string(stdin)))
	if r.code != 0 {
		return fmt.Errorf("%s: exit %d, errors %s", desc, r.code, q(r.errOut))
	}
	if x.Merged {
		if r.out != both.String() {
			return fmt.Errorf("%s: output and errors %s, want %s", desc, q(r.out), q(both.String()))
		}
	} else {
		if r.out != wantOut.String() {
			return fmt.Errorf("%s: output %s, want %s", desc, q(r.out), q(wantOut.String()))
		}
		if r.errOut != wantErr.String() {
			return fmt.Errorf("%s: errors %s, want %s", desc, q(r.errOut), q(wantErr.String()))
		}
	}
	if x.Lines && x.Stdin != nil && len(words) > 0 {
		c.Label("one by one")
		if err := oneByOne(dir, c.Env.CLI, words, results, args...); err != nil {
			return fmt.Errorf("%q, line by line %q: %w", args, words, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// C24

type c24file struct {
	Name   string    `json:"name"`
	Lang   string    `json:"lang,omitempty"` // a bundled source
	Spec   *gen.Spec `json:"spec,omitempty"` // or a generated one
	Words  []fw.S    `json:"words,omitempty"`
	Wrong  []int     `json:"wrong,omitempty"` // examples which fail
	Layout []int     `json:"layout"`
	Long   int       `json:"long,omitempty"` // a line gets so long a comment

	Schemes []string `json:"schemes,omitempty"` // the translits of the generated spec
	Kind    string   `json:"kind,omitempty"`    // "", "broken", "missing"
}

type c24case struct {
	Files   []c24file `json:"files"`
	Twice   bool      `json:"twice"`             // give the first file again
	Cover   bool      `json:"cover"`             // --cover
	Profile string    `json:"profile,omitempty"` // --coverprofile
}

var c24wrong = []string{"", "틀림", "%d", "x"}

func genC24(t *rapid.T) c24case {
	var x c24case
	for n := gen.Weighted(t, "files", 0, 60, 30, 10, 1, 1, 1, 1, 1, 1, 1); n > 0; n-- {
		f := c24file{Name: fmt.Sprintf("%s%d.hsl", gen.Pick(t, []string{"a", "b c", "가", "x:y", "%d"}, "name"), n)}
		switch gen.Weighted(t, "path", 68, 20, 4, 4, 4) {
		case 1:
			f.Name = "sub/" + f.Name
		case 2:
			f.Name = "./" + f.Name
		case 3:
			f.Name = "sub/../" + f.Name
		case 4:
			f.Name = "sub//" + f.Name
		}
		var word func() string
		if gen.Chance(t, 25, "bundled") {
			f.Lang = genLang(t, langs)
			d := gen.DataOf(model.Bundled(f.Lang))
			word = func() string { return gen.Word(t, d) }
		} else {
			f.Spec = gen.GenSpec(t)
			f.Schemes = genSchemes(t)
			m, err := f.Spec.Model()
			if err == nil {
				word = func() string { return gen.SpecWord(t, f.Spec, m) }
			} else {
				word = func() string { return "" }
			}
		}
		for n := gen.Range(t, 0, 6, "words"); n > 0; n-- {
			w := fw.S(word())
			if !utf8.ValidString(string(w)) || strings.ContainsAny(string(w), "\r\n\x00") {
				continue
			}
			f.Words = append(f.Words, w)
		}
		if len(f.Words) > 0 && gen.Chance(t, 25, "again") {
			for n := gen.Pick(t, []int{1, 1, 2, 3, 8, 30, 120}, "more"); n > 0; n-- {
				f.Words = append(f.Words, gen.Pick(t, f.Words, "which"))
			}
		}
		if gen.Chance(t, 25, "wrong") && len(f.Words) > 0 {
			for n := gen.Range(t, 1, 2, "n"); n > 0; n-- {
				f.Wrong = append(f.Wrong, gen.Int(t, len(f.Words), "which"))
			}
		}
		for i := 0; i < 12; i++ {
			f.Layout = append(f.Layout, gen.Weighted(t, "layout", 6, 1, 1, 1, 1, 1))
		}
		f.Layout = append(f.Layout, gen.Weighted(t, "eol", 4, 1)) // CR LF
		if gen.Chance(t, 4, "long") {
			f.Long = gen.Pick(t, []int{4090, 65500, 65536, 70000, 300000}, "length")
		}
		if gen.Chance(t, 4, "kind") {
			f.Kind = gen.Pick(t, []string{"broken", "missing"}, "kind")
		}
		x.Files = append(x.Files, f)
	}
	if len(x.Files) > 1 && gen.Chance(t, 25, "same name") {
		// The same name in another directory.
		x.Files[0].Name = path.Base(x.Files[0].Name)
		x.Files[1].Name = "sub/" + x.Files[0].Name
	}
	x.Twice = gen.Chance(t, 8, "twice")
	x.Cover = gen.Chance(t, 50, "cover")
	if gen.Chance(t, 60, "profile") {
		x.Profile = gen.Pick(t, []string{"cover.txt", "cover.txt", "cover.txt", "old.txt", "nodir/cover.txt"}, "file")
	}
	return x
}

// lay writes the source with blank lines, comments, indents and line ends, and
// tells the line and its length of each line of the source.
func lay(src string, layout []int, long int) (string, [][2]int) {
	eol := "\n"
	if len(layout) > 0 && layout[len(layout)-1] == 1 {
		eol = "\r\n"
	}
	var (
		b    strings.Builder
		at   [][2]int
		line = 1
	)
	put := func(s string) {
		b.WriteString(s + eol)
		line++
	}
	lines := strings.Split(strings.TrimSuffix(src, "\n"), "\n")
	for i, l := range lines {
		k := 0
		if len(layout) > 1 {
			k = layout[i%(len(layout)-1)]
		}
		switch k {
		case 1:
			put("")
		case 2:
			put("# a comment: \"x\" -> y")
		case 3:
			l += "  # 가"
		case 4:
			l = "\t" + l
		case 5:
			put("   ")
			l += " "
		}
		if long > 0 && i == long%len(lines) {
			l += " # " + strings.Repeat("x", long)
		}
		at = append(at, [2]int{line, len(l) + 1})
		put(l)
	}
	return b.String(), at
}

func checkC24(c *fw.Ctx, x c24case) error {
	dir, done, err := cliDir(c)
	if err != nil {
		return err
	}
	defer done()
	if err := os.Mkdir(filepath.Join(dir, "sub"), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "old.txt"), []byte(strings.Repeat("old\n", 500)), 0o644); err != nil {
		return err
	}

	var (
		names    []string
		failures strings.Builder
		aborted  bool
		profile  []string
		covered  int
		total    int
		run      = map[string]bool{}
		fails    int

		multiline bool
	)
	one := func(f c24file) error {
		file := filepath.Join(dir, f.Name)
		if f.Kind != "" {
			if f.Kind == "broken" {
				if err := os.WriteFile(file, []byte("lang:\n  id = \"x\n"), 0o644); err != nil {
					return err
				}
			}
			aborted = true
			return nil
		}
		var m *model.Spec
		if f.Lang != "" {
			b := *model.Bundled(f.Lang)
			m = &b
		} else {
			var err error
			if m, err = f.Spec.Model(); err != nil {
				aborted = true // cannot happen unless the generator is wrong
				return fmt.Errorf("the generated spec is wrong: %w", err)
			}
			m.Translit = f.Schemes
		}
		// The right results by the library.
		m.Test = nil
		spec, err := hangulize.ParseSpec(strings.NewReader(gen.SpecSource(m)))
		if err != nil {
			return err
		}
		h, err := withTranslits(spec)
		if err != nil {
			return err
		}
		hit := map[string]map[int]bool{"Rewrite": {}, "Transcribe": {}}
		for i, w := range f.Words {
			r, _, traces, err := collectTraces(h, string(w))
			if err != nil {
				return err
			}
			want := r
			for k, j := range f.Wrong {
				if j == i {
					if want = c24wrong[(i+k)%len(c24wrong)]; want == r {
						want += "!"
					}
				}
			}
			for _, t := range traces {
				if t.Rule != nil {
					hit[t.Step][t.Rule.ID] = true
				}
			}
			if !utf8.ValidString(want) {
				return fmt.Errorf("%s becomes %s", q(string(w)), q(want))
			}
			m.Test = append(m.Test, [2]string{string(w), want})
			if want != r && !aborted {
				fmt.Fprintf(&failures, "%s: \"%s\" -> \"%s\", expected: \"%s\"\n", f.Name, w, r, want)
				fails++
			}
			c.Extra++
		}
		src := gen.SpecSource(m)
		for _, l := range strings.Split(strings.TrimSuffix(src, "\n"), "\n") {
			if strings.Count(l, "\"")%2 != strings.Count(l, "\\\"")%2 {
				multiline = true // a string goes over lines
			}
		}
		if multiline {
			f.Layout, f.Long = nil, 0
		}
		laid, at := lay(src, f.Layout, f.Long)
		if err := os.WriteFile(file, []byte(laid), 0o644); err != nil {
			return err
		}
		if run[f.Name] {
			return nil
		}
		run[f.Name] = true
		step, id := "", 0
		for i, l := range strings.Split(strings.TrimSuffix(src, "\n"), "\n") {
			switch {
			case l == "rewrite:":
				step, id = "Rewrite", 0
			case l == "transcribe:":
				step, id = "Transcribe", 0
			case strings.HasPrefix(l, " ") && step != "":
				k := 0
				if hit[step][id] {
					k = 1
				}
				profile = append(profile, fmt.Sprintf("%s:%d.1,%d.%d 1 %d", f.Name, at[i][0], at[i][0], at[i][1], k))
				total++
				covered += k
				id++
			default:
				step = ""
			}
		}
		return nil
	}
	files := x.Files
	if x.Twice && len(files) > 0 {
		files = append(files[:len(files):len(files)], files[0])
	}
	for _, f := range files {
		names = append(names, f.Name)
		if err := one(f); err != nil {
			return err
		}
	}
	args := append([]string{"test"}, names...)
	if x.Cover {
		args = append(args, "--cover")
	}
	if x.Profile != "" {
		args = append([]string{"test", "--coverprofile", x.Profile}, args[1:]...)
	}
	r, err := runCLI(dir, c.Env.CLI, nil, true, args...)
	if err != nil {
		return err
	}
	fail := func(format string, a ...any) error {
		return fmt.Errorf("%q: exit %d, output\n%s\n%s", args, r.code, r.out, fmt.Sprintf(format, a...))
	}
	got, perr := os.ReadFile(filepath.Join(dir, x.Profile))

	switch {
	case aborted:
		c.Label("a broken or missing file")
		if r.code != 1 {
			return fail("want exit 1 for a file which cannot be read")
		}
		if !strings.HasPrefix(r.out, failures.String()) {
			return fail("want the failures\n%s", failures.String())
		}
		return nil
	case fails > 0:
		c.Label("failing examples")
		c.NonTrivialIf(len(names) > 1 || fails > 1)
		if r.code != 1 {
			return fail("want exit 1 for %d failures", fails)
		}
		if r.out != failures.String() {
			return fail("want the failures\n%s", failures.String())
		}
		if x.Profile == "cover.txt" && perr == nil {
			return fail("a profile is written even though examples fail")
		}
		return nil
	case strings.HasPrefix(x.Profile, "nodir"):
		if r.code != 1 || r.out == "" {
			return fail("want exit 1 and an error for a profile which cannot be written")
		}
		return nil
	}
	if r.code != 0 {
		return fail("want exit 0 because every example passes")
	}
	want := ""
	if x.Cover || x.Profile != "" {
		rate := 0.0
		if total > 0 {
			rate = float64(covered) / float64(total)
		}
		want = fmt.Sprintf("coverage: %.1f%% of rules\n", rate*100)
		c.NonTrivialIf(covered > 0 && covered < total)
	}
	if r.out != want && !multiline {
		return fail("want %q", want)
	}
	if x.Profile != "" && !multiline {
		if perr != nil {
			return fail("%v", perr)
		}
		c.Label("profile")
		lines := strings.Split(strings.TrimSuffix(string(got), "\n"), "\n")
		if lines[0] != "mode: count" {
			return fail("the profile starts with %q", lines[0])
		}
		lines = lines[1:]
		sort.Strings(lines)
		sort.Strings(profile)
		if strings.Join(lines, "\n") != strings.Join(profile, "\n") {
			return fail("the profile has\n%s\nwant\n%s", strings.Join(lines, "\n"), strings.Join(profile, "\n"))
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// C25

type c25file struct {
	Lang    string `json:"lang,omitempty"` // a bundled source
	ID      fw.S   `json:"id"`
	Stage   fw.S   `json:"stage"`
	English fw.S   `json:"english"`
	Korean  fw.S   `json:"korean"`
	Kind    string `json:"kind,omitempty"` // "", "broken", "missing"
}

type c25case struct {
	Op    string    `json:"op"` // ls, files, version, manifest
	Files []c25file `json:"files,omitempty"`
}

func genC25(t *rapid.T) c25case {
	x := c25case{Op: "files"}
	text := func() fw.S {
		return fw.S(strings.ToValidUTF8(gen.Runes(t, 0, gen.Pick(t, []int{3, 8, 9, 24, 26}, "len"), "text", func(t *rapid.T) rune {
			if gen.Chance(t, 20, "any") {
				if r := gen.AnyRune(t); r > 0x1f && r != utf8.RuneError {
					return r
				}
			}
			return []rune("abcdeXYZ 가나다é%-()")[gen.Int(t, 16, "l")]
		}), ""))
	}
	for n := gen.Range(t, 1, 6, "n"); n > 0; n-- {
		f := c25file{ID: text(), Stage: text(), English: text(), Korean: text()}
		switch gen.Weighted(t, "kind", 6, 2, 1, 1) {
		case 1:
			f.Lang = gen.Pick(t, langs, "lang")
		case 2:
			f.Kind = "broken"
		case 3:
			f.Kind = "missing"
		}
		x.Files = append(x.Files, f)
	}
	return x
}

// lsLine is a row of the table.
func lsLine(cells ...string) string {
	var b strings.Builder
	for i, width := range []int{8, 8, 24, 24} {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(cells[i])
		for n := utf8.RuneCountInString(cells[i]); n < width; n++ {
			b.WriteByte(' ')
		}
	}
	return b.String() + "\n"
}

func checkC25(c *fw.Ctx, x c25case) error {
	dir, done, err := cliDir(c)
	if err != nil {
		return err
	}
	defer done()
	switch x.Op {
	case "version":
		r, err := runCLI(dir, c.Env.CLI, nil, true, "version")
		if err != nil {
			return err
		}
		if r.code != 0 || r.out != "hangulize verif-1.2.3\n" {
			return fmt.Errorf("version: exit %d, %q", r.code, r.out)
		}
		c.NonTrivial()
		return nil
	case "manifest":
		return checkManifest(c, dir)
	case "tests":
		// The bundled specs pass their own examples, whichever are given.
		var args []string
		for _, l := range langs {
			args = append(args, filepath.Join(c.Env.Repo, "specs", l+".hsl"))
		}
		r, err := runCLI(dir, c.Env.CLI, nil, true, append([]string{"test"}, args...)...)
		if err != nil {
			return err
		}
		if r.code != 0 || r.out != "" {
			return fmt.Errorf("test of the bundled specs: exit %d, %q", r.code, r.out)
		}
		c.NonTrivial()
		return nil
	}
	want := lsLine("LANG", "STAGE", "ENG", "KOR")
	args := []string{"ls"}
	n := 0
	if x.Op == "ls" {
		for _, l := range langs {
			m := model.Bundled(l)
			want += lsLine(l, m.Stage, m.English, m.Korean)
		}
		c.NonTrivial()
	}
	for i, f := range x.Files {
		name := fmt.Sprintf("%d.hsl", i)
		args = append(args, name)
		m := &model.Spec{ID: string(f.ID), Stage: string(f.Stage), English: string(f.English), Korean: string(f.Korean), Codes: [2]string{"a", "b"}, Script: "Latn"}
		src := gen.SpecSource(m)
		if f.Lang != "" {
			m = model.Bundled(f.Lang)
			src = model.Source(f.Lang)
		}
		switch f.Kind {
		case "missing":
			continue
		case "broken":
			src += "\nrewrite:\n  \"b{x}a\" ->\n"
		}
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
			return err
		}
		if f.Kind == "" {
			want += lsLine(m.ID, m.Stage, m.English, m.Korean)
			n++
		}
	}
	c.NonTrivialIf(n >= 2)
	c.LabelIf(n < len(x.Files), "unreadable files")
	r, err := runCLI(dir, c.Env.CLI, nil, true, args...)
	if err != nil {
		return err
	}
	if r.code != 0 || r.out != want {
		return fmt.Errorf("%q: exit %d\n%s\nwant\n%s", args, r.code, r.out, want)
	}
	return nil
}

// manifestOf is what a manifest tells about a spec.
func manifestOf(m *model.Spec) map[string]any {
	list := func(ss []string) any {
		out := []any{}
		for _, s := range ss {
			out = append(out, s)
		}
		return out
	}
	test := []any{}
	for _, ex := range m.Test {
		test = append(test, map[string]any{"word": ex[0], "result": ex[1]})
	}
	return map[string]any{
		"lang": map[string]any{
			"id": m.ID, "code2": m.Codes[0], "code3": m.Codes[1], "english": m.English,
			"korean": m.Korean, "script": m.Script, "translit": list(m.Translit),
		},
		"config": map[string]any{"authors": list(m.Authors), "stage": m.Stage},
		"test":   test,
	}
}

// nonNil turns the nulls of the lists of a decoded manifest into empty lists.
func nonNil(spec any) {
	m, _ := spec.(map[string]any)
	for _, at := range [][2]string{{"lang", "translit"}, {"config", "authors"}} {
		if o, ok := m[at[0]].(map[string]any); ok {
			if v, ok := o[at[1]]; ok && v == nil {
				o[at[1]] = []any{}
			}
		}
	}
}

func sameJSON(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

func checkManifest(c *fw.Ctx, dir string) error {
	r, err := runCLI(dir, c.Env.Mani, nil, false)
	if err != nil {
		return err
	}
	if r.code != 0 {
		return fmt.Errorf("manifest.json: exit %d, %q", r.code, r.errOut)
	}
	var got map[string]any
	if err := json.Unmarshal([]byte(r.out), &got); err != nil {
		return fmt.Errorf("manifest.json: %w", err)
	}
	if got["version"] != "verif-1.2.3" {
		return fmt.Errorf("manifest.json: version %v", got["version"])
	}
	specs, _ := got["specs"].(map[string]any)
	if len(specs) != len(langs) || len(got) != 3 {
		return fmt.Errorf("manifest.json: %d specs, want %d; %d keys", len(specs), len(langs), len(got))
	}
	schemes := map[string]bool{}
	for _, l := range langs {
		m := model.Bundled(l)
		nonNil(specs[l])
		if want := manifestOf(m); !sameJSON(specs[l], want) {
			a, _ := json.Marshal(specs[l])
			b, _ := json.Marshal(want)
			return fmt.Errorf("manifest.json: %s is\n%s\nwant\n%s", l, a, b)
		}
		for _, s := range m.Translit {
			schemes[s] = true
		}
	}
	list, _ := got["translits"].([]any)
	for _, s := range list {
		if name, ok := s.(string); !ok || !schemes[name] {
			return fmt.Errorf("manifest.json: translits %v, want each of %v once", list, schemes)
		}
		delete(schemes, s.(string))
	}
	if len(schemes) > 0 {
		return fmt.Errorf("manifest.json: translits %v lack %v", list, schemes)
	}
	c.NonTrivial()
	return nil
}

func init() {
	needCLI := func(p *fw.Prop) { p.NeedCLI = true; p.Batch = 10 }
	fw.Reg("C23",
		"A case runs the command with a bundled language and up to 5 words as arguments (empty ones, ones like flags, with spaces around), or up to 6 lines of input (blank, padded, longer than a buffer, CR LF, without the last line end), or `dev` with a bundled, generated, broken or missing spec; verbose or not, with the flag anywhere; or an unknown language. The oracle is the library: the output has exactly a result per word, the errors exactly the rendered events of each word before its result; a part of the cases give the next line only after the result of the one before. Non-trivial: at least 2 results with Hangul.",
		genC23, checkC23, needCLI,
		fw.FixedCases(func(e *fw.Env) (out []c23case) {
			for _, l := range langs {
				var words []fw.S
				lines := ""
				for i, ex := range model.Bundled(l).Test {
					if i < 6 && !strings.HasPrefix(ex[0], "-") {
						words = append(words, fw.S(ex[0]))
						lines += ex[0] + "\n"
					}
				}
				if len(words) == 0 {
					continue
				}
				s := fw.S(lines)
				out = append(out, c23case{Lang: l, Words: words}, c23case{Lang: l, Stdin: &s, Flag: "-v", Merged: true, Lines: true}, c23case{Lang: l, Dev: "bundled", Stdin: &s})
			}
			return
		}))
	fw.Reg("C24",
		"A case is up to 3 spec files (generated or bundled; blank lines, comments, indents and CR LF; examples which are right by the library, and some which are wrong; broken and missing files; a file given twice) tested by the command with or without coverage and a profile. Exit 0 if and only if every example passes; exactly the wrong examples are listed; the coverage is the part of rules which have an event; the profile has a line per rule with its place in the file and whether it was used. Non-trivial: a coverage between 0 and 100 %, or several failures.",
		genC24, checkC24, needCLI)
	fw.Reg("C25",
		"Fixed cases: the list of languages, the version, the manifest, and the test of all bundled specs, each compared with the reference copy of the specs. Generated cases: the list of up to 6 spec files, of which some are broken or missing. Non-trivial: at least two rows.",
		genC25, checkC25, needCLI,
		func(p *fw.Prop) { p.NeedMani = true; p.Quick = 12 * time.Second },
		fw.FixedCases(func(e *fw.Env) []c25case {
			return []c25case{{Op: "ls"}, {Op: "version"}, {Op: "manifest"}, {Op: "tests"}, {Op: "manifest"}}
		}))
}
