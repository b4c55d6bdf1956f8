package props

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/mattn/go-runewidth"
	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"
	"github.com/hangulize/hangulize/pkg/tracefmt"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

// A trace event as plain data.
type c22event struct {
	Step string     `json:"step"`
	Word fw.S       `json:"word"`
	Why  fw.S       `json:"why"`
	Rule *[2]string `json:"rule,omitempty"` // from, to
}

type c22case struct {
	Events []c22event `json:"events,omitempty"`
	Lang   string     `json:"lang,omitempty"` // or the events of a word
	Word   fw.S       `json:"word,omitempty"`
	Print  bool       `json:"print"`           // also to the standard output
	Cut    int        `json:"cut"`             // also to a writer which takes so many bytes
	Times  int        `json:"times,omitempty"` // the events are repeated
}

// renderTraces is the reference: a header when the step changes, and a line
// per event with the explanations aligned to a tab stop after the widest word
// so far.
func renderTraces(es []c22event) string {
	var b strings.Builder
	step, col := "", 0
	for _, e := range es {
		if e.Step != step {
			step = e.Step
			b.WriteString("[" + step + "]\n")
		}
		w := runewidth.StringWidth(string(e.Word))
		for col < w {
			if col = col - col%8 + 8; col == w {
				col += 8
			}
		}
		b.WriteString("  " + string(e.Word))
		for i := w; i < col; i++ {
			b.WriteByte(' ')
		}
		switch {
		case e.Rule != nil:
			b.WriteString(` | "` + e.Rule[0] + `" -> "` + e.Rule[1] + `"`)
		case e.Why != "":
			b.WriteString(" | (" + string(e.Why) + ")")
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// collectTraces records the events of a Hangulizer.
func collectTraces(h hangulize.Hangulizer, word string) (string, []c22event, []hangulize.Trace, error) {
	var traces []hangulize.Trace
	h.Trace(func(t hangulize.Trace) { traces = append(traces, t) })
	result, err := h.Hangulize(word)
	h.Trace(nil)
	return result, plainTraces(traces), traces, err
}

func plainTraces(traces []hangulize.Trace) []c22event {
	var out []c22event
	for _, t := range traces {
		e := c22event{Step: t.Step, Word: fw.S(t.Word), Why: fw.S(t.Why)}
		if t.Rule != nil {
			e.Rule = &[2]string{t.Rule.From.String(), t.Rule.To.String()}
		}
		out = append(out, e)
	}
	return out
}

func genC22(t *rapid.T) c22case {
	x := c22case{Print: gen.Chance(t, 3, "print"), Cut: gen.Range(t, 0, 60, "cut")}
	if gen.Chance(t, 25, "real") {
		lw := genLangWord(t)
		x.Lang, x.Word = lw.Lang, lw.Word
		return x
	}
	word := func() string {
		switch gen.Weighted(t, "w", 3, 3, 2, 2, 2, 1) {
		case 0:
			return gen.Runes(t, 0, 9, "w", func(t *rapid.T) rune { return 'a' + rune(gen.Int(t, 25, "l")) })
		case 1:
			return gen.Runes(t, 0, 9, "w", func(t *rapid.T) rune { return 0xac00 + rune(gen.Int(t, 11171, "l")) })
		case 2:
			return gen.Runes(t, 0, 30, "w", func(t *rapid.T) rune { return []rune("aㅏ가ア -%s\u0301ｱ\u200b\u3000")[gen.Int(t, 11, "l")] })
		case 3:
			return strings.Repeat(gen.Pick(t, []string{"a", "가", "é", "☃"}, "w"), gen.Pick(t, []int{0, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 32}, "n"))
		case 4:
			return gen.Runes(t, 0, 9, "w", gen.AnyRune)
		default:
			return gen.Pick(t, []string{"%d%s%!", "\xff\xfe", "a\nb", "a\tb", "|", "[Input]", "\x1b[1m"}, "odd")
		}
	}
	for n := gen.Range(t, 0, 12, "n"); n > 0; n-- {
		e := c22event{Step: gen.Pick(t, []string{"Input", "Transliterate", "Normalize", "Rewrite", "Rewrite", "Transcribe", "Transcribe", "Syllabify", "Localize"}, "step"), Word: fw.S(word())}
		switch gen.Weighted(t, "why", 2, 2, 3) {
		case 1:
			e.Why = fw.S(gen.Pick(t, []string{"Latn", "furigana", "cyrillic[ru]", "%v", "가"}, "why"))
		case 2:
			e.Rule = &[2]string{gen.Pick(t, []string{"a", "^b{c}", "<v>", "%s", "가|나", `\\`, "{~x}y"}, "from"), gen.Pick(t, []string{"", "ㅏ", "{}", "-ㄴ", "%d", "<v>"}, "to")}
			if gen.Chance(t, 20, "both") {
				e.Why = "ignored"
			}
		}
		x.Events = append(x.Events, e)
	}
	if gen.Chance(t, 4, "wide") && len(x.Events) > 0 {
		e := &x.Events[gen.Int(t, len(x.Events), "which")]
		e.Word = fw.S(strings.Repeat(gen.Pick(t, []string{"a", "가", "ａ", "é", "カ-"}, "letter"), gen.Pick(t, []int{63, 64, 65, 127, 128, 129, 255, 256, 300, 1024, 5000, 33000}, "width")))
	} else if len(x.Events) > 0 && gen.Chance(t, 4, "many") {
		x.Times = gen.Pick(t, []int{10, 30, 100, 300, 1000}, "times")
	}
	return x
}

// cutWriter takes a number of bytes, and then refuses.
type cutWriter struct {
	left int
	buf  bytes.Buffer
}

func (w *cutWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		w.buf.Write(p[:w.left])
		n := w.left
		w.left = 0
		return n, fmt.Errorf("full")
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

var stdoutMu sync.Mutex

func checkC22(c *fw.Ctx, x c22case) error {
	var es []c22event
	for k := 0; k < max(x.Times, 1); k++ {
		es = append(es, x.Events...)
	}
	var traces []hangulize.Trace
	if x.Lang != "" {
		h, err := newHangulizer(x.Lang)
		if err != nil {
			return err
		}
		if _, es, traces, err = collectTraces(h, string(x.Word)); err != nil {
			return err
		}
		c.Label("of a word")
	} else {
		vars := map[string][]string{"v": {"x"}}
		for i, e := range es {
			tr := hangulize.Trace{Step: e.Step, Word: string(e.Word), Why: string(e.Why)}
			if e.Rule != nil {
				from, err := hre.NewPattern(e.Rule[0], nil, vars)
				if err != nil {
					return err
				}
				tr.Rule = &hangulize.Rule{ID: i, From: from, To: hre.NewRPattern(e.Rule[1], nil, vars)}
			}
			traces = append(traces, tr)
		}
	}
	want := renderTraces(es)
	var b bytes.Buffer
	tracefmt.FprintTraces(&b, traces)
	if b.String() != want {
		return fmt.Errorf("rendered\n%s\nwant\n%s\n(%q, want %q)", b.String(), want, b.String(), want)
	}
	steps, ruled, grown := 0, 0, false
	for i, e := range es {
		if i == 0 || es[i-1].Step != e.Step {
			steps++
		}
		if e.Rule != nil {
			ruled++
		}
		grown = grown || runewidth.StringWidth(string(e.Word)) >= 8
	}
	c.NonTrivialIf(steps >= 2 && ruled >= 2)
	c.LabelIf(grown, "wide words")

	// A broken writer gets nothing but the start of it.
	w := &cutWriter{left: x.Cut}
	tracefmt.FprintTraces(w, traces)
	if !strings.HasPrefix(want, w.buf.String()) {
		return fmt.Errorf("a broken writer got %q, want the start of %q", w.buf.String(), want)
	}

	if x.Print {
		c.Label("standard output")
		got, err := captureStdout(c.Env, func() { tracefmt.PrintTraces(traces) })
		if err != nil {
			return err
		}
		if got != want {
			return fmt.Errorf("printed %q, want %q", got, want)
		}
	}
	return nil
}

// captureStdout swaps os.Stdout by a file.
func captureStdout(env *fw.Env, f func()) (string, error) {
	stdoutMu.Lock()
	defer stdoutMu.Unlock()
	file, err := os.CreateTemp(env.Scratch, "stdout")
	if err != nil {
		return "", err
	}
	defer os.Remove(file.Name())
	defer file.Close()
	was := os.Stdout
	os.Stdout = file
	f()
	os.Stdout = was
	raw, err := os.ReadFile(file.Name())
	return string(raw), err
}

func init() {
	fw.Reg("C22",
		"A case is a sequence of up to 12 trace events (steps in any order; narrow, wide, combining, long, any other letters; rules and reasons with formatting directives), or the events of a word of a bundled language. The oracle renders them by a model: a header when the step changes, a line per event, explanations aligned to a multiple of 8 beyond the widest word so far. The same into a writer which breaks, and to the standard output. Non-trivial: at least 2 steps and 2 rules.",
		genC22, checkC22,
		fw.FixedCases(func(e *fw.Env) (out []c22case) {
			for n := 0; n <= 70; n++ {
				out = append(out, c22case{Print: true, Events: []c22event{
					{Step: "Input", Word: fw.S(strings.Repeat("a", n))},
					{Step: "Rewrite", Word: fw.S(strings.Repeat("가", n)), Rule: &[2]string{"a", "b"}},
					{Step: "Rewrite", Word: "a", Why: "w"},
				}})
			}
			for _, lang := range langs {
				for _, ex := range model.Bundled(lang).Test {
					out = append(out, c22case{Lang: lang, Word: fw.S(ex[0])})
				}
			}
			return
		}))
}
