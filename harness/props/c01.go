package props

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

// c01case is a word, or a unit of text whose repeats are timed.
type c01case struct {
	Lang string `json:"lang"`
	Word fw.S   `json:"word"`

	// Grow is the number of the units in a text which is transcribed along
	// with one 16 times as long.
	Grow int `json:"grow,omitempty"`
}

// checkGrowth compares the time of a text to that of a text 16 times as long,
// which is 16 to 25 times as long when the time is linear and 256 times when it
// is quadratic.
func checkGrowth(c *fw.Ctx, x c01case) error {
	h, err := sharedHangulizer(x.Lang)
	if err != nil {
		return err
	}
	unit := string(x.Word)
	measure := func(k int) (time.Duration, error) {
		word := strings.Repeat(unit, k)
		runtime.GC()
		start := cpuTime()
		_, err := h.Hangulize(word)
		return cpuTime() - start, err
	}
	const slow = 4 * time.Second
	var ratio float64
	for try := 0; try < 3; try++ {
		short, err := measure(x.Grow)
		if err != nil {
			return err
		}
		short = max(short, 20*time.Millisecond)
		long, err := measure(16 * x.Grow)
		if err != nil {
			return err
		}
		c.Label("timed")
		c.NonTrivial()
		ratio = float64(long) / float64(short)
		if long < slow || ratio < 64 {
			return nil
		}
	}
	return fmt.Errorf("%s: %d times %s: 16 times as many take %.0f times as long", x.Lang, x.Grow, q(unit), ratio)
}

// cpuTime is the time which the process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		panic(err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func init() {
	fw.Reg("C01",
		"A case is any word (also invalid UTF-8, controls, huge runs) for a bundled language. Hangulize must return within the time limit without an error and without a panic, and the result must be valid UTF-8 made of Hangul syllables, spaces, the input's letters which take no part in the transcription, and localized punctuation. Non-trivial: the result has a Hangul syllable which the word has not. Some fixed texts are transcribed along with one 16 times as long: the time (of the processor) must not grow quadratically.",
		func(t *rapid.T) c01case {
			lw := genLangWord(t)
			x := c01case{Lang: lw.Lang, Word: lw.Word}
			if gen.Chance(t, 15, "bytes") {
				raw := rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "raw")
				w := string(x.Word)
				at := gen.Int(t, len(w)+1, "at")
				x.Word = fw.S(w[:at] + string(raw) + w[at:])
			}
			return x
		},
		func(c *fw.Ctx, x c01case) error {
			if x.Grow > 0 {
				return checkGrowth(c, x)
			}
			h, err := sharedHangulizer(x.Lang)
			if err != nil {
				return err
			}
			spec := model.Bundled(x.Lang)
			word := string(x.Word)
			got, err := h.Hangulize(word)
			if err != nil {
				return fmt.Errorf("%s: Hangulize(%s): %w", x.Lang, q(word), err)
			}
			if err := installGlobally(); err != nil {
				return err
			}
			got2, err := hangulize.Hangulize(x.Lang, word)
			if err != nil {
				return fmt.Errorf("%s: package-level Hangulize(%s): %w", x.Lang, q(word), err)
			}
			if got != got2 {
				return fmt.Errorf("%s: Hangulize(%s): a Hangulizer gives %s but the package-level function %s", x.Lang, q(word), q(got), q(got2))
			}
			if !utf8.ValidString(got) {
				return fmt.Errorf("%s: Hangulize(%s) = %q is not valid UTF-8", x.Lang, q(word), got)
			}
			tw, err := transliterate(h, spec.Translit, word)
			if err != nil {
				return err
			}
			_, nw := spec.NormalizeWord(tw)
			allowed := map[rune]bool{}
			for _, r := range nw {
				if !spec.Meaningful(r) {
					allowed[r] = true
				}
			}
			for _, r := range model.Localize(spec.Script, nw) {
				if !spec.InScript(r) {
					allowed[r] = true
				}
			}
			inWord := map[rune]bool{}
			for _, r := range word {
				inWord[r] = true
			}
			lits := rhsLits(spec)
			for _, r := range got {
				if isSyllable(r) && !inWord[r] {
					c.NonTrivial()
				}
				if isSyllable(r) || r == ' ' || allowed[r] || lits[r] {
					continue
				}
				return fmt.Errorf("%s: Hangulize(%s) = %s: the letter %+q leaks", x.Lang, q(word), q(got), r)
			}
			c.LabelIf(!utf8.ValidString(word), "invalid UTF-8")
			c.LabelIf(len(word) > 300, "long")
			return nil
		},
		fw.FixedCases(func(e *fw.Env) []c01case {
			var out []c01case
			for _, l := range langs {
				for _, w := range []string{"", " ", "\x00", "\xff", "\xe3\x81", "{}", "<>", "\u200b", "-", "a\x00b", "\u0301", "😀"} {
					out = append(out, c01case{Lang: l, Word: fw.S(w)})
				}
			}
			// Texts of many short pieces, of one long piece, of words, and of
			// foreign letters.
			for _, l := range []string{"ita", "rus", "ell", "kat-1", "jpn-ck", "chi", "ces"} {
				ex := model.Bundled(l).Test[0][0]
				r := []rune(ex)[0]
				if l == "chi" {
					r = 'b'
				}
				k := 1
				if l != "jpn-ck" {
					// (Kagome needs a cubic time for unknown words.)
					out = append(out, c01case{Lang: l, Word: fw.S(ex), Grow: 6000 / len(ex)})
				} else {
					k = 2
				}
				out = append(out,
					c01case{Lang: l, Word: fw.S(string(r) + "1"), Grow: 4000 / k},
					c01case{Lang: l, Word: fw.S(ex + " "), Grow: 6000 / (len(ex) + 1) / k},
				)
			}
			for i, w := range []string{"1", "가", " ", "\u0301", "\xff", "- "} {
				out = append(out, c01case{Lang: langs[(i*7)%len(langs)], Word: fw.S(w), Grow: 4000})
			}
			return out
		}))
}
