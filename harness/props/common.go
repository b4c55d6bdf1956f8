// Package props holds the property checks.
package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

// newHangulizer loads a bundled spec with the standard Translits.
func newHangulizer(lang string) (hangulize.Hangulizer, error) {
	spec, err := hangulize.LoadSpec(lang)
	if err != nil {
		return nil, err
	}
	return withTranslits(spec)
}

func withTranslits(spec *hangulize.Spec) (hangulize.Hangulizer, error) {
	h := hangulize.New(spec)
	if !translit.Install(h) {
		return nil, fmt.Errorf("Install failed on a fresh Hangulizer")
	}
	return h, nil
}

var (
	hsMu sync.Mutex
	hs   = map[string]hangulize.Hangulizer{}
)

// sharedHangulizer caches a Hangulizer per language.
func sharedHangulizer(lang string) (hangulize.Hangulizer, error) {
	hsMu.Lock()
	defer hsMu.Unlock()
	if h := hs[lang]; h != nil {
		return h, nil
	}
	h, err := newHangulizer(lang)
	if err == nil {
		hs[lang] = h
	}
	return h, err
}

var (
	installOnce sync.Once
	installOK   bool
)

// installGlobally installs the standard Translits once per process.
func installGlobally() error {
	installOnce.Do(func() { installOK = translit.Install() })
	if !installOK {
		return fmt.Errorf("Install failed on the empty default registry")
	}
	return nil
}

// transliterate applies the Translits of a bundled spec.
func transliterate(h hangulize.Hangulizer, schemes []string, word string) (string, error) {
	ts := h.Translits()
	for _, s := range schemes {
		t := ts[s]
		if t == nil {
			return "", fmt.Errorf("no translit %s", s)
		}
		var err error
		if word, err = t.Transliterate(word); err != nil {
			return "", err
		}
	}
	return word, nil
}

var langs = model.Langs()

// langsExcept lists the bundled languages whose Translits have no such prefix.
func langsExcept(prefixes ...string) []string {
	var out []string
next:
	for _, l := range langs {
		for _, s := range model.Bundled(l).Translit {
			for _, p := range prefixes {
				if strings.HasPrefix(s, p) {
					continue next
				}
			}
		}
		out = append(out, l)
	}
	return out
}

func q(s string) string {
	if len(s) > 600 {
		s = s[:600]
	}
	return fmt.Sprintf("%+q (%s)", s, s)
}

type langWord struct {
	Lang string `json:"lang"`
	Word fw.S   `json:"word"`
}

// genLang draws a language; those with Translits weigh more.
func genLang(t *rapid.T, all []string) string {
	if gen.Chance(t, 20, "translit?") {
		var ls []string
		for _, l := range all {
			if len(model.Bundled(l).Translit) > 0 {
				ls = append(ls, l)
			}
		}
		if len(ls) > 0 {
			return gen.Pick(t, ls, "lang")
		}
	}
	return gen.Pick(t, all, "lang")
}

func genLangWord(t *rapid.T) langWord {
	lang := genLang(t, langs)
	return langWord{lang, fw.S(gen.Word(t, gen.DataOf(model.Bundled(lang))))}
}

func isJamo(r rune) bool {
	return r >= 0x3131 && r <= 0x318e || r >= 0x1100 && r <= 0x11ff || r >= 0xa960 && r <= 0xa97c || r >= 0xd7b0 && r <= 0xd7fb
}

func isSyllable(r rune) bool { return r >= 0xac00 && r <= 0xd7a3 }

// rhsLits are the non-Jamo letters which the transcribe rules may write.
func rhsLits(s *model.Spec) map[rune]bool {
	out := map[rune]bool{}
	for _, rule := range s.Transcribe {
		for _, part := range rule.R.Literals() {
			for _, r := range part {
				if !isJamo(r) && r != '-' {
					out[r] = true
				}
			}
		}
	}
	return out
}

// foreign lists letters which take no part in the transcription of a spec.
func foreign(s *model.Spec, hangul bool) []string {
	used := rhsLits(s)
	for _, r := range "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'\"`" {
		used[r] = true // the Translits use them
	}
	for _, l := range gen.DataOf(s).Alphabet {
		used[l] = true
	}
	for _, froms := range s.Normalize {
		for _, f := range froms {
			for _, r := range f {
				used[r] = true
			}
		}
	}
	cyr := map[rune]bool{}
	if len(s.Translit) > 0 {
		for _, m := range model.CyrDict() {
			for k := range m {
				for _, r := range k {
					cyr[r] = true
				}
			}
		}
	}
	var out []string
	seen := map[rune]bool{}
	for _, r := range append([]rune("0123456789@#%/…()[]☃中日あア¶→€가힣나αяბ①½±§"), gen.Interesting...) {
		if seen[r] || used[r] || cyr[r] || s.Meaningful(r) || r == '\u200b' || !utf8.ValidRune(r) ||
			isJamo(r) || unicode.IsMark(r) || isSyllable(r) != hangul && isSyllable(r) {
			continue
		}
		if r == 0xfffd || len(s.Translit) > 0 && unicode.Is(unicode.Han, r) {
			continue
		}
		if model.Localize(s.Script, "a"+string(r)+"a") != "a"+string(r)+"a" {
			continue
		}
		seen[r] = true
		out = append(out, string(r))
	}
	sort.Strings(out)
	return out
}

var foreignCache sync.Map

func foreignOf(lang string, hangul bool) []string {
	key := fmt.Sprint(lang, hangul)
	if v, ok := foreignCache.Load(key); ok {
		return v.([]string)
	}
	v := foreign(model.Bundled(lang), hangul)
	foreignCache.Store(key, v)
	return v
}

func sortBy[T any](xs []T, key func(T) string) {
	sort.SliceStable(xs, func(i, j int) bool { return key(xs[i]) < key(xs[j]) })
}
