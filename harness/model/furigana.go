package model

import (
	_ "embed"
	"strings"
	"unicode"

	"golang.org/x/text/unicode/norm"
)

//go:embed data/japanese.txt
var japanese string

// Japanese lists words of a Japanese dictionary.
func Japanese() []string { return strings.Fields(japanese) }

// Morpheme is a token of the lexical analysis.
type Morpheme struct {
	Surface string
	// Features are empty if the morpheme is unknown.
	Features []string
}

const (
	voiced     = '\u3099'
	semiVoiced = '\u309a'
)

// unvoice removes the voiced mark of a kana.
func unvoice(r rune) rune {
	d := []rune(norm.NFD.String(string(r)))
	if len(d) == 2 && (d[1] == voiced || d[1] == semiVoiced) {
		return d[0]
	}
	return r
}

// voice adds the voiced mark to a kana.
func voice(r rune) rune {
	c := []rune(norm.NFC.String(string([]rune{r, voiced})))
	if len(c) == 1 {
		return c[0]
	}
	return r
}

// Iterate resolves the iteration marks: each repeats the kana before it if
// both are of the same kind.
func Iterate(w string) string {
	out := []rune(w)
	for i := 1; i < len(out); i++ {
		hira := out[i-1] >= 0x3040 && out[i-1] <= 0x309f
		kata := out[i-1] >= 0x30a0 && out[i-1] <= 0x30ff
		switch {
		case hira && out[i] == 'ゝ', kata && out[i] == 'ヽ':
			out[i] = unvoice(out[i-1])
		case hira && out[i] == 'ゞ', kata && out[i] == 'ヾ':
			out[i] = voice(out[i-1])
		}
	}
	return string(out)
}

// prolonged lists the kana after which a vowel is only a prolongation.
var prolonged = map[rune]string{
	'ァ': "ァアカガサザタダナハバパマャヤラヮワ",
	'ア': "ァアカガサザタダナハバパマャヤラヮワ",
	'ィ': "ィイェエキギケゲシジセゼチヂニネヒビピヘベペミメリレヰヱヸヹ",
	'イ': "ィイキギシジニヒビピミリヰヸ",
	'ゥ': "ゥウォオクグコゴスズソゾツヅヌノフブプホボポムモュユョヨルロヲヴヺ",
	'ウ': "ゥウォオクグコゴスズソゾツヅトドヌノフブプホボポムモュユョヨルロヲヴヺ",
	'ェ': "ェエケゲセゼテデネヘベペメレヱヹ",
	'エ': "ェエケゲセゼテデネヘベペメレヱヹ",
	'ォ': "ォオコゴソゾトドノホボポモョヨロヲヺ",
	'オ': "ォオコゴソゾトドノホボポモョヨロヲヺ",
}

// prolong writes the prolonged vowels from the given letter on as 'ー'.
func prolong(w []rune, from int) []rune {
	out := append([]rune{}, w...)
	for i := range w {
		if i >= from && i > 0 && strings.ContainsRune(prolonged[w[i]], w[i-1]) {
			out[i] = 'ー'
		}
	}
	return out
}

func (m *Morpheme) read() (text string, symbol, aux, person bool) {
	fs := m.Features
	if len(fs) == 0 {
		blank := strings.IndexFunc(m.Surface, func(r rune) bool { return !unicode.IsSpace(r) }) < 0
		return m.Surface, blank, false, false
	}
	text = fs[8]
	switch fs[0] {
	case "フィラー", "記号":
		return text, true, false, false
	case "助動詞":
		return text, false, true, false
	case "助詞":
		if fs[6] == "は" {
			text = "ハ"
		} else if fs[6] == "へ" {
			text = "ヘ"
		}
		return text, false, false, false
	}
	return text, false, false, fs[2] == "人名"
}

// Furigana reads the morphemes aloud.
func Furigana(ms []Morpheme) string {
	var out strings.Builder
	afterPerson := false
	for i := 0; i < len(ms); {
		text, _, _, person := ms[i].read()
		w := []rune(text)
		if len(ms[i].Features) == 0 && strings.TrimSpace(text) != "" {
			// Nobody knows how an unknown word is read.
			w = prolong(w, 0)
		}
		core := len(w)
		for i++; i < len(ms); i++ {
			t, _, aux, _ := ms[i].read()
			if !aux {
				break
			}
			w = append(w, []rune(t)...)
		}
		if person && afterPerson {
			out.WriteByte(' ')
		}
		out.WriteString(string(prolong(w, core)))
		afterPerson = person
	}
	return out.String()
}
