package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
	goPinyin "github.com/mozillazg/go-pinyin"
	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

// ---------------------------------------------------------------------------
// C18

type c18case struct {
	Country string `json:"country"`
	Word    fw.S   `json:"word"`
	Times   int    `json:"times,omitempty"` // the word is repeated
}

// repeated is a word repeated for a long text.
func repeated(w fw.S, times int) string {
	if times < 2 {
		return string(w)
	}
	return strings.Repeat(string(w), times)
}

var countries = []string{"bg", "mk", "ru", "ua"}

func cyrKeys(country string) []string {
	d := model.CyrDict()[country]
	var ks []string
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func genC18(t *rapid.T) c18case {
	country := gen.Pick(t, countries, "country")
	keys := cyrKeys(country)
	var b strings.Builder
	for n := gen.Range(t, 0, 10, "n"); n > 0; n-- {
		switch gen.Weighted(t, "part", 8, 3, 2, 2, 1) {
		case 0:
			b.WriteString(gen.Pick(t, keys, "key"))
		case 1: // a part of a key, which may join the next one
			k := []rune(gen.Pick(t, keys, "key"))
			b.WriteString(string(k[:gen.Range(t, 0, len(k), "cut")]))
		case 2:
			b.WriteString(gen.Pick(t, cyrKeys(gen.Pick(t, countries, "other")), "key"))
		case 3:
			b.WriteRune(rune(gen.Range(t, 0x400, 0x45f, "cyr")))
		default:
			b.WriteRune(gen.AnyRune(t))
		}
	}
	w := b.String()
	switch gen.Weighted(t, "case", 6, 1, 1, 1) {
	case 1:
		w = strings.ToUpper(w)
	case 2:
		w = strings.ToLower(w)
	case 3:
		if w != "" {
			at := gen.Int(t, len(w), "at")
			w = w[:at] + gen.Pick(t, []string{"\xff", "\xd0", "", "\u0301"}, "raw") + w[at:]
		}
	}
	return c18case{country, fw.S(w), longTimes(t, len(w))}
}

func checkC18(c *fw.Ctx, x c18case) error {
	var tr hangulize.Translit
	for _, t := range cyrillic.Ts {
		if t.Scheme() == "cyrillic["+x.Country+"]" {
			if tr != nil {
				return fmt.Errorf("two Translits for %s", x.Country)
			}
			tr = t
		}
	}
	if tr == nil || len(cyrillic.Ts) != len(countries) {
		return fmt.Errorf("no Translit for %s in %d", x.Country, len(cyrillic.Ts))
	}
	word := repeated(x.Word, x.Times)
	got, err := tr.Transliterate(word)
	if err != nil {
		return err
	}
	if want := model.Cyrillic(x.Country, word); got != want {
		return fmt.Errorf("%s: %s becomes %s, want %s", x.Country, q(word), q(got), q(want))
	}
	c.NonTrivialIf(got != word && utf8.RuneCountInString(word) >= 2)
	c.LabelIf(utf8.RuneCountInString(got) < utf8.RuneCountInString(word), "several letters become one")
	return nil
}

// ---------------------------------------------------------------------------
// C19

type wordCase struct {
	Word  fw.S `json:"word"`
	Times int  `json:"times,omitempty"` // the word is repeated
}

var (
	hanziOnce sync.Once
	hanzis    []rune
)

func hanzi() []rune {
	hanziOnce.Do(func() {
		for r := range goPinyin.PinyinDict {
			hanzis = append(hanzis, rune(r))
		}
		sort.Slice(hanzis, func(i, j int) bool { return hanzis[i] < hanzis[j] })
	})
	return hanzis
}

// readHanzi is the first reading without the tone.
func readHanzi(r rune) string {
	first, _, _ := strings.Cut(goPinyin.PinyinDict[int(r)], ",")
	// A letter with a tone is the letter, and "ü" is written as "v".
	var out []rune
	for _, l := range norm.NFD.String(first) {
		switch l {
		case '\u0300', '\u0301', '\u0304', '\u030c', '\u0302':
			if l == '\u0302' {
				out = append(out, l)
			}
		case '\u0308':
			out[len(out)-1] = 'v'
		default:
			out = append(out, l)
		}
	}
	return norm.NFC.String(string(out))
}

func genC19(t *rapid.T) wordCase {
	w := gen.Runes(t, 0, 10, "w", func(t *rapid.T) rune {
		switch gen.Weighted(t, "rune", 5, 2, 2, 1, 1, 1) {
		case 0:
			return gen.Pick(t, hanzi(), "hanzi")
		case 1:
			return []rune(gen.Pick(t, []string{"中", "国", "北", "京", "女", "绿", "行", "〇", "嗯", "欸", "樂"}, "common"))[0]
		case 2:
			return gen.AnyRune(t)
		case 3: // compatibility ideographs, which NFC unifies
			return rune(gen.Range(t, 0xf900, 0xfaff, "compat"))
		case 4:
			return rune(gen.Range(t, 0x2f800, 0x2fa1f, "compat2"))
		default:
			return []rune(gen.Pick(t, []string{"a", " ", "\u0301", "e", "\u200b", "1", "。", "\u0308", "u"}, "other"))[0]
		}
	})
	if gen.Chance(t, 10, "invalid") {
		at := gen.Int(t, len(w)+1, "at")
		w = w[:at] + "\xe4" + w[at:]
	}
	return wordCase{fw.S(w), longTimes(t, len(w))}
}

func checkC19(c *fw.Ctx, x wordCase) error {
	word := repeated(x.Word, x.Times)
	got, err := pinyin.T.Transliterate(word)
	if err != nil {
		return err
	}
	var want []string
	open := false
	read := 0
	for _, r := range norm.NFC.String(word) {
		if p := readHanzi(r); p != "" {
			want = append(want, p)
			open = false
			read++
		} else if open {
			want[len(want)-1] += string(r)
		} else {
			want = append(want, string(r))
			open = true
		}
	}
	if joined := strings.Join(want, "\u200b"); got != joined {
		return fmt.Errorf("%s becomes %s, want %s", q(word), q(got), q(joined))
	}
	for _, r := range got {
		if readHanzi(r) != "" {
			return fmt.Errorf("%s becomes %s: %c is left", q(word), q(got), r)
		}
	}
	c.NonTrivialIf(read > 0 && len(want) > 1)
	c.LabelIf(norm.NFC.String(word) != word, "not in NFC")
	return nil
}

// ---------------------------------------------------------------------------
// C20

var (
	kagomeOnce sync.Once
	kagomeT    kagome.Tokenizer
)

func morphemes(w string) []model.Morpheme {
	kagomeOnce.Do(func() { kagomeT = kagome.New() })
	var out []model.Morpheme
	for _, tok := range kagomeT.Tokenize(w) {
		switch tok.Class {
		case kagome.DUMMY:
		case kagome.KNOWN:
			out = append(out, model.Morpheme{Surface: tok.Surface, Features: tok.Features()})
		default:
			out = append(out, model.Morpheme{Surface: tok.Surface})
		}
	}
	return out
}

var (
	jaWords   = model.Japanese()
	jaPhrases = strings.Fields("自動車 東京 大阪 北海道 食べよう 話さなかろう それは あちへ 新海誠 松本行弘 松本 新海 誠 優しい 可愛い 思う 縫う 聞いて 時々 いすゞ バナヽ カヾ 私は 学校へ ホウオウ ケェ おはよう さようなら ありがとう 王様 通り 大きい お父さん 株式会社 田中角栄 さん 1999年 ＡＢＣ abc ゔ ヴ ゟ ヿ が こそ です ます だろう でしょう たろう ない なかった れる ましょう は へ を え あのー えーと うーん 花子 太郎 山田 鈴木一郎 佐藤 金閣寺")
)

func isKana(r rune) bool { return r >= 0x3041 && r <= 0x3096 || r >= 0x30a1 && r <= 0x30fa }

func genC20(t *rapid.T) wordCase {
	var b strings.Builder
	for n := gen.Range(t, 0, 7, "n"); n > 0; n-- {
		switch gen.Weighted(t, "part", 5, 5, 3, 3, 2, 2, 1) {
		case 0:
			b.WriteString(gen.Pick(t, jaPhrases, "phrase"))
		case 1:
			b.WriteString(gen.Pick(t, jaWords, "word"))
		case 2: // kana, as in an unknown word
			base := rune(gen.Pick(t, []int{0x3041, 0x30a1, 0x30a1}, "kana"))
			b.WriteString(gen.Runes(t, 1, 5, "kana", func(t *rapid.T) rune { return base + rune(gen.Int(t, 0x54, "k")) }))
		case 3: // vowels
			b.WriteString(gen.Runes(t, 1, 3, "v", func(t *rapid.T) rune {
				return []rune(gen.Pick(t, []string{"ア", "イ", "ウ", "エ", "オ", "ァ", "ィ", "ゥ", "ェ", "ォ", "う", "い", "ー", "ト", "ド", "オ", "コ"}, "v"))[0]
			}))
		case 4:
			b.WriteString(gen.Pick(t, []string{"ゝ", "ゞ", "ヽ", "ヾ", "ゝゝ", "ヾヽ", "かゞ", "ハヾ", "ワヾ", "ウヾ", "\u3099", "\u309a", "々"}, "mark"))
		case 5:
			b.WriteString(gen.Pick(t, []string{" ", "　", "、", "。", "・", "「", "」", "\n", "!", "-", "1", "２"}, "punct"))
		default:
			b.WriteRune(gen.AnyRune(t))
		}
	}
	w := []rune(b.String())
	if len(w) > 60 {
		w = w[:60]
	}
	s := string(w)
	if gen.Chance(t, 20, "nfd") {
		s = norm.NFD.String(s)
	}
	x := wordCase{Word: fw.S(s)}
	if gen.Chance(t, 1, "long") && len(s) > 20 {
		// A stop keeps the unknown words short; Kagome needs long for them.
		x.Word += "。"
		x.Times = gen.Pick(t, []int{3, 10, 30, 100}, "times")
	}
	return x
}

func checkC20(c *fw.Ctx, x wordCase) error {
	word := repeated(x.Word, x.Times)
	got, err := furigana.T.Transliterate(word)
	if err != nil {
		return err
	}
	ms := morphemes(model.Iterate(norm.NFC.String(word)))
	if want := model.Furigana(ms); got != want {
		return fmt.Errorf("%s is read %s, want %s\n%q", q(word), q(got), q(want), ms)
	}
	for _, f := range []func(string) string{norm.NFC.String, norm.NFD.String} {
		same, err := furigana.T.Transliterate(f(word))
		if err != nil || same != got {
			return fmt.Errorf("%s is read %s, but %s in another normal form (%v)", q(word), q(got), q(same), err)
		}
	}
	known := 0
	for _, m := range ms {
		if len(m.Features) > 0 {
			known++
		}
	}
	c.NonTrivialIf(known >= 2 || known < len(ms) && strings.ContainsRune(got, 'ー'))
	c.LabelIf(model.Iterate(norm.NFC.String(word)) != norm.NFC.String(word), "iteration marks")
	c.LabelIf(strings.Count(got, " ") > strings.Count(word, " "), "two names")
	return nil
}

// fixedC20 has all pairs of kana, and all kana with iteration marks.
func fixedC20() []wordCase {
	var out []wordCase
	var kata []rune
	for r := rune(0x30a1); r <= 0x30fc; r++ {
		kata = append(kata, r)
	}
	for _, a := range kata {
		for _, v := range "アイウエオァィゥェォー" {
			// A rare start keeps the word unknown.
			out = append(out, wordCase{Word: fw.S("ヱ" + string(a) + string(v))})
		}
		for _, m := range "ヽヾゝゞ" {
			out = append(out, wordCase{Word: fw.S(string(a) + string(m))})
			if a < 0x30f7 {
				out = append(out, wordCase{Word: fw.S(string(a-0x60) + string(m))})
			}
		}
	}
	return out
}

func init() {
	fw.Reg("C18",
		"A case is a country and a word made of Latin spellings of its Cyrillic letters, cut spellings, those of other countries, Cyrillic and any other letters, in any letter case. Fixed cases: all pairs of spellings. The oracle replaces the longest spelling at each position by a reference copy of the table; everything else must stay. Non-trivial: at least two letters of which one changes.",
		genC18, checkC18,
		fw.FixedCases(func(e *fw.Env) (out []c18case) {
			for _, country := range countries {
				keys := cyrKeys(country)
				for _, a := range keys {
					for _, b := range keys {
						out = append(out, c18case{country, fw.S(a + b), 0})
					}
				}
				// Each spelling at every place of a long text.
				for _, k := range keys {
					for pad := 0; pad < 3 && len(k) > 1; pad++ {
						w := k + "." + strings.Repeat("-", pad)
						out = append(out, c18case{country, fw.S(w), 70000/len(w) + 1})
					}
				}
			}
			return
		}))

	fw.Reg("C19",
		"A case is a word of ideographs (also compatibility ones), marks, and any other letters. Fixed cases: all code points. The oracle takes the first reading in the dictionary of go-pinyin, removes the tones, and puts a zero-width space between readings and runs of other letters, after NFC. Non-trivial: at least one reading and at least two parts.",
		genC19, checkC19,
		fw.FixedCases(func(e *fw.Env) (out []wordCase) {
			const chunk = 0x100
			for at := rune(0); at < 0x110000; at += chunk {
				var b strings.Builder
				for r := at; r < at+chunk; r++ {
					if utf8.ValidRune(r) {
						b.WriteRune(r)
					}
				}
				out = append(out, wordCase{Word: fw.S(b.String())})
			}
			// Long runs with and without readings.
			for i, w := range []string{"a", "é", "あ", "中", "中a", "中国abc", "é行"} {
				w = strings.Repeat(w, 1+i) + strings.Repeat("-", i)
				out = append(out, wordCase{fw.S(w), 70000/len(w) + 1})
			}
			return
		}))

	fw.Reg("C20",
		"A case is a phrase of dictionary words, names, auxiliaries, particles, kana, vowels, iteration marks, punctuation and any other letters, in NFC or NFD. Fixed cases: all kana with all vowels and iteration marks. The oracle reads the tokens of Kagome aloud by a model: pronunciations of known words, particles as written, names separated, auxiliaries joined, prolonged vowels only where they belong. Non-trivial: at least two known words, or an unknown one with a prolonged vowel.",
		genC20, checkC20,
		fw.FixedCases(func(e *fw.Env) []wordCase {
			// Long texts, cut elsewhere by each start.
			var long []wordCase
			for i, w := range []string{strings.Join(jaPhrases, "。"), "。" + strings.Join(jaWords[:min(len(jaWords), 300)], "、"), "私は学校へ。 ", "コー、ヒー、", "いすゞ、カヾ、"} {
				w = strings.Repeat("！", i%3) + w + "。"
				long = append(long, wordCase{fw.S(w), 20000/len(w) + 1})
			}
			return append(long, fixedC20()...)
		}))
}
