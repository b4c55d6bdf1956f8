package gen

import (
	"math/bits"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// Int draws an integer in [0, n).
func Int(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	// Unlike the integers of rapid, all values are equally likely. Bits are
	// drawn from the top, so they shrink to 0.
	u, k := 0, bits.Len(uint(n-1))+2
	for i := 0; i < k; i++ {
		u <<= 1
		if coin.Draw(t, label) {
			u |= 1
		}
	}
	return u * n >> k
}

var coin = rapid.Bool()

// Range draws an integer in [min, max].
func Range(t *rapid.T, min, max int, label string) int {
	return min + Int(t, max-min+1, label)
}

// Pick draws one of the items.
func Pick[T any](t *rapid.T, xs []T, label string) T {
	return xs[Int(t, len(xs), label)]
}

// Weighted draws an index by the weights.
func Weighted(t *rapid.T, label string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	n := Int(t, sum, label)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

// Chance is true in n of 100 cases; shrinking prefers false.
func Chance(t *rapid.T, n int, label string) bool {
	return Int(t, 100, label) >= 100-n
}

// Runes turns a list of runes drawn from gen into a string.
func Runes(t *rapid.T, min, max int, label string, f func(*rapid.T) rune) string {
	n := Range(t, min, max, label+".len")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(f(t))
	}
	return b.String()
}

// Interesting runes for every property: spaces, controls, punctuation, marks,
// fullwidth forms, Hangul in several forms, and letters of many scripts.
var Interesting = []rune{
	' ', '\t', '\n', '\r', '\u00a0', '\u2003', '\u3000', '\u200b', '\u200d', '\ufeff', 0, 0x7f, 0x1b, '\u0085', '\u2028',
	'.', ',', '!', '?', '-', '\'', '"', ':', ';', '(', ')', '[', ']', '{', '}', '<', '>', '/', '\\', '&', '%', '@', '#', '*', '+', '=', '|', '^', '$', '~', '`', '_',
	'·', '’', '‘', '“', '”', '–', '—', '…', '«', '»', '¿', '¡', '。', '、', '：', '！', '？', '〜', '～', '「', '」', '『', '』', '・', '（', '）', '，', '．',
	'0', '1', '9', '²', '½', '٣', 'Ⅷ', '①',
	'a', 'z', 'A', 'Z', 'é', 'É', 'ß', 'ẞ', 'ǆ', 'ǅ', 'İ', 'ı', 'ſ', 'ﬁ', 'ǿ', 'ǣ', 'ø', 'Ø', 'đ', 'Đ', 'ł', 'Ł', 'ö', 'ü', 'ñ', 'ç', 'ș', 'ț', 'ơ', 'ư', 'ệ', 'Ａ', 'ａ', 'K', 'Å',
	'\u0301', '\u0300', '\u0308', '\u0304', '\u030c', '\u0327', '\u3099', '\u309a', '\u0345',
	'а', 'я', 'А', 'Я', 'ё', 'й', 'ѣ', 'ѳ', 'ї', 'ґ', 'ѓ', 'ќ', 'љ', 'ѐ', 'Ѡ', 'ꙋ',
	'α', 'ω', 'Ω', 'Ω', 'ς', 'ά', 'ᾳ', 'ϊ', 'ϐ', 'ა', 'ჰ', 'Ა', 'Ⴀ',
	'あ', 'ん', 'ア', 'ン', 'ー', 'ゝ', 'ゞ', 'ヽ', 'ヾ', 'ヷ', 'ゟ', 'ヿ', 'ｱ', 'ﾞ', '々', '日', '本', '你', '好', '中', '国', '㐀', '𠀀', '〇', '〆', '﨑', '羽',
	'가', '힣', '각', 'ㄱ', 'ㅎ', 'ㅏ', 'ㅣ', 'ㄳ', 'ᄀ', 'ᅡ', 'ᆨ', 'ᄒ', 'ㆍ', 'ㅿ',
	'א', 'ع', 'ก', 'अ', '€', '₩', '°', '™', '😀', '🇰', '👩', 0xfffd, 0xffff, 0x10ffff, 0xe000,
}

// AnyRune draws any rune.
func AnyRune(t *rapid.T) rune {
	switch Weighted(t, "any", 5, 2, 1, 1) {
	case 0:
		return Pick(t, Interesting, "rune")
	case 1:
		return rune(Range(t, 0x20, 0x7e, "ascii"))
	case 2:
		return Pick(t, Harvest().Runes, "const")
	default:
		r := rune(Range(t, 0, 0x10ffff, "code"))
		if r >= 0xd800 && r <= 0xdfff || r == 0xfdd0 || r == 0xfdd1 {
			r = 0xfffd
		}
		return r
	}
}

// LangData is what the word generator knows of a language.
type LangData struct {
	Spec     *model.Spec
	Alphabet []rune
	Examples []string
	nodes    []*model.Pat
	frags    []string // fragments for the transliterators
	han      bool
}

var (
	dataMu sync.Mutex
	data   = map[*model.Spec]*LangData{}
)

// DataOf prepares the data of a spec.
func DataOf(s *model.Spec) *LangData {
	dataMu.Lock()
	defer dataMu.Unlock()
	if d := data[s]; d != nil {
		return d
	}
	if len(data) > 200 {
		data = map[*model.Spec]*LangData{}
	}
	d := &LangData{Spec: s}
	seen := map[rune]bool{}
	add := func(r rune) {
		if !seen[r] {
			seen[r] = true
			d.Alphabet = append(d.Alphabet, r)
		}
	}
	for _, rs := range [][]*model.Rule{s.Rewrite, s.Transcribe} {
		for _, r := range rs {
			d.nodes = append(d.nodes, r.P)
			for _, l := range r.P.Letters() {
				add(l)
			}
		}
	}
	for to, froms := range s.Normalize {
		for _, r := range to + strings.Join(froms, "") {
			add(r)
		}
	}
	for _, ex := range s.Test {
		d.Examples = append(d.Examples, ex[0])
		for _, r := range ex[0] {
			add(r)
		}
	}
	for _, scheme := range s.Translit {
		switch {
		case scheme == "pinyin":
			d.han = true
			d.frags = strings.Fields("北京 上海 广州 你好 中国 毛泽东 邓小平 重庆 西安 银行 音乐 快乐 女儿 绿色 自行车 鲁迅 台灣 香港 豈 更 樂 李 龜")
		case scheme == "furigana":
			d.han = true
			d.frags = strings.Fields("自動車 東京 大阪 北海道 食べよう 話さなかろう それは あちへ 新海誠 松本行弘 松本 新海 誠 優しい 、 。 「 」 可愛い 思う 縫う 聞いて 時々 いすゞ バナヽ カヾ 私は 学校へ ホウオウ ケェ おはよう さようなら ありがとう 王様 通り 大きい お父さん 株式会社 田中角栄 さん 1999年 ＡＢＣ abc ゔ ヴ ゟ ヿ が こそ です ます だろう でしょう")
		case strings.HasPrefix(scheme, "cyrillic"):
			for lat := range CyrDict()[strings.TrimSuffix(strings.TrimPrefix(scheme, "cyrillic["), "]")] {
				d.frags = append(d.frags, lat)
			}
			sort.Strings(d.frags)
		}
	}
	if len(s.Translit) > 0 && d.han {
		for _, r := range strings.Join(d.frags, "") {
			add(r)
		}
		for r := 'ぁ'; r <= 'ゖ' && s.Script == "Hrkt"; r++ {
			add(r)
		}
	}
	// a stable order
	sortRunes(d.Alphabet)
	if len(d.Alphabet) == 0 {
		d.Alphabet = []rune("abc")
	}
	if len(d.Examples) == 0 {
		d.Examples = []string{"abc"}
	}
	data[s] = d
	return d
}

func sortRunes(rs []rune) {
	for i := 1; i < len(rs); i++ {
		for j := i; j > 0 && rs[j] < rs[j-1]; j-- {
			rs[j], rs[j-1] = rs[j-1], rs[j]
		}
	}
}

// Delims are letters which never take part in a transcription of a European
// language.
var Delims = []string{"1", "/", "…", "(", ")", "。", "☃", "中", "0 ", "%", "€", "\u200b", "가", "[", "→"}

// Word draws a word of a language in one of many ways.
func Word(t *rapid.T, d *LangData) string {
	switch Weighted(t, "mode", 25, 20, 20, 12, 8, 6, 4, 5) {
	case 0: // letters of the language
		if len(d.frags) > 0 && Chance(t, 70, "frags") {
			var b strings.Builder
			for n := Range(t, 1, 6, "nfrag"); n > 0; n-- {
				switch {
				case Chance(t, 20, "other"):
					b.WriteRune(letter(t, d))
				case Chance(t, 10, "any"):
					b.WriteRune(AnyRune(t))
				default:
					b.WriteString(Pick(t, d.frags, "frag"))
				}
			}
			return b.String()
		}
		return Runes(t, 0, 12, "w", func(t *rapid.T) rune { return letter(t, d) })
	case 1: // a mutated example
		if ws := model.Witnesses(d.Spec.ID); len(ws) > 0 && Chance(t, 25, "witness") {
			return Mutate(t, d, Pick(t, ws, "witness"))
		}
		return Mutate(t, d, Pick(t, d.Examples, "ex"))
	case 2: // a word made for one of the rules
		return RuleWord(t, d)
	case 3: // several words
		n := Range(t, 2, 5, "n")
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(delim(t))
			}
			switch Weighted(t, "part", 2, 2, 1) {
			case 0:
				b.WriteString(Pick(t, d.Examples, "ex"))
			case 1:
				b.WriteString(RuleWord(t, d))
			default:
				b.WriteString(Runes(t, 0, 6, "w", func(t *rapid.T) rune { return letter(t, d) }))
			}
		}
		return b.String()
	case 4: // anything
		return Runes(t, 0, 10, "w", AnyRune)
	case 5: // the language mixed with anything
		return Runes(t, 0, 14, "w", func(t *rapid.T) rune {
			if Chance(t, 25, "mix") {
				return AnyRune(t)
			}
			return letter(t, d)
		})
	case 6: // a literal of the sources around an example
		c := Pick(t, Harvest().Strings, "const")
		switch Int(t, 3, "where") {
		case 0:
			return c
		case 1:
			return Pick(t, d.Examples, "ex") + c
		default:
			return c + Pick(t, d.Examples, "ex") + c
		}
	default: // long
		n := Pick(t, append([]int{30, 64, 100, 255, 256, 257}, Harvest().Ints...), "len")
		if n > 600 {
			n = 600
		}
		if d.han && n > 90 {
			n = 90 // Kagome takes a cubic time for a run of unknown letters
		}
		unit := Runes(t, 1, 5, "unit", func(t *rapid.T) rune { return letter(t, d) })
		if Chance(t, 30, "ex?") {
			unit = Pick(t, d.Examples, "ex")
		}
		k := n/utf8.RuneCountInString(unit) + 1
		s := []rune(strings.Repeat(unit, k))
		n += Int(t, 3, "off")
		if n < len(s) {
			s = s[:n]
		}
		return string(s)
	}
}

// Flood repeats a word up to a thousand times, in few of a thousand cases.
func Flood(t *rapid.T, w string, permille int) string {
	if w == "" || len(w) > 40 || Int(t, 1000, "flood") < 1000-permille {
		return w
	}
	return strings.Repeat(w, min(Pick(t, []int{260, 1030, 1100}, "times"), 2500/len(w)))
}

func delim(t *rapid.T) string {
	switch Weighted(t, "delim", 3, 2, 2) {
	case 0:
		return Pick(t, []string{" ", "  ", "\t", "\n", "\u3000", " - ", "-"}, "sp")
	case 1:
		return Pick(t, Delims, "d")
	default:
		return string(Pick(t, Interesting, "i"))
	}
}

// CyrDict is the reference spelling of the Cyrillic letters by country.
func CyrDict() map[string]map[string]string { return model.CyrDict() }

func letter(t *rapid.T, d *LangData) rune {
	if d.han && Chance(t, 15, "han") {
		return rune(Range(t, 0x4e00, 0x9fa5, "cjk"))
	}
	if Chance(t, 3, "any of the script") {
		return Pick(t, model.ScriptLetters(d.Spec.Script), "script")
	}
	r := Pick(t, d.Alphabet, "l")
	if Chance(t, 12, "up") {
		r = unicode.ToUpper(r)
	}
	return r
}

// Mutate edits a word a few times.
func Mutate(t *rapid.T, d *LangData, w string) string {
	rs := []rune(w)
	for n := Range(t, 0, 3, "edits"); n > 0 && len(rs) > 0; n-- {
		i := Int(t, len(rs), "at")
		switch Weighted(t, "edit", 3, 3, 2, 2, 2, 1, 1, 1) {
		case 0:
			rs[i] = letter(t, d)
		case 1:
			rs = append(rs[:i:i], append([]rune{letter(t, d)}, rs[i:]...)...)
		case 2:
			rs = append(rs[:i:i], rs[i+1:]...)
		case 3:
			rs[i] = unicode.ToUpper(rs[i])
		case 4:
			rs = append(rs[:i+1:i+1], rs[i:]...) // double a letter
		case 5:
			rs = append(rs[:i:i], append([]rune{AnyRune(t)}, rs[i:]...)...)
		case 6:
			rs = append(rs[:i:i], append([]rune(delim(t)), rs[i:]...)...)
		case 7:
			rs = append(rs, []rune(Pick(t, d.Examples, "ex"))...)
		}
	}
	return string(rs)
}

// RuleWord draws a word which is likely to be matched by a rule.
func RuleWord(t *rapid.T, d *LangData) string {
	if len(d.nodes) == 0 {
		return "a"
	}
	return PatWord(t, Pick(t, d.nodes, "rule"), func(t *rapid.T) rune { return letter(t, d) })
}

// PatWord draws a word which is likely to be matched by a pattern.
func PatWord(t *rapid.T, p *model.Pat, other func(*rapid.T) rune) string {
	var b strings.Builder
	n := 1
	if Chance(t, 25, "twice") {
		n = 2 + Int(t, 2, "times")
	}
	for i := 0; i < n; i++ {
		b.WriteString(Runes(t, 0, 2, "pre", other))
		if p.EdgeL != nil && Chance(t, 50, "spL") {
			b.WriteString(Pick(t, []string{" ", "{}", "  "}, "edge"))
		}
		if p.NegB != nil && Chance(t, 40, "negB") {
			Sample(t, p.NegB, &b, other)
		}
		Sample(t, p.LookL, &b, other)
		Sample(t, p.Core, &b, other)
		if p.NegA != nil && Chance(t, 40, "negA") {
			Sample(t, p.NegA, &b, other)
		}
		Sample(t, p.LookR, &b, other)
		if p.EdgeR != nil && Chance(t, 50, "spR") {
			b.WriteString(Pick(t, []string{" ", "{}", "\t"}, "edge"))
		}
		b.WriteString(Runes(t, 0, 2, "post", other))
	}
	return b.String()
}

// Sample draws a string matched by the node.
func Sample(t *rapid.T, n *model.Node, b *strings.Builder, other func(*rapid.T) rune) {
	if n == nil {
		return
	}
	switch n.Kind {
	case model.KLit:
		b.WriteRune(n.R)
	case model.KAny:
		b.WriteRune(other(t))
	case model.KClass:
		if n.Neg || len(n.Ranges) == 0 {
			b.WriteRune(other(t))
			return
		}
		rg := Pick(t, n.Ranges, "range")
		b.WriteRune(rg[0] + rune(Int(t, int(rg[1]-rg[0])+1, "in")))
	case model.KCat:
		for _, s := range n.Subs {
			Sample(t, s, b, other)
		}
	case model.KAlt:
		Sample(t, Pick(t, n.Subs, "alt"), b, other)
	case model.KGroup:
		Sample(t, n.Subs[0], b, other)
	case model.KRep:
		max := n.Max
		if max < 0 {
			max = n.Min + 3
		}
		for k := Range(t, n.Min, max, "rep"); k > 0; k-- {
			Sample(t, n.Subs[0], b, other)
		}
	case model.KChunkStart, model.KChunkEnd:
		if Chance(t, 50, "space") {
			b.WriteString(Pick(t, []string{" ", "{}"}, "edge"))
		}
	}
}
