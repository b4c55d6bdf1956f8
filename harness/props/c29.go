package props

import (
	_ "embed"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gen"
)

type c29lang struct {
	ID       string   `json:"id"`
	Code2    string   `json:"code2"`
	Code3    string   `json:"code3"`
	English  string   `json:"english"`
	Korean   string   `json:"korean"`
	Script   string   `json:"script"`
	Translit []string `json:"translit"`
}

type c29example struct {
	Word   string `json:"word"`
	Result string `json:"result"`
}

type c29spec struct {
	Lang c29lang      `json:"lang"`
	Test []c29example `json:"test"`
}

type c29action struct {
	At   int    `json:"at"`
	Do   string `json:"do"` // type, select, example, shuffle, resize
	Word string `json:"word"`
	Lang string `json:"lang"`
	N    int    `json:"n"`
}

type c29case struct {
	Specs     map[string]c29spec `json:"specs"`       // of the manifest
	Later     map[string]c29spec `json:"workerSpecs"` // of the WebAssembly build
	Translits []string           `json:"translits"`
	Version   string             `json:"version"`
	Search    string             `json:"search"`
	Random    []int              `json:"random"`
	Delays    map[string][]int   `json:"delays"`
	Letter    int                `json:"letter"`   // height of a letter of size 1
	Capacity  int                `json:"capacity"` // height of the place for the result
	Actions   []c29action        `json:"actions"`
}

type c29paint struct {
	T             int         `json:"t"`
	Result        *string     `json:"result"`
	ResultLoading bool        `json:"resultLoading"`
	Loading       bool        `json:"loading"`
	Word          string      `json:"word"`
	Lang          string      `json:"lang"`
	Version       string      `json:"version"`
	Options       [][2]string `json:"options"`
	Examples      []string    `json:"examples"`
	Size          string      `json:"size"`
}

type c29log struct {
	Quiet bool `json:"quiet"`
	Done  []struct {
		T    int     `json:"t"`
		Do   string  `json:"do"`
		Word *string `json:"word"`
		Lang *string `json:"lang"`
	} `json:"done"`
	Log       []c29paint `json:"log"`
	Errors    []string   `json:"errors"`
	Started   []string   `json:"started"`
	Workers   []string   `json:"workers"`
	Translits []string   `json:"translits"`
	Search    string     `json:"search"`
	Title     string     `json:"title"`
}

var c29pool = []c29lang{
	{ID: "ita", Code2: "it", Code3: "ita", English: "Italian", Korean: "이탈리아어", Script: "Latin"},
	{ID: "por.br", Code2: "pt", Code3: "por", English: "Portuguese (Brazil)", Korean: "브라질 포르투갈어", Script: "Latin"},
	{ID: "jpn", Code2: "ja", Code3: "jpn", English: "Japanese", Korean: "일본어", Script: "Hrkt", Translit: []string{"furigana"}},
	{ID: "chi", Code2: "zh", Code3: "chi", English: "Chinese", Korean: "중국어", Script: "Pinyin", Translit: []string{"pinyin"}},
	{ID: "ukr", Code2: "uk", Code3: "ukr", English: "Ukrainian", Korean: "우크라이나어", Script: "Cyrillic", Translit: []string{"cyrillic[ukr]"}},
	{ID: "rus", Code2: "ru", Code3: "rus", English: "Russian", Korean: "러시아어", Script: "Cyrillic", Translit: []string{"cyrillic[rus]"}},
	{ID: "mix", Code2: "", Code3: "mix", English: "Mixed", Korean: "가나다어", Script: "Latin", Translit: []string{"pinyin", "cyrillic[rus]"}},
	{ID: "srp-cyrl", Code2: "sr", Code3: "srp", English: "Serbian", Korean: "세르비아어", Script: "Cyrillic", Translit: []string{"cyrillic[sr-ME]"}},
}

func c29word(t *rapid.T, label string) string {
	if gen.Chance(t, 15, label+" blank") {
		return gen.Pick(t, []string{"", " ", "\u3000", "\t \u00a0"}, label)
	}
	var b strings.Builder
	for n := gen.Range(t, 1, 5, label+" length"); n > 0; n-- {
		b.WriteString(gen.Pick(t, []string{"a", "b", "가", "漢", "é", " ", "&", "+", "%", "#", "=", "?", "%41", "<b>", "😀", "abcdefgh", "\"", "/"}, label+" letter"))
	}
	if gen.Chance(t, 10, label+" breaks") {
		b.WriteString("!")
	}
	return b.String()
}

func genC29(t *rapid.T) c29case {
	x := c29case{Specs: map[string]c29spec{}, Later: map[string]c29spec{}, Version: gen.Pick(t, []string{"1.0.0", "manifest", ""}, "version"), Delays: map[string][]int{}}
	seen := map[string]bool{}
	for _, i := range rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "langs")[:gen.Range(t, 1, 5, "count")] {
		l := c29pool[i]
		if l.Translit == nil {
			l.Translit = []string{}
		}
		s := c29spec{Lang: l, Test: []c29example{}}
		for n := gen.Range(t, 0, 7, "examples"); n > 0; n-- {
			w := strings.TrimSuffix(c29word(t, "example"), "!")
			if strings.TrimSpace(w) != "" {
				s.Test = append(s.Test, c29example{w, "가"})
			}
		}
		x.Later[l.ID] = s
		if len(x.Specs) == 0 || gen.Chance(t, 85, "known") {
			x.Specs[l.ID] = s
		}
		for _, m := range l.Translit {
			if !seen[m] {
				seen[m] = true
				x.Translits = append(x.Translits, m)
			}
		}
	}
	if x.Translits == nil {
		x.Translits = []string{}
	}
	var known, later []string
	for id := range x.Specs {
		known = append(known, id)
	}
	for id := range x.Later {
		later = append(later, id)
	}
	sort.Strings(known)
	sort.Strings(later)

	v := url.Values{}
	if gen.Chance(t, 75, "has lang") {
		v.Set("lang", gen.Pick(t, known, "lang"))
	}
	if gen.Chance(t, 75, "has word") {
		v.Set("word", c29word(t, "word"))
	}
	if len(v) > 0 {
		x.Search = "?" + v.Encode()
	}
	for n := gen.Range(t, 1, 6, "random"); n > 0; n-- {
		x.Random = append(x.Random, gen.Range(t, 0, 30, "number"))
	}
	slow := gen.Pick(t, []int{0, 40, 300, 1500}, "slow")
	some := func(kind string, from ...int) {
		var d []int
		for n := gen.Range(t, 1, 4, kind+" count"); n > 0; n-- {
			d = append(d, gen.Pick(t, from, kind))
		}
		x.Delays[kind] = d
	}
	some("message", 0, 0, 1, 5, slow/4)
	some("worker", 0, 10, slow)
	some("fetch", 0, 20, slow)
	some("compile", 0, 50, slow)
	some("job", 0, 1, 30, slow, slow, 2*slow)
	some("render", 0, 0, 0, 1, 4)
	some("effect", 0, 0, 0, 1, 4)
	x.Letter = gen.Pick(t, []int{1, 4, 10, 40}, "letter")
	x.Capacity = gen.Pick(t, []int{100, 300, 1000}, "capacity")

	lastTyped := v.Get("word")
	typed := []string{lastTyped}
	for _, id := range later {
		for _, e := range x.Later[id].Test {
			typed = append(typed, e.Word)
		}
	}
	at := gen.Pick(t, []int{0, 0, 200, 1000, 4000}, "start")
	for n := gen.Weighted(t, "actions", 5, 15, 20, 20, 20, 10, 10, 10); n > 0; n-- {
		at += gen.Pick(t, []int{0, 1, 5, 20, 49, 60, 150, 480, 520, 900, 4000}, "pause")
		a := c29action{At: at}
		switch gen.Weighted(t, "action", 60, 25, 15, 5, 12) {
		case 0:
			a.Do, a.Word = "type", c29word(t, "typed")
			if len(typed) > 0 && gen.Chance(t, 30, "like before") {
				w := gen.Pick(t, typed, "before")
				a.Word = gen.Pick(t, []string{w, w, " " + w, w + " ", strings.TrimSpace(w), strings.ToUpper(w), strings.ReplaceAll(w, " ", ""), strings.ReplaceAll(w, " ", "  "), w + "a", strings.TrimSuffix(w, "!")}, "like")
			}
			typed = append(typed, a.Word)
			if lastTyped != "" && gen.Chance(t, 25, "of the same length") {
				wide := gen.Chance(t, 50, "wide")
				a.Word = strings.Map(func(r rune) rune {
					if wide || r == ' ' {
						return '한'
					}
					return 'i'
				}, lastTyped)
			}
			lastTyped = a.Word
		case 1:
			a.Do, a.Lang = "select", gen.Pick(t, later, "selected")
		case 2:
			a.Do, a.N = "example", gen.Range(t, 0, 9, "n")
		case 3:
			a.Do = "shuffle"
		case 4:
			a.Do, a.N = "resize", gen.Pick(t, []int{0, 50, 100, 200, 300, 500, 1000}, "capacity")
		}
		x.Actions = append(x.Actions, a)
	}
	return x
}

// jsTrim is String.prototype.trim of the letters used here.
func jsTrim(s string) string { return strings.Trim(s, "\t\n\v\f\r \u00a0\u3000\ufeff") }

// want is the result of an input, and whether there is one.
func (x c29case) want(lang, word string) (string, bool) {
	s, ok := x.Later[lang]
	if !ok || jsTrim(word) == "" || strings.Contains(word, "!") {
		return "", false
	}
	for _, m := range s.Lang.Translit {
		word = m + "{" + word + "}"
	}
	return lang + "(" + word + ")", true
}

var theWeb *node

func checkC29(c *fw.Ctx, x c29case) error {
	if theWeb == nil || theWeb.broken {
		n, err := startDriver(c.Env, "web", webDriver, c.Env.WebDir)
		if err != nil {
			return err
		}
		theWeb = n
	}
	var a c29log
	if err := theWeb.ask(x, &a); err != nil {
		return err
	}
	if len(a.Errors) > 0 {
		return fmt.Errorf("the page breaks: %s", strings.Join(a.Errors, "; "))
	}
	if !a.Quiet {
		return fmt.Errorf("the page never comes to rest")
	}
	if len(a.Log) == 0 {
		return fmt.Errorf("nothing is shown")
	}

	// The workers.
	count := map[string]int{}
	for _, s := range a.Started {
		count[s]++
	}
	wants := map[string]int{"hangulize.wasm": 1}
	for _, m := range x.Translits {
		m, _, _ = strings.Cut(m, "[")
		wants[m+".translit.wasm"] = 1
	}
	if fmt.Sprint(count) != fmt.Sprint(wants) {
		return fmt.Errorf("programs started: %v, want %v", count, wants)
	}
	sort.Strings(a.Translits)
	methods := append([]string{}, x.Translits...)
	sort.Strings(methods)
	if fmt.Sprint(a.Translits) != fmt.Sprint(methods) {
		return fmt.Errorf("Translits in use: %q, want %q", a.Translits, methods)
	}

	// The history: inputs in order, and the results shown meanwhile.
	type input struct{ lang, word string }
	var (
		inputs  []input
		shown   = 0  // the input whose result was shown last
		pending = -1 // since when another result is shown
		blankAt = 0
		results = 0
	)
	for i, p := range a.Log {
		in := input{p.Lang, p.Word}
		if len(inputs) == 0 || inputs[len(inputs)-1] != in {
			inputs = append(inputs, in)
		}
		blank := jsTrim(p.Word) == ""
		if blank {
			if p.Result != nil || p.Loading || p.ResultLoading {
				return fmt.Errorf("at %d: %q is shown for the blank word %q, loading: %v", p.T, str(p.Result), p.Word, p.Loading)
			}
			if i == 0 || jsTrim(a.Log[i-1].Word) != "" {
				blankAt = p.T
			}
			pending = -1
			continue
		}
		if i > 0 && jsTrim(a.Log[i-1].Word) == "" && p.T-blankAt > 50 {
			shown = len(inputs) - 1 // nothing from before may come back
		}
		if x.Specs[p.Lang].Lang.ID == "" && x.Later[p.Lang].Lang.ID == "" {
			return fmt.Errorf("at %d: the language is %q", p.T, p.Lang)
		}
		if p.Result == nil {
			return fmt.Errorf("at %d: nothing is shown for %q in %q", p.T, p.Word, p.Lang)
		}
		if p.Loading != p.ResultLoading {
			return fmt.Errorf("at %d: loading is %v in the prompt but %v in the result", p.T, p.Loading, p.ResultLoading)
		}
		if *p.Result == "…" {
			if !p.Loading {
				return fmt.Errorf("at %d: … is shown but not as loading", p.T)
			}
			continue
		}
		k := shown
		for ; k < len(inputs); k++ {
			if w, ok := x.want(inputs[k].lang, inputs[k].word); ok && w == *p.Result {
				break
			}
		}
		if k == len(inputs) {
			return fmt.Errorf("at %d: %q is shown, which is not the result of any input since the last result or blank: %q", p.T, *p.Result, inputs[shown:])
		}
		if k > shown || results == 0 {
			results++
			pending = -1 // the time of the next one starts at the earliest now
		}
		shown = k
		if w, ok := x.want(p.Lang, p.Word); !ok || w == *p.Result {
			pending = -1
		} else if pending < 0 {
			pending = p.T
		}
		if pending >= 0 && i+1 < len(a.Log) && a.Log[i+1].T > p.T && !p.Loading && a.Log[i+1].T-pending > 600 {
			return fmt.Errorf("from %d to %d: the late result of %q is not told to be loading", p.T, a.Log[i+1].T, p.Word)
		}
	}

	// Each action is followed.
	last := a.Log[len(a.Log)-1]
	for _, d := range a.Done {
		if d.Word == nil || d.Lang == nil {
			continue
		}
		followed := false
		for i, p := range a.Log {
			if (i+1 == len(a.Log) || a.Log[i+1].T >= d.T) && p.Word == *d.Word && p.Lang == *d.Lang {
				followed = true
				break
			}
		}
		if !followed {
			return fmt.Errorf("%s of %q in %q at %d is not followed", d.Do, *d.Word, *d.Lang, d.T)
		}
	}
	for i := len(a.Done) - 1; i >= 0; i-- {
		if d := a.Done[i]; d.Word != nil && d.Lang != nil {
			if last.Word != *d.Word || last.Lang != *d.Lang {
				return fmt.Errorf("the input is %q in %q after %q in %q", last.Word, last.Lang, *d.Word, *d.Lang)
			}
			break
		}
	}

	// The end.
	w, ok := x.want(last.Lang, last.Word)
	switch {
	case ok && (last.Result == nil || *last.Result != w || last.Loading):
		return fmt.Errorf("%q is shown at the end for %q in %q (loading: %v), want %q", str(last.Result), last.Word, last.Lang, last.Loading, w)
	case !ok && last.Result != nil && *last.Result != "…":
		return fmt.Errorf("%q is shown at the end for %q in %q", *last.Result, last.Word, last.Lang)
	}
	if ok {
		n := 0
		for _, r := range strings.TrimSpace(w) {
			n += x.Letter
			if r >= utf8.RuneSelf {
				n += x.Letter // as the stand-in of the layout
			}
		}
		capacity := x.Capacity
		for _, a := range x.Actions {
			if a.Do == "resize" && a.N > 0 {
				capacity = a.N
			}
		}
		size := 5
		for size > 1 && size*n > capacity {
			size--
		}
		if want := fmt.Sprintf("size-%d", size); last.Size != want {
			return fmt.Errorf("the result %q is shown in %s, want %s: a letter takes %d of %d", w, last.Size, want, x.Letter, capacity)
		}
	}
	if last.Version != "v"+x.Version {
		return fmt.Errorf("the version is %q, want %q", last.Version, "v"+x.Version)
	}
	title := "한글라이즈"
	if last.Word != "" {
		title += ": " + last.Word
	}
	if a.Title != title {
		return fmt.Errorf("the title is %q, want %q", a.Title, title)
	}
	v, err := url.ParseQuery(strings.TrimPrefix(a.Search, "?"))
	if err != nil || v.Get("lang") != last.Lang || v.Get("word") != last.Word {
		return fmt.Errorf("the address %q does not have %q and %q", a.Search, last.Lang, last.Word)
	}
	// The languages, in the order of their names.
	var want [][2]string
	for id, s := range x.Later {
		want = append(want, [2]string{id, s.Lang.Korean})
	}
	sort.Slice(want, func(i, j int) bool { return want[i][1] < want[j][1] })
	if fmt.Sprint(last.Options) != fmt.Sprint(want) {
		return fmt.Errorf("the languages are %q, want %q", last.Options, want)
	}
	left := map[string]int{}
	for _, e := range x.Later[last.Lang].Test {
		left[e.Word]++
	}
	n := len(x.Later[last.Lang].Test)
	if n > 5 {
		n = 5
	}
	if len(last.Examples) != n {
		return fmt.Errorf("%d examples are shown, want %d", len(last.Examples), n)
	}
	for _, e := range last.Examples {
		if left[e]--; left[e] < 0 {
			return fmt.Errorf("the example %q is shown too often: %q", e, last.Examples)
		}
	}
	c.NonTrivialIf(results >= 2)
	c.LabelIf(results > 0, "result shown")
	c.LabelIf(len(inputs) > results+1, "an input overtaken")
	return nil
}

func str(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

//go:embed web_driver.js
var webDriver []byte

func init() {
	fw.WebDriver = webDriver
	fw.Reg("C29",
		"The page, its hook and its workers (bundled from /repo/web with stand-ins for React, Comlink and the component library) run in Node with a virtual clock. A case is the languages, the address, delays of messages, downloads, compilations, jobs, renders and effects, and up to 7 actions (typing, choosing a language or example, resizing) at given times. The WebAssembly programs are stand-ins whose result tells the language, the word and the Translits. Checked: no error, each program started once, all Translits in use; every result shown is that of an input, never older than one shown before or than a blank; late results are told to be loading; at rest, the result, its size, the address, title, version, languages and examples are right. Non-trivial: at least 2 results shown.",
		genC29, checkC29,
		func(p *fw.Prop) { p.NeedWeb = true; p.Batch = 20; p.Quick = 20 * time.Second })
}
