package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/hangulize/hangulize"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gen"
)

type c30query struct {
	How   string `json:"how"`
	Query string `json:"query"`
	Lang  string `json:"lang"` // to be found
}

type c30case struct {
	c29case
	Queries []c30query `json:"-"`
	Texts   []string   `json:"queries"`
	Hows    []string   `json:"hows"`
	Wants   []string   `json:"wants"`
}

type c30log struct {
	c29log
	Menu  []map[string]any `json:"menu"`
	Found [][]struct {
		Value string `json:"value"`
		Text  string `json:"text"`
	} `json:"found"`
}

const (
	c30cho  = "ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"
	c30jung = "ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ"
)

// c30initials is the first letters of the syllables.
func c30initials(s string) string {
	var b strings.Builder
	for _, r := range s {
		if n := int(r) - 0xAC00; n >= 0 && n < 11172 {
			r = []rune(c30cho)[n/588]
		}
		b.WriteRune(r)
	}
	return b.String()
}

// c30part is what an input method shows when the syllable is typed in part.
func c30part(r rune, n int) string {
	i := int(r) - 0xAC00
	if i < 0 || i >= 11172 {
		return string(r)
	}
	cho, jung := []rune(c30cho)[i/588], i%588/28
	half := map[rune]rune{'ㅘ': 'ㅗ', 'ㅙ': 'ㅗ', 'ㅚ': 'ㅗ', 'ㅝ': 'ㅜ', 'ㅞ': 'ㅜ', 'ㅟ': 'ㅜ', 'ㅢ': 'ㅡ'}
	switch n {
	case 0:
		return string(cho)
	case 1:
		if h, ok := half[[]rune(c30jung)[jung]]; ok {
			for k, v := range []rune(c30jung) {
				if v == h {
					jung = k
				}
			}
		}
		return string(rune(0xAC00 + i/588*588 + jung*28))
	case 2:
		return string(rune(0xAC00 + i/28*28))
	}
	return string(r)
}

var c30more = []c29lang{
	{ID: "mix", Code2: "", Code3: "mix", English: "Mixed", Korean: "가나다어", Script: "Latin"},
	{ID: "zxx-2", Code2: "zx", Code3: "zxx", English: "Zebra (2nd scheme)", Korean: "쾌활 꿩말(제2안)", Script: "Latin"},
	{ID: "it2", Code2: "it", Code3: "ita", English: "Italian", Korean: "이탈리아어", Script: "Latin"},
	{ID: "mix.a", Code2: "mx", Code3: "mix", English: "Mixed (again)", Korean: "가나다어", Script: "Latin"},
	{ID: "qaa", Code2: "qa", Code3: "qaa", English: "Reserved", Korean: "값읽기어", Script: "Latin"},
}

func genC30(t *rapid.T) c30case {
	var x c30case
	x.Specs, x.Later, x.Delays = map[string]c29spec{}, map[string]c29spec{}, map[string][]int{}
	x.Version, x.Translits = "1", []string{}
	pool := append([]c29lang{}, c30more...)
	for _, id := range hangulize.ListLangs() {
		s, err := hangulize.LoadSpec(id)
		if err != nil {
			t.Fatalf("no spec: %s", err)
		}
		l := s.Lang
		pool = append(pool, c29lang{ID: l.ID, Code2: l.Codes[0], Code3: l.Codes[1], English: l.English, Korean: l.Korean, Script: l.Script})
	}
	if n := gen.Pick(t, []int{0, 0, 0, 3, 30, 60}, "dialects"); n > 0 {
		// Many languages which are alike.
		some := gen.Pick(t, pool, "of")
		for i := 1; i <= n; i++ {
			l := some
			l.ID = fmt.Sprintf("%s-%d", some.ID, i)
			if gen.Chance(t, 80, "a name of its own") {
				l.English, l.Korean = fmt.Sprintf("%s %c", l.English, 'A'+i), fmt.Sprintf("%s %c", l.Korean, '가'+i*31)
			}
			pool = append(pool, l)
		}
	}
	share := gen.Pick(t, []int{5, 30, 100}, "share")
	for len(x.Later) == 0 {
		for _, l := range pool {
			if !gen.Chance(t, share, l.ID) {
				continue
			}
			l.Translit = []string{}
			x.Later[l.ID] = c29spec{Lang: l, Test: []c29example{}}
		}
		share = 100
	}
	for id, s := range x.Later {
		x.Specs[id] = s
	}
	var later []string
	for id := range x.Later {
		later = append(later, id)
	}
	sort.Strings(later)
	if gen.Chance(t, 50, "newer specs") {
		for n := gen.Range(t, 1, 4, "new"); n > 0; n-- {
			id := gen.Pick(t, later, "new")
			if gen.Chance(t, 50, "renamed") {
				s := x.Specs[id]
				s.Lang.Korean, s.Lang.English, s.Lang.Code2 = "옛"+s.Lang.Korean, "Old "+s.Lang.English, ""
				x.Specs[id] = s
			} else if len(x.Specs) > 1 {
				delete(x.Specs, id)
			}
		}
	}
	if len(x.Specs) == 0 {
		x.Specs[later[0]] = x.Later[later[0]]
	}
	var known []string
	for id := range x.Specs {
		known = append(known, id)
	}
	sort.Strings(known)
	x.Search = "?lang=" + gen.Pick(t, known, "lang") + "&word=a"
	x.Random = []int{1}
	slow := gen.Pick(t, []int{0, 40, 300}, "slow")
	for _, kind := range []string{"message", "worker", "fetch", "compile", "job", "render", "effect"} {
		x.Delays[kind] = []int{gen.Pick(t, []int{0, 0, 1, 5, slow}, kind), gen.Pick(t, []int{0, slow}, kind)}
	}
	x.Letter, x.Capacity = 1, 100

	query := func() c30query {
		l := x.Later[gen.Pick(t, later, "wanted")].Lang
		q := c30query{Lang: l.ID}
		prefix := func(s string) string {
			r := []rune(s)
			return string(r[:gen.Range(t, 1, len(r), "length")])
		}
		switch gen.Weighted(t, "how", 1, 2, 3, 3, 4, 3, 1) {
		case 0:
			if q.How, q.Query = "code2", l.Code2; q.Query == "" {
				q.How, q.Query = "code3", l.Code3
			}
		case 1:
			q.How, q.Query = "code3", prefix(l.Code3)
		case 2:
			q.How, q.Query = "English", prefix(l.English)
		case 3:
			q.How, q.Query = "Korean", prefix(l.Korean)
		case 4:
			r := []rune(l.Korean)
			n := gen.Range(t, 0, len(r)-1, "whole syllables")
			q.How, q.Query = "typing", string(r[:n])+c30part(r[n], gen.Range(t, 0, 2, "part"))
		case 5:
			q.How, q.Query = "initials", prefix(c30initials(l.Korean))
		case 6:
			words := strings.Fields(l.Korean)
			q.How, q.Query = "Korean word", gen.Pick(t, words, "word")
		}
		if gen.Chance(t, 15, "another case") {
			q.Query = gen.Pick(t, []string{strings.ToUpper(q.Query), strings.ToLower(q.Query)}, "case")
		}
		// Leading and trailing spaces are no part of a search.
		q.Query = strings.TrimSpace(q.Query)
		return q
	}
	at := 0
	for n := gen.Weighted(t, "actions", 4, 2, 2, 1); n > 0; n-- {
		at += gen.Pick(t, []int{0, 1, 20, 300, 900}, "pause")
		a := c29action{At: at, Do: "find", Word: query().Query}
		if gen.Chance(t, 40, "select") {
			a = c29action{At: at, Do: "select", Lang: gen.Pick(t, later, "selected")}
		}
		x.Actions = append(x.Actions, a)
	}
	for n := gen.Range(t, 5, 20, "queries"); n > 0; n-- {
		q := query()
		x.Hows, x.Texts, x.Wants = append(x.Hows, q.How), append(x.Texts, q.Query), append(x.Wants, q.Lang)
	}
	return x
}

func checkC30(c *fw.Ctx, x c30case) error {
	if theWeb == nil || theWeb.broken {
		n, err := startDriver(c.Env, "web", webDriver, c.Env.WebDir)
		if err != nil {
			return err
		}
		theWeb = n
	}
	flags := map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.Env.Repo, "web/src/components/flags.json"))
	if err == nil {
		err = json.Unmarshal(b, &flags)
	}
	if err != nil {
		return err
	}
	var a c30log
	if err := theWeb.ask(x, &a); err != nil {
		return err
	}
	if len(a.Errors) > 0 {
		return fmt.Errorf("the page breaks: %s", strings.Join(a.Errors, "; "))
	}
	if !a.Quiet || len(a.Log) == 0 {
		return fmt.Errorf("the page never comes to rest")
	}
	lang := strings.TrimSuffix(strings.TrimPrefix(x.Search, "?lang="), "&word=a")
	for _, d := range a.Done {
		if d.Do == "select" && d.Lang != nil {
			lang = *d.Lang
		}
	}
	last := a.Log[len(a.Log)-1]
	if last.Lang != lang || last.Word != "a" {
		return fmt.Errorf("%q in %q is shown, want \"a\" in %q", last.Word, last.Lang, lang)
	}

	var ids []string
	for id := range x.Later {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool {
		a, b := x.Later[ids[i]].Lang.Korean, x.Later[ids[j]].Lang.Korean
		return a < b || a == b && ids[i] < ids[j]
	})
	var menu []string
	for _, o := range a.Menu {
		id, _ := o["value"].(string)
		menu = append(menu, id)
		s, ok := x.Later[id]
		if !ok {
			continue
		}
		if o["text"] != s.Lang.Korean {
			return fmt.Errorf("%s is named %q, want %q", id, o["text"], s.Lang.Korean)
		}
		if f, _ := o["flag"].(string); f != flags[id] {
			return fmt.Errorf("the flag of %s is %q, want %q", id, f, flags[id])
		}
	}
	// (Languages of the same name are in any order.)
	byName := func(i, j int) bool { return x.Later[menu[i]].Lang.Korean < x.Later[menu[j]].Lang.Korean }
	if !sort.SliceIsSorted(menu, byName) {
		return fmt.Errorf("the menu is not in the order of names: %q", menu)
	}
	sort.Slice(menu, func(i, j int) bool { return byName(i, j) || !byName(j, i) && menu[i] < menu[j] })
	if fmt.Sprint(menu) != fmt.Sprint(ids) {
		return fmt.Errorf("the menu has %q, want %q", menu, ids)
	}

	some := false
	for i, q := range x.Texts {
		seen := map[string]bool{}
		for _, o := range a.Found[i] {
			s, ok := x.Later[o.Value]
			if !ok || seen[o.Value] || o.Text != s.Lang.Korean {
				return fmt.Errorf("a search of %q finds %q (%s), which is no language of the menu, or twice", q, o.Value, o.Text)
			}
			seen[o.Value] = true
		}
		if !seen[x.Wants[i]] {
			return fmt.Errorf("a search of %q (%s) finds %v, not %s: %s, %s", q, x.Hows[i], a.Found[i], x.Wants[i], x.Later[x.Wants[i]].Lang.English, x.Later[x.Wants[i]].Lang.Korean)
		}
		if len(seen) < len(x.Later) {
			some = true
		}
		c.LabelIf(true, x.Hows[i])
	}
	c.NonTrivialIf(some && len(x.Later) > 1)
	return nil
}

func init() {
	fw.Reg("C30",
		"The page runs as in C29, with up to all bundled languages and some made-up ones, other specs in the manifest than in the WebAssembly build (missing or renamed languages), delays, searches and choices meanwhile. At rest: the menu has every language of the build once, in the order of Korean names, with its flag, and up to 20 searches each find the language whose code, English name, Korean name (also with the last syllable half typed, as an input method shows it) or initials they begin. Fuse is a stand-in which finds the items having the query in a key; hangul-js is a stand-in which takes syllables apart as the library does. Non-trivial: some search leaves out some language.",
		genC30, checkC30,
		func(p *fw.Prop) { p.NeedWeb = true; p.Batch = 20; p.Quick = 20 * time.Second })
}
