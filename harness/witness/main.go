// Command witness searches words which tell the bundled specs from near
// copies of them: copies where a rule is missing, has a letter less, takes any
// letter for one, has another order, or where a value of a var or a source of
// the normalization is missing. It writes them to model/data/witness.json, where C03 takes them
// from as its fixed cases.
//
//	go run ./witness SECONDS [LANG...]
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/model"
)

// mutant is a near copy of a spec.
type mutant struct {
	desc       string
	transcribe bool
	// rules replaces rules by index; nil removes one.
	rules map[int]*model.Rule
	swap  int // swaps the rule with the next one unless -1
	spec  *model.Spec
	dead  bool
	tries int // how many words did not tell it in vain
}

func main() {
	secs, err := strconv.Atoi(os.Args[1])
	if err != nil {
		panic(err)
	}
	langs := os.Args[2:]
	if len(langs) == 0 {
		langs = model.Langs()
	}
	path := "model/data/witness.json"
	out := map[string][]string{}
	if raw, err := os.ReadFile(path); err == nil {
		if err := json.Unmarshal(raw, &out); err != nil {
			panic(err)
		}
	}

	var (
		wg sync.WaitGroup
		mu sync.Mutex
	)
	sem := make(chan bool, runtime.NumCPU())
	for _, l := range langs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			mu.Lock()
			old := out[l]
			mu.Unlock()
			ws := search(l, old, time.Duration(secs)*time.Second)
			mu.Lock()
			defer mu.Unlock()
			out[l] = ws
			var b strings.Builder
			b.WriteString("{\n")
			var ls []string
			for l := range out {
				ls = append(ls, l)
			}
			slices.Sort(ls)
			for i, l := range ls {
				raw, err := json.Marshal(out[l])
				if err != nil {
					panic(err)
				}
				fmt.Fprintf(&b, "%q: %s", l, raw)
				if i < len(ls)-1 {
					b.WriteString(",")
				}
				b.WriteString("\n")
			}
			b.WriteString("}\n")
			if err := os.WriteFile(path, []byte(b.String()), 0o644); err != nil {
				panic(err)
			}
		}()
	}
	wg.Wait()
}

func compile(s *model.Spec, from, to string, vars map[string][]string) (r *model.Rule, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	p, err := model.CompilePat(from, s.Macros, vars)
	if err != nil {
		return nil, false
	}
	return &model.Rule{From: from, To: to, P: p, R: model.CompileRPat(to, s.Macros, vars)}, true
}

// shorter lists a string with a letter, a group or an alternative less.
func shorter(s string) []string {
	var out []string
	rs := []rune(s)
	for i := range rs {
		out = append(out, string(rs[:i])+string(rs[i+1:]))
	}
	for _, br := range []string{"{}", "()", "[]", "<>"} {
		for i, r := range rs {
			if r != rune(br[0]) {
				continue
			}
			depth := 0
			for j := i; j < len(rs); j++ {
				switch rs[j] {
				case rune(br[0]):
					depth++
				case rune(br[1]):
					depth--
				}
				if depth == 0 {
					out = append(out, string(rs[:i])+string(rs[j+1:]))
					break
				}
			}
		}
	}
	for i := 0; i <= len(rs); i++ {
		if i > 0 && !strings.ContainsRune("|({", rs[i-1]) {
			continue
		}
		for j := i; j <= len(rs); j++ {
			if j < len(rs) && rs[j] == '|' {
				out = append(out, string(rs[:i])+string(rs[j+1:]))
				break
			}
			if j == len(rs) || strings.ContainsRune(")}", rs[j]) {
				if i > 0 && rs[i-1] == '|' {
					out = append(out, string(rs[:i-1])+string(rs[j:]))
				}
				break
			}
		}
	}
	slices.Sort(out)
	return slices.Compact(out)
}

// wider lists a pattern with any letter for one.
func wider(s string) []string {
	var out []string
	rs := []rune(s)
	for i, r := range rs {
		switch {
		case r == '<':
			if j := slices.Index(rs[i:], '>'); j > 0 {
				out = append(out, string(rs[:i])+"."+string(rs[i+j+1:]))
			}
		case !strings.ContainsRune(`{}()[]|^$~?*+.\>`, r):
			out = append(out, string(rs[:i])+"."+string(rs[i+1:]))
		}
	}
	return out
}

func mutants(s *model.Spec) []*mutant {
	var out []*mutant
	for _, transcribe := range []bool{false, true} {
		rules := s.Rewrite
		if transcribe {
			rules = s.Transcribe
		}
		for i, r := range rules {
			add := func(desc string, m *model.Rule) {
				out = append(out, &mutant{fmt.Sprintf("%v %d %q -> %q: %s", transcribe, i, r.From, r.To, desc), transcribe, map[int]*model.Rule{i: m}, -1, nil, false, 0})
			}
			add("drop", nil)
			if i+1 < len(rules) {
				out = append(out, &mutant{fmt.Sprintf("%v %d swap", transcribe, i), transcribe, nil, i, nil, false, 0})
			}
			for _, f := range shorter(r.From) {
				if m, ok := compile(s, f, r.To, s.Vars); ok {
					add("from "+f, m)
				}
			}
			for _, f := range wider(r.From) {
				if m, ok := compile(s, f, r.To, s.Vars); ok {
					add("from "+f, m)
				}
			}
			// The same letter less on both sides.
			f, t := []rune(r.From), []rune(r.To)
			for _, both := range []func() (rune, rune, string, string){
				func() (rune, rune, string, string) { return f[0], t[0], string(f[1:]), string(t[1:]) },
				func() (rune, rune, string, string) {
					return f[len(f)-1], t[len(t)-1], string(f[:len(f)-1]), string(t[:len(t)-1])
				},
			} {
				if len(f) < 2 || len(t) < 1 {
					continue
				}
				if a, b, from, to := both(); a == b {
					if m, ok := compile(s, from, to, s.Vars); ok {
						add("both "+from+" -> "+to, m)
					}
				}
			}
			for _, f := range shorter(r.To) {
				if m, ok := compile(s, r.From, f, s.Vars); ok {
					add("to "+f, m)
				}
			}
			for v, vals := range s.Vars {
				if !strings.Contains(r.From, "<"+v+">") {
					continue
				}
				for k := range vals {
					vars := map[string][]string{}
					for a, b := range s.Vars {
						vars[a] = b
					}
					vars[v] = append(slices.Clone(vals[:k]), vals[k+1:]...)
					if m, ok := compile(s, r.From, r.To, vars); ok && len(vals) > 1 {
						add("var "+v+" without "+vals[k], m)
					}
					vars = map[string][]string{}
					for a, b := range s.Vars {
						vars[a] = b
					}
					vars[v] = slices.Clone(vals)
					vars[v][k] += "*"
					if m, ok := compile(s, r.From, r.To, vars); ok && strings.Contains(r.To, "<"+v+">") {
						add("var "+v+" with "+vars[v][k], m)
					}
				}
			}
		}
	}
	for to, froms := range s.Normalize {
		for k := range froms {
			n, err := model.ParseBundled(s.ID)
			if err != nil {
				panic(err)
			}
			n.Normalize[to] = append(slices.Clone(froms[:k]), froms[k+1:]...)
			n.Renormalize()
			out = append(out, &mutant{desc: "normalize " + froms[k], spec: n, swap: -1})
		}
	}
	return out
}

func (m *mutant) of(s *model.Spec) *model.Spec {
	if m.spec != nil {
		return m.spec
	}
	c := s.Clone()
	rules := &c.Rewrite
	if m.transcribe {
		rules = &c.Transcribe
	}
	var rs []*model.Rule
	for i, r := range *rules {
		if n, ok := m.rules[i]; ok {
			r = n
		}
		if r == nil {
			r = &model.Rule{} // keeps the place
		}
		rs = append(rs, r)
	}
	if m.swap >= 0 {
		rs[m.swap], rs[m.swap+1] = rs[m.swap+1], rs[m.swap]
	}
	rs = slices.DeleteFunc(rs, func(r *model.Rule) bool { return r.P == nil })
	*rules = rs
	m.spec = c
	return c
}

func search(lang string, old []string, limit time.Duration) []string {
	s := model.Bundled(lang)
	d := gen.DataOf(s)
	var ts map[string]hangulize.Translit
	if len(s.Translit) > 0 {
		spec, _ := hangulize.LoadSpec(lang)
		h := hangulize.New(spec)
		translit.Install(h)
		ts = h.Translits()
	}
	ms := mutants(s)
	total := len(ms)
	byRule := map[bool]map[int][]*mutant{false: {}, true: {}}
	var whole []*mutant
	for _, m := range ms {
		if m.spec != nil {
			whole = append(whole, m)
			continue
		}
		if m.swap >= 0 {
			byRule[m.transcribe][m.swap] = append(byRule[m.transcribe][m.swap], m)
		}
		for i := range m.rules {
			byRule[m.transcribe][i] = append(byRule[m.transcribe][i], m)
		}
	}
	killed, given := 0, 0
	try := func(w string) (kills int) {
		tw := w
		for _, name := range s.Translit {
			var err error
			if tw, err = ts[name].Transliterate(tw); err != nil {
				return 0
			}
		}
		hit := map[*mutant]bool{}
		st, err := s.RunWatched(tw, func(transcribe bool, ri int, word string) {
			rules := s.Rewrite
			if transcribe {
				rules = s.Transcribe
			}
			var rs []model.Repl
			done := false
			for _, m := range byRule[transcribe][ri] {
				if m.dead || hit[m] {
					continue
				}
				if !done {
					rs, _ = model.Replacements(rules[ri].P, rules[ri].R, word, -1)
					done = true
				}
				if m.swap >= 0 {
					if len(rs) > 0 {
						hit[m] = true
					} else if n, _ := model.Replacements(rules[ri+1].P, rules[ri+1].R, word, -1); len(n) > 0 {
						hit[m] = true
					}
					continue
				}
				if m.rules[ri] == nil {
					if len(rs) > 0 {
						hit[m] = true
					}
					continue
				}
				n, _ := model.Replacements(m.rules[ri].P, m.rules[ri].R, word, -1)
				if !slices.Equal(n, rs) {
					hit[m] = true
				}
			}
		})
		if err != nil {
			return 0
		}
		for _, m := range whole {
			if !m.dead {
				hit[m] = true
			}
		}
		for m := range hit {
			got, err := m.of(s).Run(tw)
			if err != nil || got.Result != st.Result {
				m.dead = true
				m.spec = nil
				kills++
				continue
			}
			// Most of the mutants which do something but keep the result do
			// so with every word.
			m.tries++
			if m.swap >= 0 && m.tries > 40 || m.tries > 300 {
				m.dead, m.spec = true, nil
				given++
			}
		}
		killed += kills
		return kills
	}
	for _, ex := range d.Examples {
		try(ex)
	}
	byEx := killed
	var out []string
	for _, w := range old {
		if try(w) > 0 {
			out = append(out, w)
		}
	}
	start := time.Now()
	n := 0
	word := rapid.Custom(func(t *rapid.T) string {
		var alive []*mutant
		for _, m := range ms {
			if !m.dead && m.swap < 0 && len(m.rules) > 0 {
				alive = append(alive, m)
			}
		}
		if len(alive) == 0 || gen.Chance(t, 15, "any") {
			w := gen.Word(t, d)
			if len(w) > 60 {
				w = w[:0]
			}
			return w
		}
		m := gen.Pick(t, alive, "mutant")
		rules := s.Rewrite
		if m.transcribe {
			rules = s.Transcribe
		}
		var b strings.Builder
		for i, r := range m.rules {
			if r == nil || gen.Chance(t, 50, "orig") {
				r = rules[i]
			}
			w := gen.PatWord(t, r.P, func(t *rapid.T) rune { return gen.Pick(t, d.Alphabet, "l") })
			w = strings.NewReplacer("{", "", "}", "").Replace(w)
			b.WriteString(w)
		}
		w := b.String()
		if gen.Chance(t, 40, "into") {
			ex := []rune(gen.Pick(t, d.Examples, "ex"))
			i := gen.Int(t, len(ex)+1, "at")
			w = string(ex[:i]) + w + string(ex[i:])
		}
		return w
	})
	for time.Since(start) < limit && killed+given < total {
		n++
		w := word.Example(n)
		if try(w) > 0 {
			out = append(out, w)
		}
	}
	fmt.Printf("%s: %d mutants, %d by the examples, %d killed, %d given up, by %d of %d words\n", lang, total, byEx, killed, given, len(out), n)
	if os.Getenv("ALIVE") != "" {
		for _, m := range ms {
			if !m.dead {
				fmt.Println("  alive", m.desc)
			}
		}
	}
	slices.Sort(out)
	return out
}
