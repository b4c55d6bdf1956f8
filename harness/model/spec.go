package model

import (
	"embed"
	"fmt"
	"io/fs"
	"sort"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/text/unicode/norm"
)

//go:embed specs/*.hsl
var specFS embed.FS

// Spec is a transcription specification.
type Spec struct {
	ID, English, Korean, Script, Stage string
	Codes                              [2]string
	Translit, Authors                  []string
	Macros                             map[string]string
	Vars                               map[string][]string
	Normalize                          map[string][]string
	Rewrite, Transcribe                []*Rule
	Test                               [][2]string
	Source                             string

	puncts map[rune]bool
	keep   map[rune]bool
	froms  []normPair
	norms  map[rune]rune
}

type normPair struct{ from, to string }

// Rule is a rewriting rule.
type Rule struct {
	From, To string
	P        *Pat
	R        *RPat
}

var (
	bundled   = map[string]*Spec{}
	bundledMu sync.Mutex
)

// Langs lists the reference specs.
func Langs() []string {
	ents, err := fs.ReadDir(specFS, "specs")
	if err != nil {
		panic(err)
	}
	var out []string
	for _, e := range ents {
		out = append(out, strings.TrimSuffix(e.Name(), ".hsl"))
	}
	sort.Strings(out)
	return out
}

// Source is the reference source of a bundled spec.
func Source(lang string) string {
	raw, err := specFS.ReadFile("specs/" + lang + ".hsl")
	if err != nil {
		panic(err)
	}
	return string(raw)
}

// Bundled loads a reference spec.
func Bundled(lang string) *Spec {
	bundledMu.Lock()
	defer bundledMu.Unlock()
	if s := bundled[lang]; s != nil {
		return s
	}
	s, err := ParseBundled(lang)
	if err != nil {
		panic(fmt.Errorf("%s: %w", lang, err))
	}
	bundled[lang] = s
	return s
}

// ParseBundled parses a reference spec.
func ParseBundled(lang string) (*Spec, error) {
	src := Source(lang)
	secs, err := ParseHSL(src)
	if err != nil {
		return nil, err
	}
	s := &Spec{
		Source:    src,
		Macros:    map[string]string{},
		Vars:      map[string][]string{},
		Normalize: map[string][]string{},
	}
	for _, sec := range secs {
		for _, p := range sec.Pairs {
			one := ""
			if len(p.R) > 0 {
				one = p.R[0]
			}
			switch sec.Name {
			case "lang":
				switch p.L {
				case "id":
					s.ID = one
				case "codes":
					copy(s.Codes[:], p.R)
				case "english":
					s.English = one
				case "korean":
					s.Korean = one
				case "script":
					s.Script = one
				case "translit":
					s.Translit = p.R
				}
			case "config":
				switch p.L {
				case "author", "authors":
					s.Authors = append(s.Authors, p.R...)
				case "stage":
					s.Stage = one
				}
			case "macros":
				s.Macros[p.L] = one
			case "vars":
				s.Vars[p.L] = p.R
			case "normalize":
				s.Normalize[p.L] = p.R
			case "rewrite":
				s.Rewrite = append(s.Rewrite, &Rule{From: p.L, To: one})
			case "transcribe":
				s.Transcribe = append(s.Transcribe, &Rule{From: p.L, To: one})
			case "test":
				s.Test = append(s.Test, [2]string{p.L, one})
			default:
				return nil, fmt.Errorf("unknown section %s", sec.Name)
			}
		}
	}
	return s, s.Prepare()
}

// Prepare compiles the rules.
func (s *Spec) Prepare() error {
	rl := map[rune]bool{}
	s.puncts = map[rune]bool{}
	collect := func(p *Pat) {
		for r := range p.letters {
			if unicode.IsPunct(r) && !rl[r] {
				s.puncts[r] = true
			}
		}
	}
	for _, r := range s.Rewrite {
		var err error
		if r.P, err = CompilePat(r.From, s.Macros, s.Vars); err != nil {
			return fmt.Errorf("%q: %w", r.From, err)
		}
		r.R = CompileRPat(r.To, s.Macros, s.Vars)
		for _, l := range CollectRLetters(r.To) {
			rl[l] = true
		}
		collect(r.P)
	}
	for _, r := range s.Transcribe {
		var err error
		if r.P, err = CompilePat(r.From, s.Macros, s.Vars); err != nil {
			return fmt.Errorf("%q: %w", r.From, err)
		}
		r.R = CompileRPat(r.To, s.Macros, s.Vars)
		collect(r.P)
	}
	s.keep = map[rune]bool{}
	for to, froms := range s.Normalize {
		for _, r := range to {
			s.keep[r] = true
		}
		for _, f := range froms {
			s.froms = append(s.froms, normPair{f, to})
		}
	}
	sort.Slice(s.froms, func(i, j int) bool {
		a, b := s.froms[i], s.froms[j]
		if len(a.from) != len(b.from) {
			return len(a.from) > len(b.from)
		}
		if a.from != b.from {
			return a.from < b.from
		}
		return a.to < b.to
	})
	s.norms = map[rune]rune{}
	return nil
}

// InScript tests if a letter belongs to the script of the spec.
func (s *Spec) InScript(r rune) bool { return InScript(s.Script, r) }

// InScript tests if a letter belongs to a script.
func InScript(script string, r rune) bool {
	switch script {
	case "", "Latn":
		return unicode.Is(unicode.Latin, r)
	case "Cyrl":
		return unicode.Is(unicode.Cyrillic, r) || unicode.IsMark(r)
	case "Geor":
		return unicode.Is(unicode.Georgian, r)
	case "Grek":
		return unicode.Is(unicode.Greek, r)
	case "Hrkt":
		return r == 'ー' || unicode.In(r, unicode.Hiragana, unicode.Katakana)
	}
	panic("unknown script " + script)
}

var scriptLetters sync.Map

// ScriptLetters are all letters of a script.
func ScriptLetters(script string) []rune {
	if rs, ok := scriptLetters.Load(script); ok {
		return rs.([]rune)
	}
	var rs []rune
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if InScript(script, r) {
			rs = append(rs, r)
		}
	}
	scriptLetters.Store(script, rs)
	return rs
}

// NormalizeLetter converts a letter of the script to its normal form.
func NormalizeLetter(script string, r rune) rune {
	switch script {
	case "", "Latn":
		base := []rune(norm.NFD.String(string(r)))[0]
		return unicode.ToLower(base)
	case "Cyrl", "Grek":
		return unicode.ToLower(r)
	case "Hrkt":
		if 'ぁ' <= r && r <= 'ゖ' || r == 'ゝ' || r == 'ゞ' || r == 'ゟ' {
			return r + 'ァ' - 'ぁ'
		}
	}
	return r
}

// NormalizeWord is the normalization step.
func (s *Spec) NormalizeWord(w string) (custom, result string) {
	var out strings.Builder
next:
	for i := 0; i < len(w); {
		for _, p := range s.froms {
			if p.from != "" && strings.HasPrefix(w[i:], p.from) {
				out.WriteString(p.to)
				i += len(p.from)
				continue next
			}
		}
		out.WriteByte(w[i])
		i++
	}
	custom = out.String()
	out.Reset()
	for _, r := range custom {
		if !s.keep[r] && s.InScript(r) {
			n, ok := s.norms[r]
			if !ok {
				n = NormalizeLetter(s.Script, r)
				s.norms[r] = n
			}
			r = n
		}
		out.WriteRune(r)
	}
	return custom, out.String()
}

// Meaningful tests if a letter takes part in the transcription.
func (s *Spec) Meaningful(r rune) bool {
	return s.InScript(r) || s.puncts[r] || unicode.IsSpace(r)
}

// Seg is a run of letters of the same level.
type Seg struct {
	W     string
	Level int
}

func mergeSegs(segs []Seg) []Seg {
	var out []Seg
	for _, s := range segs {
		if n := len(out); n > 0 && out[n-1].Level == s.Level {
			out[n-1].W += s.W
		} else {
			out = append(out, s)
		}
	}
	return out
}

// Event is a tracing event.
type Event struct {
	Step, Word, Why string
	Rule            int // -1 if none
}

// Changes keeps the events whose words differ from the previous ones.
func Changes(es []Event) []Event {
	var out []Event
	prev := ""
	for _, e := range es {
		if e.Word != prev {
			out = append(out, e)
			prev = e.Word
		}
	}
	return out
}

// Steps are the intermediate results of the procedure.
type Steps struct {
	Input      string
	Normalized string
	Segs       []Seg
	Rewritten  []Seg
	Jamo       []Seg
	Syllables  string
	Result     string
	Events     []Event
	// Fired are the rules which replaced something.
	FiredRewrite, FiredTranscribe map[int]bool
	Unmatched                     bool // some meaningful letter was dropped
}

// cells is a byte-wise view of a segment: what the rules see, what comes out,
// and the level.
type cells struct {
	vis, out []byte
	lvl      []int
}

func newCells(w string, level int) *cells {
	c := &cells{vis: []byte(w), out: []byte(w), lvl: make([]int, len(w))}
	for i := range c.lvl {
		c.lvl[i] = level
	}
	return c
}

func (c *cells) replace(rs []Repl, level int, mask bool) {
	n := &cells{}
	cur := 0
	for _, r := range rs {
		n.vis = append(n.vis, c.vis[cur:r.Start]...)
		n.out = append(n.out, c.out[cur:r.Start]...)
		n.lvl = append(n.lvl, c.lvl[cur:r.Start]...)
		for i := 0; i < len(r.Word); i++ {
			if mask {
				n.vis = append(n.vis, 0)
			} else {
				n.vis = append(n.vis, r.Word[i])
			}
			n.out = append(n.out, r.Word[i])
			n.lvl = append(n.lvl, level)
		}
		cur = r.Stop
	}
	n.vis = append(n.vis, c.vis[cur:]...)
	n.out = append(n.out, c.out[cur:]...)
	n.lvl = append(n.lvl, c.lvl[cur:]...)
	*c = *n
}

func (c *cells) segs() []Seg {
	var out []Seg
	s := string(c.out)
	for i, r := range s {
		out = append(out, Seg{string(r), c.lvl[i]})
	}
	return mergeSegs(out)
}

func joinSegs(parts []string) string { return strings.Join(parts, "") }

// Run is the procedure after the transliteration.
func (s *Spec) Run(input string) (*Steps, error) { return s.RunWatched(input, nil) }

// RunWatched is Run which shows a function what each rule is about to see.
func (s *Spec) RunWatched(input string, watch func(transcribe bool, rule int, word string)) (*Steps, error) {
	st := &Steps{Input: input, FiredRewrite: map[int]bool{}, FiredTranscribe: map[int]bool{}}
	emit := func(e Event) { st.Events = append(st.Events, e) }
	custom, word := s.NormalizeWord(input)
	emit(Event{"Normalize", custom, "", -1})
	emit(Event{"Normalize", word, s.Script, -1})
	st.Normalized = word

	// partition
	var segs []Seg
	for _, r := range word {
		l := 0
		if s.Meaningful(r) {
			l = 1
		}
		segs = append(segs, Seg{string(r), l})
	}
	segs = mergeSegs(segs)
	st.Segs = segs

	// rewrite
	cs := make([]*cells, len(segs))
	for i, sg := range segs {
		cs[i] = newCells(sg.W, sg.Level)
	}
	for ri, rule := range s.Rewrite {
		for _, c := range cs {
			if watch != nil {
				watch(false, ri, string(c.vis))
			}
			rs, err := Replacements(rule.P, rule.R, string(c.vis), -1)
			if err != nil {
				return nil, err
			}
			if len(rs) > 0 {
				st.FiredRewrite[ri] = true
				c.replace(rs, 1, false)
			}
		}
		if len(cs) > 0 {
			emit(Event{"Rewrite", joinCells(cs), "", ri})
		}
	}
	segs = nil
	for _, c := range cs {
		segs = append(segs, c.segs()...)
	}
	segs = mergeSegs(segs)
	st.Rewritten = segs

	// transcribe
	cs = make([]*cells, len(segs))
	any := false
	for i, sg := range segs {
		cs[i] = newCells(sg.W, sg.Level)
		any = any || sg.Level != 0
	}
	for ri, rule := range s.Transcribe {
		for i, c := range cs {
			if segs[i].Level == 0 {
				continue
			}
			if watch != nil {
				watch(true, ri, string(c.vis))
			}
			rs, err := Replacements(rule.P, rule.R, string(c.vis), -1)
			if err != nil {
				return nil, err
			}
			if len(rs) > 0 {
				st.FiredTranscribe[ri] = true
				c.replace(rs, 2, true)
			}
		}
		if any {
			emit(Event{"Transcribe", strings.ReplaceAll(joinCells(cs), "\x00", "."), "", ri})
		}
	}
	segs = nil
	for _, c := range cs {
		segs = append(segs, c.segs()...)
	}
	segs = mergeSegs(segs)
	var kept []Seg
	for _, sg := range segs {
		if sg.Level == 1 {
			if strings.IndexFunc(sg.W, unicode.IsSpace) >= 0 {
				kept = append(kept, Seg{" ", 1})
			}
			if strings.TrimFunc(sg.W, unicode.IsSpace) != "" {
				st.Unmatched = true
			}
			continue
		}
		kept = append(kept, sg)
	}
	st.Jamo = kept

	// syllabify
	var out, jamo strings.Builder
	flush := func() {
		out.WriteString(Compose(jamo.String()))
		jamo.Reset()
	}
	for _, sg := range kept {
		if sg.Level == 0 {
			flush()
			out.WriteString(sg.W)
		} else {
			jamo.WriteString(sg.W)
		}
	}
	flush()
	st.Syllables = out.String()
	emit(Event{"Syllabify", st.Syllables, "", -1})

	st.Result = Localize(s.Script, st.Syllables)
	emit(Event{"Localize", st.Result, s.Script, -1})
	return st, nil
}

func joinCells(cs []*cells) string {
	var b strings.Builder
	for _, c := range cs {
		b.Write(c.out)
	}
	return b.String()
}

// Localize converts the punctuation of the script to the Korean one.
func Localize(script, w string) string {
	table := map[rune]string{}
	if script == "Hrkt" {
		table = map[rune]string{
			'。': ". ", '、': ", ", '：': ": ", '！': "! ", '？': "? ", '〜': "~",
			'「': " '", '」': "' ", '『': " \"", '』': "\" ",
		}
	}
	rs := []rune(w)
	blank := func(i int) bool {
		return i < 0 || i >= len(rs) || unicode.IsSpace(rs[i]) || unicode.IsPunct(rs[i])
	}
	var out strings.Builder
	for i, r := range rs {
		if r == '\u200b' {
			continue
		}
		t, ok := table[r]
		if !ok {
			out.WriteRune(r)
			continue
		}
		if blank(i - 1) {
			t = strings.TrimPrefix(t, " ")
		}
		if blank(i + 1) {
			t = strings.TrimSuffix(t, " ")
		}
		out.WriteString(t)
	}
	return out.String()
}

// Kept tests if the custom normalization keeps a letter as it is.
func (s *Spec) Kept(r rune) bool { return s.keep[r] }

// Clone is a shallow copy.
func (s *Spec) Clone() *Spec {
	c := *s
	c.norms = map[rune]rune{}
	return &c
}

// Renormalize prepares the spec again after a change of the normalization.
func (s *Spec) Renormalize() {
	s.froms = nil
	if err := s.Prepare(); err != nil {
		panic(err)
	}
}
