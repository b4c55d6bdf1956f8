// Package model is an independent executable specification of Hangulize: a
// naive backtracking matcher for HRE and a direct transcription procedure. It
// shares no code with the repository.
package model

import (
	"errors"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Kind is the kind of a pattern node.
type Kind int

// Node kinds.
const (
	KLit Kind = iota
	KAny
	KClass
	KCat
	KAlt
	KRep
	KGroup // capturing if Cap > 0
	KChunkStart
	KStrStart
	KChunkEnd
	KStrEnd
)

// Node is a node of a parsed pattern.
type Node struct {
	Kind   Kind
	R      rune
	Neg    bool
	Ranges [][2]rune
	Subs   []*Node
	Min    int
	Max    int // -1: unlimited
	Lazy   bool
	Cap    int
	Var    int // index of the var + 1, if the group came from a var
}

// Pat is a compiled model pattern.
type Pat struct {
	Expr  string
	Never bool

	EdgeL, LookL *Node
	Core         *Node // an alternation at the top level, or anything else
	LookR, EdgeR *Node
	NegA, NegB   *Node
	NegAW, NegBW int

	NCap int // capturing groups in the core
	Vars []VarRef

	letters map[rune]bool
}

// VarRef is a var captured by the core.
type VarRef struct {
	Vals []string
	Cap  int
}

// Errors of the model.
var (
	ErrEmpty     = errors.New("empty pattern")
	ErrMiddle    = errors.New("lookaround in the middle")
	ErrSyntax    = errors.New("syntax error")
	ErrZeroWidth = errors.New("zero-width match")
)

// ExpandMacros replaces macros; the longest macro wins at each position.
func ExpandMacros(expr string, macros map[string]string) string {
	var out strings.Builder
	for i := 0; i < len(expr); {
		best := ""
		for src := range macros {
			if len(src) > len(best) && strings.HasPrefix(expr[i:], src) {
				best = src
			}
		}
		if best == "" {
			out.WriteByte(expr[i])
			i++
			continue
		}
		out.WriteString(macros[best])
		i += len(best)
	}
	return out.String()
}

const (
	varOpen  = '\uFDD0' // a noncharacter as the marker for a var reference in the model
	varClose = '\uFDD1'
)

// markVars replaces <name> by a marker with the index of the reference.
func markVars(expr string, vars map[string][]string) (string, [][]string) {
	var (
		out  strings.Builder
		refs [][]string
	)
	for i := 0; i < len(expr); {
		if expr[i] == '<' {
			// at least one character in the name
			if j := strings.IndexByte(expr[minInt(i+2, len(expr)):], '>'); j >= 0 && i+2 <= len(expr) {
				name := expr[i+1 : i+2+j]
				if !strings.Contains(name, "\n") {
					name = strings.Trim(name, "<>")
					out.WriteRune(varOpen)
					out.WriteString(strconv.Itoa(len(refs)))
					out.WriteRune(varClose)
					refs = append(refs, vars[name])
					i += 2 + j + 1
					continue
				}
			}
		}
		out.WriteByte(expr[i])
		i++
	}
	return out.String(), refs
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// CompilePat compiles a pattern.
func CompilePat(expr string, macros map[string]string, vars map[string][]string) (*Pat, error) {
	if expr == "" {
		return nil, ErrEmpty
	}
	e, refs := markVars(ExpandMacros(expr, macros), vars)
	p := &Pat{Expr: expr, letters: map[rune]bool{}}

	// right side: {...}$$
	edgeR := ""
	for strings.HasSuffix(e, "$") {
		e, edgeR = e[:len(e)-1], edgeR+"$"
	}
	lookR := ""
	if strings.HasSuffix(e, "}") {
		if i := lastOpen(e); i >= 0 && i+1 < len(e)-1 {
			lookR = e[i+1 : len(e)-1]
			e = e[:i]
		}
	}
	// left side: ^^{...}
	edgeL := ""
	for strings.HasPrefix(e, "^") {
		e, edgeL = e[1:], edgeL+"^"
	}
	lookL := ""
	if strings.HasPrefix(e, "{") {
		if i := strings.IndexByte(e, '}'); i > 1 {
			lookL = e[1:i]
			e = e[i+1:]
		}
	}

	ps := &parser{refs: refs}
	var err error
	parse := func(s string, cap bool) *Node {
		if err != nil {
			return nil
		}
		ps.s, ps.pos, ps.cap = []rune(s), 0, cap
		n, perr := ps.alt()
		if perr == nil && ps.pos != len(ps.s) {
			perr = ErrSyntax
		}
		if perr != nil {
			err = perr
		}
		return n
	}

	// "{}" is literal; anything else in braces is misplaced.
	for i := 0; i < len(e); i++ {
		if e[i] != '{' {
			continue
		}
		if j := strings.IndexByte(e[i:], '}'); j > 1 {
			return nil, ErrMiddle
		} else if j == 1 {
			i++
		}
	}

	look := func(l, edge string) (pos, neg *Node, width int) {
		switch {
		case l == "":
			return nil, nil, 0
		case strings.HasPrefix(l, "~"):
			if edge != "" {
				return nil, nil, 0
			}
			n := parse(l[1:], false)
			if err != nil {
				return nil, nil, 0
			}
			return nil, n, MaxWidth(n, refs)
		default:
			if edge != "" {
				p.Never = true
				return nil, nil, 0
			}
			return parse(l, false), nil, 0
		}
	}
	p.LookR, p.NegA, p.NegAW = look(lookR, edgeR)
	p.LookL, p.NegB, p.NegBW = look(lookL, edgeL)
	p.EdgeL = parse(edgeL, false)
	p.EdgeR = parse(edgeR, false)
	p.Core = parse(e, true)
	if err != nil {
		return nil, err
	}
	p.NCap = ps.ncap
	for _, v := range ps.vars {
		p.Vars = append(p.Vars, v)
	}

	// letters
	neg := func(l string) bool { return strings.HasPrefix(l, "~") }
	natural := func(l, edge string) string {
		if neg(l) {
			if edge != "" {
				return "" // ignored at an edge
			}
			return l[1:]
		}
		return l
	}
	switch {
	case lookR != "" && edgeR != "" && !neg(lookR):
		// never matches
	case p.Never:
		if neg(lookR) {
			collectLetters(natural(lookR, edgeR), refs, p.letters)
		}
	default:
		collectLetters(natural(lookL, edgeL), refs, p.letters)
		collectLetters(e, refs, p.letters)
		collectLetters(natural(lookR, edgeR), refs, p.letters)
	}
	return p, nil
}

// lastOpen finds the brace which opens the {...} at the end of e.
func lastOpen(e string) int {
	i := strings.LastIndexByte(e[:len(e)-1], '}')
	j := strings.IndexByte(e[i+1:], '{')
	if j < 0 {
		return -1
	}
	return i + 1 + j
}

// Letters are the natural letters used in a pattern.
func (p *Pat) Letters() []rune { return sortedRunes(p.letters) }

func sortedRunes(m map[rune]bool) []rune {
	out := make([]rune, 0, len(m))
	for r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

const metaChars = `\.+*?()|[]{}^$`

// collectLetters gathers natural letters: not escaped, not meta, not a space
// nor a slash.
func collectLetters(s string, refs [][]string, out map[rune]bool) {
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		switch {
		case r == varOpen:
			j := i + 1
			for rs[j] != varClose {
				j++
			}
			n, _ := strconv.Atoi(string(rs[i+1 : j]))
			for _, val := range refs[n] {
				for _, vr := range val {
					if !strings.ContainsRune(metaChars, vr) && !isReSpace(vr) && vr != '/' {
						out[vr] = true
					}
				}
			}
			i = j
		case r == '\\':
			i++
		case r == '(' && i+2 < len(rs) && rs[i+1] == '?' && rs[i+2] == ':':
			i += 2
		case strings.ContainsRune(metaChars, r) || isReSpace(r) || r == '/':
		default:
			out[r] = true
		}
	}
}

// CollectRLetters gathers natural letters of a replacement expression.
func CollectRLetters(s string) []rune {
	m := map[rune]bool{}
	collectLetters(s, nil, m)
	return sortedRunes(m)
}

func isReSpace(r rune) bool { return strings.ContainsRune("\t\n\f\r ", r) }

// MaxWidth is the maximum number of letters a node matches; -1 is unlimited.
func MaxWidth(n *Node, refs [][]string) int {
	if n == nil {
		return 0
	}
	switch n.Kind {
	case KLit, KAny, KClass:
		return 1
	case KCat:
		sum := 0
		for _, s := range n.Subs {
			w := MaxWidth(s, refs)
			if w < 0 {
				return -1
			}
			sum += w
		}
		return sum
	case KAlt:
		max := 0
		for _, s := range n.Subs {
			w := MaxWidth(s, refs)
			if w < 0 {
				return -1
			}
			if w > max {
				max = w
			}
		}
		return max
	case KRep:
		if n.Max < 0 {
			return -1
		}
		w := MaxWidth(n.Subs[0], refs)
		if w < 0 {
			if n.Max == 0 {
				return 0
			}
			return -1
		}
		return w * n.Max
	case KGroup:
		return MaxWidth(n.Subs[0], refs)
	}
	return 0
}

// -----------------------------------------------------------------------------
// parser

type parser struct {
	s    []rune
	pos  int
	cap  bool
	ncap int
	refs [][]string
	vars []VarRef
}

func (p *parser) more() bool { return p.pos < len(p.s) }

func (p *parser) alt() (*Node, error) {
	var subs []*Node
	for {
		c, err := p.cat()
		if err != nil {
			return nil, err
		}
		subs = append(subs, c)
		if p.more() && p.s[p.pos] == '|' {
			p.pos++
			continue
		}
		break
	}
	if len(subs) == 1 {
		return subs[0], nil
	}
	return &Node{Kind: KAlt, Subs: subs}, nil
}

func (p *parser) cat() (*Node, error) {
	n := &Node{Kind: KCat}
	for p.more() && p.s[p.pos] != '|' && p.s[p.pos] != ')' {
		a, err := p.atom()
		if err != nil {
			return nil, err
		}
		// quantifiers
		for p.more() && strings.ContainsRune("*+?", p.s[p.pos]) {
			min, max := 0, -1
			switch p.s[p.pos] {
			case '+':
				min = 1
			case '?':
				max = 1
			}
			p.pos++
			lazy := false
			if p.more() && p.s[p.pos] == '?' {
				lazy = true
				p.pos++
			}
			if p.more() && strings.ContainsRune("*+?", p.s[p.pos]) {
				return nil, ErrSyntax // a** is invalid
			}
			a = &Node{Kind: KRep, Min: min, Max: max, Lazy: lazy, Subs: []*Node{a}}
		}
		n.Subs = append(n.Subs, a)
	}
	return n, nil
}

func (p *parser) atom() (*Node, error) {
	r := p.s[p.pos]
	switch r {
	case '*', '+', '?':
		return nil, ErrSyntax
	case '.':
		p.pos++
		return &Node{Kind: KAny}, nil
	case '^':
		n := 0
		for p.more() && p.s[p.pos] == '^' {
			n++
			p.pos++
		}
		if n == 1 {
			return &Node{Kind: KChunkStart}, nil
		}
		return &Node{Kind: KStrStart}, nil
	case '$':
		n := 0
		for p.more() && p.s[p.pos] == '$' {
			n++
			p.pos++
		}
		if n == 1 {
			return &Node{Kind: KChunkEnd}, nil
		}
		return &Node{Kind: KStrEnd}, nil
	case '\\':
		if p.pos+1 >= len(p.s) {
			return nil, ErrSyntax
		}
		c := p.s[p.pos+1]
		if c < utf8.RuneSelf && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') || c >= utf8.RuneSelf {
			return nil, ErrSyntax // escape classes are not modelled
		}
		p.pos += 2
		return &Node{Kind: KLit, R: c}, nil
	case '[':
		return p.class()
	case '(':
		p.pos++
		g := &Node{Kind: KGroup}
		if p.pos+1 < len(p.s) && p.s[p.pos] == '?' && p.s[p.pos+1] == ':' {
			p.pos += 2
		} else if p.cap {
			p.ncap++
			g.Cap = p.ncap
		}
		sub, err := p.alt()
		if err != nil {
			return nil, err
		}
		if !p.more() || p.s[p.pos] != ')' {
			return nil, ErrSyntax
		}
		p.pos++
		g.Subs = []*Node{sub}
		return g, nil
	case varOpen:
		j := p.pos + 1
		for p.s[j] != varClose {
			j++
		}
		i, err := strconv.Atoi(string(p.s[p.pos+1 : j]))
		if err != nil {
			return nil, ErrSyntax
		}
		p.pos = j + 1
		alt := &Node{Kind: KAlt}
		for _, val := range p.refs[i] {
			c := &Node{Kind: KCat}
			for _, r := range val {
				c.Subs = append(c.Subs, &Node{Kind: KLit, R: r})
			}
			alt.Subs = append(alt.Subs, c)
		}
		if len(alt.Subs) == 0 {
			alt.Subs = []*Node{{Kind: KCat}}
		}
		g := &Node{Kind: KGroup, Subs: []*Node{alt}}
		if p.cap {
			p.ncap++
			g.Cap = p.ncap
			g.Var = i + 1
			p.vars = append(p.vars, VarRef{p.refs[i], p.ncap})
		}
		return g, nil
	}
	p.pos++
	return &Node{Kind: KLit, R: r}, nil
}

func (p *parser) class() (*Node, error) {
	p.pos++ // [
	n := &Node{Kind: KClass}
	if p.more() && p.s[p.pos] == '^' {
		n.Neg = true
		p.pos++
	}
	first := true
	for {
		if !p.more() {
			return nil, ErrSyntax
		}
		lo := p.s[p.pos]
		if lo == ']' && !first {
			p.pos++
			return n, nil
		}
		first = false
		if lo == '[' || lo == varOpen {
			return nil, ErrSyntax // not modelled
		}
		if lo == '\\' {
			p.pos++
			if !p.more() {
				return nil, ErrSyntax
			}
			lo = p.s[p.pos]
		}
		p.pos++
		hi := lo
		if p.pos+1 < len(p.s) && p.s[p.pos] == '-' && p.s[p.pos+1] != ']' {
			hi = p.s[p.pos+1]
			p.pos += 2
			if hi < lo {
				return nil, ErrSyntax
			}
		}
		n.Ranges = append(n.Ranges, [2]rune{lo, hi})
	}
}

// -----------------------------------------------------------------------------
// matcher

type machine struct {
	w     string
	from  int // where this search starts
	caps  []int
	steps int
	// raw edges: ^ and $ mean the ends of w
}

func (m *machine) atStrStart(pos int) bool { return pos == 0 }

func (m *machine) anchorChunkStart(pos int) bool {
	if pos != m.from {
		return false
	}
	if pos == 0 {
		return true
	}
	prev := m.w[:pos]
	return strings.HasSuffix(prev, "{}") || isReSpace(rune(prev[len(prev)-1]))
}

func (m *machine) match(n *Node, pos int, k func(int) bool) bool {
	if n == nil {
		return k(pos)
	}
	m.steps++
	switch n.Kind {
	case KLit, KAny, KClass:
		if pos >= len(m.w) {
			return false
		}
		r, size := utf8.DecodeRuneInString(m.w[pos:])
		ok := false
		switch n.Kind {
		case KLit:
			ok = r == n.R
		case KAny:
			ok = r != '\n'
		case KClass:
			for _, rg := range n.Ranges {
				if rg[0] <= r && r <= rg[1] {
					ok = true
				}
			}
			ok = ok != n.Neg
		}
		return ok && k(pos+size)
	case KCat:
		return m.seq(n.Subs, pos, k)
	case KAlt:
		for _, s := range n.Subs {
			if m.match(s, pos, k) {
				return true
			}
		}
		return false
	case KGroup:
		if n.Cap == 0 {
			return m.match(n.Subs[0], pos, k)
		}
		i := n.Cap * 2
		s, e := m.caps[i], m.caps[i+1]
		if m.match(n.Subs[0], pos, func(end int) bool {
			ps, pe := m.caps[i], m.caps[i+1]
			m.caps[i], m.caps[i+1] = pos, end
			if k(end) {
				return true
			}
			m.caps[i], m.caps[i+1] = ps, pe
			return false
		}) {
			return true
		}
		m.caps[i], m.caps[i+1] = s, e
		return false
	case KRep:
		return m.rep(n, 0, pos, k)
	case KChunkStart:
		if m.anchorChunkStart(pos) && k(pos) {
			return true
		}
		return m.spaces(pos, k)
	case KStrStart:
		return m.atStrStart(pos) && k(pos)
	case KChunkEnd:
		if pos == len(m.w) && k(pos) {
			return true
		}
		return m.spaces(pos, k)
	case KStrEnd:
		return pos == len(m.w) && k(pos)
	}
	panic("unknown node")
}

// spaces matches one or more spaces greedily, or "{}".
func (m *machine) spaces(pos int, k func(int) bool) bool {
	end := pos
	for end < len(m.w) && isReSpace(rune(m.w[end])) {
		end++
	}
	for ; end > pos; end-- {
		if k(end) {
			return true
		}
	}
	return strings.HasPrefix(m.w[pos:], "{}") && k(pos+2)
}

func (m *machine) seq(subs []*Node, pos int, k func(int) bool) bool {
	if len(subs) == 0 {
		return k(pos)
	}
	return m.match(subs[0], pos, func(end int) bool { return m.seq(subs[1:], end, k) })
}

func (m *machine) rep(n *Node, count, pos int, k func(int) bool) bool {
	again := func() bool {
		if n.Max >= 0 && count >= n.Max {
			return false
		}
		return m.match(n.Subs[0], pos, func(end int) bool {
			if end == pos {
				return false // no empty iteration
			}
			return m.rep(n, count+1, end, k)
		})
	}
	if count < n.Min {
		return again()
	}
	if n.Lazy {
		return k(pos) || again()
	}
	return again() || k(pos)
}

// found is a match of the positive part.
type found struct {
	start, stop int
	lookR       int // where the lookahead starts, or -1
	lookL       int // where the lookbehind stops, or -1
	caps        []int
}

func (p *Pat) search(w string, from int) *found {
	if p.Never {
		return nil
	}
	alts := []*Node{p.Core}
	if p.Core.Kind == KAlt {
		alts = p.Core.Subs
	}
	for pos := from; ; {
		m := &machine{w: w, from: from, caps: make([]int, (p.NCap+1)*2)}
		for i := range m.caps {
			m.caps[i] = -1
		}
		for i, a := range alts {
			f := &found{start: -1, stop: -1, lookR: -1, lookL: -1}
			tail := func(end int) bool {
				f.stop = end
				if i != len(alts)-1 {
					return true
				}
				f.lookR = end
				return m.match(p.LookR, end, func(e2 int) bool {
					return m.match(p.EdgeR, e2, func(int) bool { return true })
				})
			}
			head := func(s int) bool {
				f.start = s
				return m.match(a, s, tail)
			}
			ok := false
			if i == 0 {
				ok = m.match(p.EdgeL, pos, func(e1 int) bool {
					return m.match(p.LookL, e1, func(e2 int) bool {
						f.lookL = e2
						return head(e2)
					})
				})
			} else {
				ok = head(pos)
			}
			if ok {
				f.caps = m.caps
				return f
			}
		}
		if pos >= len(w) {
			return nil
		}
		_, size := utf8.DecodeRuneInString(w[pos:])
		pos += size
	}
}

// Find is the model of Pattern.Find.
func (p *Pat) Find(w string, n int) ([][]int, error) {
	var out [][]int
	for offset := 0; offset < len(w) && (n < 0 || len(out) < n); {
		f := p.search(w, offset)
		if f == nil {
			break
		}
		if f.start == f.stop {
			return out, ErrZeroWidth
		}
		offset = f.stop
		if p.NegA != nil {
			text := ""
			if f.lookR >= 0 {
				text = w[f.lookR:]
			}
			m := &machine{w: text}
			if m.match(p.NegA, 0, func(int) bool { return true }) {
				continue
			}
		}
		if p.NegB != nil {
			text := ""
			if f.lookL >= 0 {
				text = w[:f.lookL]
			}
			m := &machine{w: text}
			hit := false
			for pos := 0; pos <= len(text); {
				if m.match(p.NegB, pos, func(e int) bool { return e == len(text) }) {
					hit = true
					break
				}
				if pos == len(text) {
					break
				}
				_, size := utf8.DecodeRuneInString(text[pos:])
				pos += size
			}
			if hit {
				continue
			}
		}
		out = append(out, append([]int{f.start, f.stop}, f.caps[2:]...))
	}
	return out, nil
}

// -----------------------------------------------------------------------------
// replacement

// RPat is a model replacement pattern.
type RPat struct {
	Expr  string
	parts []rpart
}

type rpart struct {
	lit   string
	isVar bool
	vals  []string
}

// CompileRPat compiles a replacement pattern.
func CompileRPat(expr string, macros map[string]string, vars map[string][]string) *RPat {
	e, refs := markVars(ExpandMacros(expr, macros), vars)
	rp := &RPat{Expr: expr}
	for e != "" {
		i := strings.IndexRune(e, varOpen)
		if i < 0 {
			rp.parts = append(rp.parts, rpart{lit: e})
			break
		}
		if i > 0 {
			rp.parts = append(rp.parts, rpart{lit: e[:i]})
		}
		e = e[i+len(string(varOpen)):]
		j := strings.IndexRune(e, varClose)
		n, _ := strconv.Atoi(e[:j])
		rp.parts = append(rp.parts, rpart{isVar: true, vals: refs[n]})
		e = e[j+len(string(varClose)):]
	}
	return rp
}

// Interpolate computes the replacement of a match; ok is false if some var
// can't be mapped, in which case the match is not replaced.
func (rp *RPat) Interpolate(p *Pat, w string, m []int) (string, bool) {
	var out strings.Builder
	nth := 0
	for _, part := range rp.parts {
		if !part.isVar {
			out.WriteString(part.lit)
			continue
		}
		if nth >= len(p.Vars) {
			return "", false
		}
		v := p.Vars[nth]
		nth++
		s, e := m[v.Cap*2], m[v.Cap*2+1]
		if s < 0 {
			return "", false
		}
		val, idx := w[s:e], -1
		for i, x := range v.Vals {
			if x == val {
				idx = i
				break
			}
		}
		if idx < 0 || len(part.vals) == 0 {
			return "", false
		}
		out.WriteString(part.vals[idx%len(part.vals)])
	}
	return out.String(), true
}

// Repl is a replacement of w[Start:Stop].
type Repl struct {
	Start, Stop int
	Word        string
}

// Replacements computes all the replacements of a rule.
func Replacements(p *Pat, rp *RPat, w string, n int) ([]Repl, error) {
	ms, err := p.Find(w, n)
	if err != nil {
		return nil, err
	}
	var out []Repl
	for _, m := range ms {
		if s, ok := rp.Interpolate(p, w, m); ok {
			out = append(out, Repl{m[0], m[1], s})
		}
	}
	return out, nil
}

// Replace applies all the replacements.
func Replace(p *Pat, rp *RPat, w string, n int) (string, error) {
	rs, err := Replacements(p, rp, w, n)
	if err != nil {
		return "", err
	}
	var out strings.Builder
	cur := 0
	for _, r := range rs {
		out.WriteString(w[cur:r.Start])
		out.WriteString(r.Word)
		cur = r.Stop
	}
	out.WriteString(w[cur:])
	return out.String(), nil
}

// Literals are the literal parts and the values of the vars.
func (rp *RPat) Literals() []string {
	var out []string
	for _, p := range rp.parts {
		if p.isVar {
			out = append(out, p.vals...)
		} else {
			out = append(out, p.lit)
		}
	}
	return out
}

// MinWidth is the minimum number of letters a node consumes.
func MinWidth(n *Node) int {
	if n == nil {
		return 0
	}
	switch n.Kind {
	case KLit, KAny, KClass:
		return 1
	case KCat:
		sum := 0
		for _, s := range n.Subs {
			sum += MinWidth(s)
		}
		return sum
	case KAlt:
		min := -1
		for _, s := range n.Subs {
			if w := MinWidth(s); min < 0 || w < min {
				min = w
			}
		}
		if min < 0 {
			return 0
		}
		return min
	case KRep:
		return n.Min * MinWidth(n.Subs[0])
	case KGroup:
		return MinWidth(n.Subs[0])
	}
	return 0
}

// CoreMayBeEmpty tests if some match may be zero-width.
func (p *Pat) CoreMayBeEmpty() bool {
	if p.Core.Kind == KAlt {
		for _, s := range p.Core.Subs {
			if MinWidth(s) == 0 {
				return true
			}
		}
		return false
	}
	return MinWidth(p.Core) == 0
}

// CoreIsAlt tests if the core is an alternation without parentheses.
func (p *Pat) CoreIsAlt() bool { return p.Core.Kind == KAlt }
