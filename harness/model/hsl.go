package model

import (
	"fmt"
	"strings"
)

// Pair is a pair of a section.
type Pair struct {
	L    string
	R    []string
	Line int
}

// Section is a section of an HSL source.
type Section struct {
	Name  string
	List  bool
	Pairs []Pair
}

// ParseHSL reads a well-formed HSL source line by line: a section per
// "name:" line and a pair per other line. It is only meant for the bundled
// specs.
func ParseHSL(src string) ([]*Section, error) {
	var (
		out []*Section
		cur *Section
	)
	for i, line := range strings.Split(src, "\n") {
		toks, err := tokens(line)
		if err != nil {
			return nil, fmt.Errorf("line %d: %w", i+1, err)
		}
		if len(toks) == 0 {
			continue
		}
		if len(toks) >= 2 && toks[1] == ":" {
			cur = &Section{Name: toks[0][1:]}
			out = append(out, cur)
			continue
		}
		if cur == nil || len(toks) < 3 || (toks[1] != "=" && toks[1] != "->") {
			return nil, fmt.Errorf("line %d: unexpected %q", i+1, line)
		}
		if len(cur.Pairs) == 0 {
			cur.List = toks[1] == "->"
		}
		if cur.List != (toks[1] == "->") {
			return nil, fmt.Errorf("line %d: mixed section", i+1)
		}
		pair := Pair{L: toks[0][1:], Line: i + 1}
		for _, t := range toks[2:] {
			if t == "," {
				continue
			}
			pair.R = append(pair.R, t[1:])
		}
		cur.Pairs = append(cur.Pairs, pair)
	}
	return out, nil
}

// tokens splits a line; strings are prefixed with a quote.
func tokens(line string) ([]string, error) {
	var out []string
	rs := []rune(line)
	for i := 0; i < len(rs); {
		switch r := rs[i]; {
		case r == ' ' || r == '\t' || r == '\r':
			i++
		case r == '#':
			return out, nil
		case r == ':' || r == '=' || r == ',':
			out = append(out, string(r))
			i++
		case r == '-':
			if i+1 >= len(rs) || rs[i+1] != '>' {
				return nil, fmt.Errorf("lonely hyphen")
			}
			out = append(out, "->")
			i += 2
		case r == '"':
			j := i + 1
			var b strings.Builder
			for ; j < len(rs) && rs[j] != '"'; j++ {
				if rs[j] == '\\' {
					return nil, fmt.Errorf("escape")
				}
				b.WriteRune(rs[j])
			}
			if j == len(rs) {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, `"`+b.String())
			i = j + 1
		default:
			j := i
			for j < len(rs) && !strings.ContainsRune(" \t\r:=,\"#-", rs[j]) {
				j++
			}
			out = append(out, `"`+string(rs[i:j]))
			i = j
		}
	}
	return out, nil
}
