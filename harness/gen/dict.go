// Package gen holds the generators.
package gen

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// Consts are the literals of the sources under test. A generator which knows
// them reaches the branches guarded by them, like the dictionary of a fuzzer.
type Consts struct {
	Strings []string
	Runes   []rune
	Ints    []int
}

var (
	constsOnce sync.Once
	consts     Consts
)

// Harvest collects the literals of the non-test Go sources in /repo.
func Harvest() *Consts {
	constsOnce.Do(func() { consts = harvest("/repo") })
	return &consts
}

func harvest(root string) Consts {
	ss, rs, is := map[string]bool{}, map[rune]bool{}, map[int]bool{}
	_ = filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			switch d.Name() {
			case ".git", "web", "node_modules", "specs":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			lit, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch lit.Kind {
			case token.STRING:
				s, err := strconv.Unquote(lit.Value)
				if err == nil && s != "" && len(s) <= 60 && utf8.ValidString(s) {
					ss[s] = true
					if utf8.RuneCountInString(s) <= 40 {
						for _, r := range s {
							if r >= 0x80 {
								rs[r] = true
							}
						}
					}
				}
			case token.CHAR:
				s, err := strconv.Unquote(lit.Value)
				if err == nil {
					r, _ := utf8.DecodeRuneInString(s)
					rs[r] = true
				}
			case token.INT:
				n, err := strconv.ParseInt(lit.Value, 0, 64)
				if err == nil && n >= 2 {
					if n <= 2000 {
						is[int(n)] = true
					} else if n <= 0x10FFFF {
						rs[rune(n)] = true
					}
				}
			}
			return true
		})
		return nil
	})
	var c Consts
	for s := range ss {
		c.Strings = append(c.Strings, s)
	}
	for r := range rs {
		c.Runes = append(c.Runes, r)
	}
	for i := range is {
		c.Ints = append(c.Ints, i)
	}
	sort.Strings(c.Strings)
	sort.Slice(c.Runes, func(i, j int) bool { return c.Runes[i] < c.Runes[j] })
	sort.Ints(c.Ints)
	if len(c.Strings) == 0 {
		c.Strings = []string{"x"}
	}
	if len(c.Runes) == 0 {
		c.Runes = []rune{'x'}
	}
	if len(c.Ints) == 0 {
		c.Ints = []int{3}
	}
	return c
}
