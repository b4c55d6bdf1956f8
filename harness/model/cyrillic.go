package model

import (
	_ "embed"
	"encoding/json"
	"strings"
	"sync"
)

//go:embed data/cyrillic.json
var cyrJSON []byte

var (
	cyrOnce sync.Once
	cyrDict map[string]map[string]string
)

// CyrDict maps a country to its Latin spellings of the Cyrillic letters.
func CyrDict() map[string]map[string]string {
	cyrOnce.Do(func() {
		var raw map[string]struct {
			ToCyrillic map[string]string `json:"tocyrillic"`
		}
		if err := json.Unmarshal(cyrJSON, &raw); err != nil {
			panic(err)
		}
		cyrDict = map[string]map[string]string{}
		for c, m := range raw {
			cyrDict[c] = m.ToCyrillic
		}
	})
	return cyrDict
}

// Cyrillic replaces the longest spelling at each position from the left.
func Cyrillic(country, w string) string {
	dict := CyrDict()[country]
	max := 0
	for src := range dict {
		if len(src) > max {
			max = len(src)
		}
	}
	var out strings.Builder
next:
	for i := 0; i < len(w); {
		for n := minInt(max, len(w)-i); n > 0; n-- {
			if to, ok := dict[w[i:i+n]]; ok {
				out.WriteString(to)
				i += n
				continue next
			}
		}
		out.WriteByte(w[i])
		i++
	}
	return out.String()
}
