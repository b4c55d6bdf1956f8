package model

import (
	_ "embed"
	"encoding/json"
	"sync"
)

//go:embed data/witness.json
var witnessJSON []byte

var (
	witnessOnce sync.Once
	witness     map[string][]string
)

// Witnesses are the words which tell a bundled spec from its near copies. See
// the command witness.
func Witnesses(lang string) []string {
	witnessOnce.Do(func() {
		if err := json.Unmarshal(witnessJSON, &witness); err != nil {
			panic(err)
		}
	})
	return witness[lang]
}
