package gen

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/model"
)

// Quote writes an HSL string.
func Quote(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

// QuoteAll writes HSL values.
func QuoteAll(ss []string) string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = Quote(s)
	}
	return strings.Join(out, ", ")
}

// Keys lists the keys of a map in order.
func Keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// SpecSource writes the HSL source of a spec.
func SpecSource(s *model.Spec) string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w("lang:")
	w("    id = %s", Quote(s.ID))
	w("    codes = %s", QuoteAll(s.Codes[:]))
	w("    english = %s", Quote(s.English))
	w("    korean = %s", Quote(s.Korean))
	w("    script = %s", Quote(s.Script))
	if len(s.Translit) > 0 {
		w("    translit = %s", QuoteAll(s.Translit))
	}
	w("config:")
	w("    authors = %s", QuoteAll(s.Authors))
	w("    stage = %s", Quote(s.Stage))
	w("macros:")
	for _, k := range Keys(s.Macros) {
		w("    %s = %s", Quote(k), Quote(s.Macros[k]))
	}
	w("vars:")
	for _, k := range Keys(s.Vars) {
		w("    %s = %s", Quote(k), QuoteAll(s.Vars[k]))
	}
	w("normalize:")
	for _, k := range Keys(s.Normalize) {
		w("    %s = %s", Quote(k), QuoteAll(s.Normalize[k]))
	}
	w("rewrite:")
	for _, r := range s.Rewrite {
		w("    %s -> %s", Quote(r.From), Quote(r.To))
	}
	w("transcribe:")
	for _, r := range s.Transcribe {
		w("    %s -> %s", Quote(r.From), Quote(r.To))
	}
	w("test:")
	for _, t := range s.Test {
		w("    %s -> %s", Quote(t[0]), Quote(t[1]))
	}
	return b.String()
}
