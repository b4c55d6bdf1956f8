// Package fw is the small framework every property check is written in: a
// property is a generator of JSON-serialisable cases plus a check of one case.
package fw

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// S is a string which survives JSON even when it is not valid UTF-8.
type S string

// MarshalJSON implements json.Marshaler.
func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(s))})
}

// UnmarshalJSON implements json.Unmarshaler.
func (s *S) UnmarshalJSON(b []byte) error {
	var str string
	if json.Unmarshal(b, &str) == nil {
		*s = S(str)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	raw, err := base64.StdEncoding.DecodeString(m["b64"])
	*s = S(raw)
	return err
}

// Strs converts []S into []string.
func Strs(ss []S) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = string(s)
	}
	return out
}

// Env is what the supervisor has built for the workers.
type Env struct {
	Verif   string // the /verif tree
	Repo    string // the /repo tree
	Scratch string // a scratch directory owned by this run
	CLI     string // the hangulize command, if built
	CLIRace string
	Mani    string // the manifest.json command, if built
	WasmDir string // the js/wasm binaries, if built
	WebDir  string // the bundled web page, if built
	Self    string // this executable
	Tier    string
	Seed    uint64
}

// Ctx collects what one evaluation did.
type Ctx struct {
	Env        *Env
	nontrivial bool
	Labels     map[string]int
	// Shrinking is true once a failure has been seen.
	Extra int // evaluations done inside of one case
}

// NonTrivial marks the current case as non-trivial by the rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the current case as non-trivial if ok.
func (c *Ctx) NonTrivialIf(ok bool) {
	if ok {
		c.nontrivial = true
	}
}

// Label counts a class of cases.
func (c *Ctx) Label(s string) { c.Labels[s]++ }

// LabelIf counts a class of cases if ok.
func (c *Ctx) LabelIf(ok bool, s string) {
	if ok {
		c.Labels[s]++
	}
}

// Thorough reports whether the run is in the thorough tier.
func (c *Ctx) Thorough() bool { return c.Env.Tier == "thorough" }

// Prop is a property and the way to decide it.
type Prop struct {
	ID     string
	Rule   string
	Assume []string

	New   func() any
	Gen   func(*rapid.T) any
	Check func(*Ctx, any) error

	// Fixed are deterministic cases (sweeps, corner cases) checked in every run.
	Fixed func(*Env) []any

	NeedCLI  bool
	NeedMani bool
	NeedWasm bool
	NeedWeb  bool
	Race     bool
	Plain    bool // known findings are reproduced without the patched dependency
	FailSlow bool // a failure costs much to reproduce: do not shrink

	Shards      int           // 0: default
	Batch       int           // checks between two looks at the clock
	CaseTimeout time.Duration // wall time of one case
	Quick       time.Duration // generation time in the quick tier
	Thorough    time.Duration
}

var registry = map[string]*Prop{}

// Reg registers a property.
func Reg[C any](id, rule string, gen func(*rapid.T) C, check func(*Ctx, C) error, opts ...func(*Prop)) *Prop {
	p := &Prop{
		ID:          id,
		Rule:        rule,
		New:         func() any { return new(C) },
		Batch:       100,
		CaseTimeout: 60 * time.Second,
		Quick:       20 * time.Second,
		Thorough:    300 * time.Second,
	}
	if gen != nil {
		p.Gen = func(t *rapid.T) any {
			c := gen(t)
			return &c
		}
	}
	p.Check = func(ctx *Ctx, v any) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, stack())
			}
		}()
		return check(ctx, *(v.(*C)))
	}
	for _, o := range opts {
		o(p)
	}
	if registry[id] != nil {
		panic("duplicated property " + id)
	}
	registry[id] = p
	return p
}

// FixedCases sets the deterministic cases.
func FixedCases[C any](f func(*Env) []C) func(*Prop) {
	return func(p *Prop) {
		p.Fixed = func(e *Env) []any {
			var out []any
			for _, c := range f(e) {
				c := c
				out = append(out, &c)
			}
			return out
		}
	}
}

// Get finds a property.
func Get(id string) *Prop { return registry[id] }

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Hooks are extra subcommands of the harness binary.
var Hooks = map[string]func(){}
