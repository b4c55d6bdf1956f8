package props

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"

	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/model"
)

//go:embed wasm_driver.js
var wasmDriver []byte

// node is a Node process which runs the WebAssembly builds.
type node struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail

	broken bool
}

// tail keeps the end of the error output.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b = append(t.b, p...); len(t.b) > 4000 {
		t.b = t.b[len(t.b)-4000:]
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

var theNode *node

func startNode(env *fw.Env) (*node, error) {
	if theNode != nil && !theNode.broken {
		return theNode, nil
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	exe := ""
	for _, sub := range []string{"lib/wasm", "misc/wasm"} {
		f := filepath.Join(strings.TrimSpace(string(root)), sub, "wasm_exec.js")
		if _, err := os.Stat(f); err == nil {
			exe = f
		}
	}
	n, err := startDriver(env, "wasm", wasmDriver, env.WasmDir, exe)
	theNode = n
	return n, err
}

// startDriver starts a program in Node which answers a line by a line.
func startDriver(env *fw.Env, name string, program []byte, args ...string) (*node, error) {
	driver := filepath.Join(env.Scratch, fmt.Sprintf("%s%d.js", name, os.Getpid()))
	if err := os.WriteFile(driver, program, 0o644); err != nil {
		return nil, err
	}
	n := &node{cmd: exec.Command("node", append([]string{driver}, args...)...), err: &tail{}}
	n.cmd.Stderr = n.err
	var err error
	if n.in, err = n.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	n.out = bufio.NewReaderSize(out, 1<<20)
	if err := n.cmd.Start(); err != nil {
		return nil, err
	}
	return n, nil
}

func (n *node) ask(q, a any) error {
	b, err := json.Marshal(q)
	if err != nil {
		return err
	}
	timer := time.AfterFunc(50*time.Second, func() {
		fmt.Fprintf(n.err, "no answer to %s", b)
		_ = n.cmd.Process.Kill()
	})
	defer timer.Stop()
	if _, err = n.in.Write(append(b, '\n')); err == nil {
		var line []byte
		if line, err = n.out.ReadBytes('\n'); err == nil {
			return json.Unmarshal(line, a)
		}
	}
	_ = n.cmd.Process.Kill()
	_ = n.cmd.Wait()
	n.broken = true
	return fmt.Errorf("the program broke at %s: %w\n%s", b, err, n.err)
}

type object = map[string]any

type c26use struct {
	Scheme string  `json:"scheme"`
	Prefix string  `json:"prefix"`
	Reject *string `json:"reject,omitempty"` // for words of a length divisible by Every
	By     string  `json:"by,omitempty"`     // the kind of what it is rejected by: an Error, if empty
	Every  int     `json:"every"`
	Delays []int   `json:"delays"` // of the 1st, 2nd... call
}

type c26call struct {
	Lang  string `json:"lang"`
	Word  string `json:"word"`
	Trace bool   `json:"trace"`
}

type c26case struct {
	Kind     string    `json:"kind"` // meta, translit, shared, fresh
	Module   string    `json:"module,omitempty"`
	Scheme   string    `json:"scheme,omitempty"`
	Word     string    `json:"word,omitempty"`
	Uses     []c26use  `json:"uses,omitempty"`
	Calls    []c26call `json:"calls,omitempty"`
	Together bool      `json:"together,omitempty"`
}

type c26answer struct {
	Result *string    `json:"result"`
	Error  *string    `json:"error"`
	Odd    bool       `json:"odd"`
	Traces []c26trace `json:"traces"`
}

type c26trace struct {
	Step string `json:"step"`
	Word string `json:"word"`
	Why  string `json:"why"`
	Rule *struct {
		ID   int    `json:"id"`
		From string `json:"from"`
		To   string `json:"to"`
	} `json:"rule"`
}

var translitLangs = func() (out []string) {
	for _, l := range langs {
		if len(model.Bundled(l).Translit) > 0 {
			out = append(out, l)
		}
	}
	return
}()

func bundledSchemes() []string {
	seen := map[string]bool{}
	var out []string
	for _, l := range langs {
		for _, s := range model.Bundled(l).Translit {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

// jsWord makes a word which survives JavaScript.
func jsWord(w string) string { return strings.ToValidUTF8(w, "") }

func moduleOf(scheme string) string {
	if strings.HasPrefix(scheme, "cyrillic") {
		return "cyrillic"
	}
	return scheme
}

func nativeTranslit(scheme string) hangulize.Translit {
	switch moduleOf(scheme) {
	case "furigana":
		return furigana.T
	case "pinyin":
		return pinyin.T
	}
	for _, t := range cyrillic.Ts {
		if t.Scheme() == scheme {
			return t
		}
	}
	return nil
}

func genC26(t *rapid.T) c26case {
	kind := gen.Weighted(t, "kind", 25, 30, 8, 30)
	switch kind {
	case 0:
		x := c26case{Kind: "translit", Scheme: gen.Pick(t, bundledSchemes(), "scheme")}
		x.Module = moduleOf(x.Scheme)
		switch x.Module {
		case "cyrillic":
			x.Word = jsWord(string(genC18(t).Word))
		case "furigana":
			x.Word = jsWord(string(genC20(t).Word))
		case "pinyin":
			x.Word = jsWord(string(genC19(t).Word))
		}
		return x
	case 1:
		x := c26case{Kind: "shared", Together: gen.Chance(t, 40, "together")}
		for n := gen.Range(t, 1, 5, "calls"); n > 0; n-- {
			x.Calls = append(x.Calls, c26gen(t, langs))
		}
		return x
	}
	x := c26case{Kind: "fresh", Together: gen.Chance(t, 75, "together")}
	uses := gen.Range(t, 0, 4, "uses")
	schemes := bundledSchemes()
	if kind == 3 {
		x.Kind, uses = "mock", len(schemes)
	}
	for n := uses; n > 0; n-- {
		u := c26use{Scheme: gen.Pick(t, schemes, "scheme"), Prefix: gen.Pick(t, []string{"", "a", "カ", "가 "}, "prefix"), Every: gen.Range(t, 1, 3, "every")}
		for k := gen.Range(t, 1, 4, "delays"); k > 0; k-- {
			u.Delays = append(u.Delays, gen.Pick(t, []int{0, 0, 1, 3, 8, 20}, "delay"))
		}
		if x.Kind == "mock" {
			u.Scheme = schemes[n-1]
		} else if gen.Chance(t, 10, "other") {
			u.Scheme = gen.Pick(t, []string{"", "x", "Furigana", "가"}, "scheme")
		}
		if gen.Chance(t, 30, "reject") {
			msg := gen.Pick(t, []string{"", "broken", "가%d"}, "msg")
			u.Reject = &msg
			if gen.Chance(t, 25, "by another value") {
				u.By = gen.Pick(t, []string{"string", "number", "null", "undefined", "object", "symbol", "function"}, "by")
			}
		}
		x.Uses = append(x.Uses, u)
	}
	// Calls which share a Translit.
	main := gen.Pick(t, translitLangs, "main")
	if schemes := model.Bundled(main).Translit; x.Kind == "fresh" && len(x.Uses) > 0 && gen.Chance(t, 70, "used") {
		for i := range schemes {
			if i < len(x.Uses) {
				x.Uses[i].Scheme = schemes[i]
			}
		}
	}
	for n := gen.Range(t, 1, 6, "calls"); n > 0; n-- {
		ls := []string{main}
		if !gen.Chance(t, 60, "main") {
			ls = translitLangs
		} else if gen.Chance(t, 20, "any") {
			ls = langs
		}
		x.Calls = append(x.Calls, c26gen(t, ls))
		if k := len(x.Calls) - 1; k > 0 && gen.Chance(t, 25, "the same word") {
			x.Calls[k].Word = x.Calls[gen.Range(t, 0, k-1, "as")].Word
		}
	}
	return x
}

func c26gen(t *rapid.T, ls []string) c26call {
	lang := genLang(t, ls)
	call := c26call{Lang: lang, Word: jsWord(gen.Word(t, gen.DataOf(model.Bundled(lang)))), Trace: gen.Chance(t, 40, "trace")}
	if gen.Chance(t, 4, "unknown") {
		call.Lang = gen.Pick(t, []string{"", "xxx", "Ita", "constructor", "specs"}, "lang")
	}
	return call
}

// slowT is the JavaScript Translit of a c26use in Go.
type slowT struct{ u c26use }

func (s slowT) Scheme() string { return s.u.Scheme }
func (s slowT) Transliterate(w string) (string, error) {
	if s.u.Reject != nil && utf8.RuneCountInString(w)%s.u.Every == 0 {
		return "", errors.New(*s.u.Reject)
	}
	return s.u.Prefix + w, nil
}

// behaviour tells the driver what the Translit does.
func behaviour(u c26use) object {
	b := object{"prefix": u.Prefix, "delays": u.Delays, "every": u.Every}
	if u.Reject != nil {
		b["reject"], b["by"] = *u.Reject, u.By
	}
	return b
}

var wasmShared *node // the Node whose shared instance has the standard Translits

func checkC26(c *fw.Ctx, x c26case) error {
	n, err := startNode(c.Env)
	if err != nil {
		return err
	}
	switch x.Kind {
	case "meta":
		c.NonTrivial()
		return checkWasmMeta(n)
	case "translit":
		var a c26answer
		if err := n.ask(object{"op": "translit", "module": x.Module, "scheme": x.Scheme, "word": x.Word}, &a); err != nil {
			return err
		}
		want, err := nativeTranslit(x.Scheme).Transliterate(x.Word)
		if err != nil {
			return err
		}
		c.NonTrivialIf(want != x.Word)
		if a.Result == nil || *a.Result != want {
			b, _ := json.Marshal(a)
			return fmt.Errorf("%s.translit.wasm makes %s of %s, want %s", x.Module, b, q(x.Word), q(want))
		}
		return nil
	}

	use := map[string]hangulize.Translit{}
	kind := x.Kind
	if kind == "shared" {
		var ok struct {
			OK *bool `json:"ok"`
		}
		for _, s := range bundledSchemes() {
			use[s] = nativeTranslit(s)
			if wasmShared != n {
				if err := n.ask(object{"op": "use", "kind": kind, "scheme": s, "module": moduleOf(s)}, &ok); err != nil {
					return err
				}
				if ok.OK == nil || !*ok.OK {
					return fmt.Errorf("useTranslit(%q) refuses the first one", s)
				}
			}
		}
		wasmShared = n
	} else if kind == "mock" {
		c.Label("mock")
		bs := object{}
		for _, u := range x.Uses {
			use[u.Scheme], bs[u.Scheme] = slowT{u}, behaviour(u)
		}
		var a struct {
			OK *bool `json:"ok"`
		}
		if err := n.ask(object{"op": "mock", "behaviours": bs}, &a); err != nil {
			return err
		}
		if a.OK == nil || !*a.OK {
			return fmt.Errorf("useTranslit refuses the first Translit of a scheme")
		}
	} else {
		c.Label("fresh instance")
		if err := n.ask(object{"op": "new"}, &struct{}{}); err != nil {
			return err
		}
		for _, u := range x.Uses {
			var a struct {
				OK *bool `json:"ok"`
			}
			if err := n.ask(object{"op": "use", "kind": kind, "scheme": u.Scheme, "behaviour": behaviour(u)}, &a); err != nil {
				return err
			}
			if want := use[u.Scheme] == nil; a.OK == nil || *a.OK != want {
				return fmt.Errorf("useTranslit(%q) of %+v is not %v", u.Scheme, x.Uses, want)
			}
			if use[u.Scheme] == nil {
				use[u.Scheme] = slowT{u}
			}
		}
	}

	var a struct {
		Calls []c26answer `json:"calls"`
	}
	if err := n.ask(object{"op": "calls", "kind": kind, "calls": x.Calls, "together": x.Together}, &a); err != nil {
		return err
	}
	if len(a.Calls) != len(x.Calls) {
		return fmt.Errorf("%d answers to %d calls", len(a.Calls), len(x.Calls))
	}
	full, rejected := 0, 0
	for i, call := range x.Calls {
		got := a.Calls[i]
		b, _ := json.Marshal(got)
		var (
			want   string
			events []hangulize.Trace
		)
		spec, err := hangulize.LoadSpec(call.Lang)
		if err == nil {
			h := hangulize.New(spec)
			for _, t := range use {
				h.UseTranslit(t)
			}
			want, _, events, err = collectTraces(h, call.Word)
		}
		c.Extra++
		desc := fmt.Sprintf("hangulize(%q, %s) after %+v", call.Lang, q(call.Word), x.Uses)
		if err != nil {
			rejected++
			if got.Error == nil || *got.Error != err.Error() || got.Odd {
				return fmt.Errorf("%s answers %s, want the error %q", desc, b, err)
			}
			continue
		}
		if got.Result == nil || *got.Result != want {
			return fmt.Errorf("%s answers %s, want %s", desc, b, q(want))
		}
		if strings.IndexFunc(want, isSyllable) >= 0 {
			full++
		}
		if !call.Trace {
			events = nil
		}
		if len(events) != len(got.Traces) {
			return fmt.Errorf("%s: %d events, want %d: %s", desc, len(got.Traces), len(events), b)
		}
		for k, e := range events {
			g := got.Traces[k]
			// Letters which are no Unicode do not survive JavaScript.
			if g.Step != e.Step || utf8.ValidString(e.Word) && g.Word != e.Word || g.Why != e.Why || (g.Rule == nil) != (e.Rule == nil) ||
				e.Rule != nil && (g.Rule.ID != e.Rule.ID || g.Rule.From != e.Rule.From.String() || g.Rule.To != e.Rule.To.String()) {
				return fmt.Errorf("%s: event %d is %+v, want %+v (%s)", desc, k, g, e, b)
			}
		}
	}
	c.NonTrivialIf(full >= 2 || rejected > 0 && full > 0)
	c.LabelIf(rejected > 0, "rejected")
	c.LabelIf(x.Together && len(x.Calls) > 1, "together")
	return nil
}

func checkWasmMeta(n *node) error {
	var meta struct {
		Version   string         `json:"version"`
		Specs     map[string]any `json:"specs"`
		Translits map[string]string
	}
	if err := n.ask(object{"op": "meta"}, &meta); err != nil {
		return err
	}
	if meta.Version != "verif-1.2.3" {
		return fmt.Errorf("hangulize.version is %q", meta.Version)
	}
	for _, m := range []string{"cyrillic", "furigana", "pinyin"} {
		if meta.Translits[m] != "verif-1.2.3" {
			return fmt.Errorf("translit.version of %s is %q", m, meta.Translits[m])
		}
	}
	if len(meta.Specs) != len(langs) {
		return fmt.Errorf("hangulize.specs has %d specs, want %d", len(meta.Specs), len(langs))
	}
	for _, l := range langs {
		m := model.Bundled(l)
		want := manifestOf(m)
		spec, err := hangulize.LoadSpec(l)
		if err != nil {
			return err
		}
		want["source"] = spec.Source
		if !sameJSON(meta.Specs[l], want) {
			a, _ := json.Marshal(meta.Specs[l])
			b, _ := json.Marshal(want)
			return fmt.Errorf("hangulize.specs.%s is\n%s\nwant\n%s", l, a, b)
		}
	}
	return nil
}

func init() {
	fw.Reg("C26",
		"The WebAssembly builds run in Node. Fixed cases: the version and the specs of all programs, and the examples of all languages. A generated case is a word for a Translit module, or up to 5 calls of hangulize, one by one or together, traced or not, with the standard Translit modules or (in a fresh instance) up to 4 Translits in JavaScript which answer late or reject. The oracle is the native library with the same Translits: results, errors, events and the answers of useTranslit are equal. Non-trivial: at least 2 results with Hangul, or one besides a rejection, or a changed word of a module.",
		genC26, checkC26,
		func(p *fw.Prop) { p.NeedWasm = true; p.Batch = 10; p.Quick = 30 * time.Second },
		fw.FixedCases(func(e *fw.Env) (out []c26case) {
			out = append(out, c26case{Kind: "meta"})
			for _, l := range langs {
				var calls []c26call
				for i, ex := range model.Bundled(l).Test {
					if i < 8 {
						calls = append(calls, c26call{Lang: l, Word: ex[0], Trace: i < 2})
					}
				}
				out = append(out, c26case{Kind: "shared", Calls: calls})
			}
			return
		}))
}
