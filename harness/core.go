package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Stats is what one worker measured.
type Stats struct {
	mu          sync.Mutex
	Evaluations int
	Enumerated  int
	Nontrivial  map[string]bool // hashes of distinct non-trivial cases
	Labels      map[string]int
	Samples     []json.RawMessage
	Known       map[string]int // known findings met (key -> times)
	muted       bool           // during shrinking nothing is counted
	curKey      string
	curJSON     []byte
}

func newStats() *Stats {
	return &Stats{Nontrivial: map[string]bool{}, Labels: map[string]int{}, Known: map[string]int{}}
}

// Label classifies the current case.
func (s *Stats) Label(l string) {
	if s.muted {
		return
	}
	s.mu.Lock()
	s.Labels[l]++
	s.mu.Unlock()
}

// LabelN adds n to a counter.
func (s *Stats) LabelN(l string, n int) {
	if s.muted {
		return
	}
	s.mu.Lock()
	s.Labels[l] += n
	s.mu.Unlock()
}

// NonTrivial marks the current case as non-trivial by the property's rule.
func (s *Stats) NonTrivial() {
	if s.muted {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.Nontrivial[s.curKey] {
		s.Nontrivial[s.curKey] = true
		n := len(s.Nontrivial)
		if len(s.Samples) < 3 && (n == 1 || n == 20 || n == 100) && len(s.curJSON) < 6000 {
			s.Samples = append(s.Samples, append(json.RawMessage{}, s.curJSON...))
		}
	}
}

// NonTrivialKey counts a distinct sub-case of the current case.
func (s *Stats) NonTrivialKey(k string) {
	if s.muted {
		return
	}
	h := sha256.Sum256([]byte(k))
	kk := hex.EncodeToString(h[:8])
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.Nontrivial[kk] {
		s.Nontrivial[kk] = true
		if len(s.Samples) < 3 && len(s.curJSON) < 6000 && len(s.Nontrivial)%37 == 1 {
			s.Samples = append(s.Samples, append(json.RawMessage{}, s.curJSON...))
		}
	}
}

// Violation is an error that falsifies a property.
type Violation struct {
	Key string // set when the failure has a stable identity (known findings are matched on it)
	Msg string
}

func (v *Violation) Error() string { return v.Msg }

func violf(format string, a ...any) error { return &Violation{Msg: fmt.Sprintf(format, a...)} }

func violk(key, format string, a ...any) error {
	return &Violation{Key: key, Msg: fmt.Sprintf(format, a...)}
}

// HarnessError is a failure of the check itself: never a violation.
type HarnessError struct{ Msg string }

func (h *HarnessError) Error() string { return "harness error: " + h.Msg }

func harnessf(format string, a ...any) error { return &HarnessError{fmt.Sprintf(format, a...)} }

// Prop is one property under test.
type Prop struct {
	ID       string
	Rule     string
	Quick    int // number of random cases (all shards together)
	Thorough int
	Assume   []string
	gen      func(t *rapid.T) any
	enum     func(tier string) []any
	dec      func([]byte) (any, error)
	run      func(c any, s *Stats) error
	CLI      bool // needs the gosec binary
	Tools    bool // needs gosecutil and tlsconfig
	Race     bool // needs the gosec binary with the race detector, too
	ShrinkS  int
}

var props = map[string]*Prop{}

type propOpt func(*Prop)

func needCLI(p *Prop)             { p.CLI = true }
func needTools(p *Prop)           { p.Tools = true }
func needRace(p *Prop)            { p.CLI, p.Race = true, true }
func assume(a ...string) propOpt  { return func(p *Prop) { p.Assume = append(p.Assume, a...) } }
func shrinkSeconds(n int) propOpt { return func(p *Prop) { p.ShrinkS = n } }
func enumerate[C any](f func(tier string) []C) propOpt {
	return func(p *Prop) {
		p.enum = func(tier string) []any {
			var out []any
			for _, c := range f(tier) {
				out = append(out, c)
			}
			return out
		}
	}
}

func register[C any](id, rule string, quick, thorough int, gen func(*rapid.T) C, run func(C, *Stats) error, opts ...propOpt) {
	p := &Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough, ShrinkS: 20}
	if gen != nil {
		p.gen = func(t *rapid.T) any { return gen(t) }
	}
	p.dec = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	p.run = func(c any, s *Stats) error { return run(c.(C), s) }
	for _, o := range opts {
		o(p)
	}
	if _, dup := props[id]; dup {
		panic("duplicate property " + id)
	}
	props[id] = p
}

// runCase runs one case, guarding against panics of the code under test.
func (p *Prop) runCase(c any, s *Stats) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if isRapidPanic(r) {
				panic(r)
			}
			err = panicError(r)
		}
	}()
	return p.run(c, s)
}

func isRapidPanic(r any) bool {
	t := fmt.Sprintf("%T", r)
	return strings.HasPrefix(t, "rapid.")
}

// ---- worker ----

type workerOut struct {
	Stats     *Stats
	Failure   string // message of the violation
	Case      json.RawMessage
	HarnessEr string
	WallS     float64
}

type workerTB struct {
	failed bool
	log    strings.Builder
}

func (w *workerTB) Helper()                        {}
func (w *workerTB) Name() string                   { return "verif" }
func (w *workerTB) Logf(format string, a ...any)   { fmt.Fprintf(&w.log, format+"\n", a...) }
func (w *workerTB) Log(a ...any)                   { fmt.Fprintln(&w.log, a...) }
func (w *workerTB) Skipf(format string, a ...any)  { w.Logf(format, a...); panic(tbStop{}) }
func (w *workerTB) Skip(a ...any)                  { panic(tbStop{}) }
func (w *workerTB) SkipNow()                       { panic(tbStop{}) }
func (w *workerTB) Errorf(format string, a ...any) { w.failed = true; w.Logf(format, a...) }
func (w *workerTB) Error(a ...any)                 { w.failed = true; w.Log(a...) }
func (w *workerTB) Fatalf(format string, a ...any) {
	w.failed = true
	w.Logf(format, a...)
	panic(tbStop{})
}
func (w *workerTB) Fatal(a ...any) { w.failed = true; w.Log(a...); panic(tbStop{}) }
func (w *workerTB) FailNow()       { w.failed = true; panic(tbStop{}) }
func (w *workerTB) Fail()          { w.failed = true }
func (w *workerTB) Failed() bool   { return w.failed }

type tbStop struct{}

var caseStart atomic.Int64

// runWorker runs shard i of n and returns what it saw.
func (p *Prop) runWorker(tier string, shard, shards int, checks int, curFile string, known map[string]bool) workerOut {
	start := time.Now()
	st := newStats()
	out := workerOut{Stats: st}
	var lastFail error
	var lastCase []byte
	one := func(c any) error {
		js, err := json.Marshal(c)
		if err != nil {
			return harnessf("case does not marshal: %v", err)
		}
		// Every case goes through its serialised form, so that a replay file holds all of it.
		c2, err := p.dec(js)
		if err != nil {
			return harnessf("case does not unmarshal: %v", err)
		}
		h := sha256.Sum256(js)
		st.curKey = hex.EncodeToString(h[:8])
		st.curJSON = js
		if !st.muted {
			st.Evaluations++
		}
		if curFile != "" {
			_ = os.WriteFile(curFile, js, 0o600)
		}
		caseStart.Store(time.Now().UnixNano())
		err = p.runCase(c2, st)
		caseStart.Store(0)
		if v, ok := err.(*Violation); ok && v.Key != "" && known[v.Key] {
			st.Known[v.Key]++
			return nil
		}
		if err != nil {
			lastFail, lastCase = err, js
			st.muted = true
		}
		return err
	}
	finish := func() workerOut {
		out.WallS = time.Since(start).Seconds()
		if lastFail != nil {
			if he, ok := lastFail.(*HarnessError); ok {
				out.HarnessEr = he.Msg
				out.Case = lastCase
			} else {
				out.Failure = lastFail.Error()
				out.Case = lastCase
			}
		}
		return out
	}
	if p.enum != nil {
		for i, c := range p.enum(tier) {
			if i%shards != shard {
				continue
			}
			st.Enumerated++
			if err := one(c); err != nil {
				return finish()
			}
		}
	}
	if p.gen != nil && checks > 0 {
		tb := &workerTB{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						out.HarnessEr = fmt.Sprintf("worker panic: %v", panicError(r))
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := p.gen(t)
				if err := one(c); err != nil {
					if he, ok := err.(*HarnessError); ok {
						t.Fatalf("HARNESS %s", he.Msg)
					}
					t.Fatalf("VIOLATION")
				}
			})
		}()
		if tb.failed && lastFail == nil && out.HarnessEr == "" {
			out.HarnessEr = "generator trouble: " + tb.log.String()
		}
	}
	return finish()
}

// ---- merging and evidence ----

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func mergeStats(outs []workerOut) *Stats {
	m := newStats()
	for _, o := range outs {
		if o.Stats == nil {
			continue
		}
		m.Evaluations += o.Stats.Evaluations
		m.Enumerated += o.Stats.Enumerated
		for k := range o.Stats.Nontrivial {
			m.Nontrivial[k] = true
		}
		for k, v := range o.Stats.Labels {
			m.Labels[k] += v
		}
		for k, v := range o.Stats.Known {
			m.Known[k] += v
		}
		if len(m.Samples) < 6 && len(o.Stats.Samples) > 0 {
			m.Samples = append(m.Samples, o.Stats.Samples...)
		}
	}
	if len(m.Samples) > 6 {
		m.Samples = m.Samples[:6]
	}
	return m
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
