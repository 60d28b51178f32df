// Package pbt is the small driver around pgregory.net/rapid that every check in
// /verif uses: it registers facets (a generator, a non-triviality rule and an
// oracle), runs them from a pinned seed, shrinks failures to a JSON case that
// is replayed without the library, and counts what was generated.
package pbt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	_ "time/tzdata"

	"pgregory.net/rapid"
)

// B is a byte string that survives JSON (as a Go-quoted string).
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(latin(b)))
}

func latin(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		sb.WriteRune(rune(c))
	}
	return sb.String()
}

func (b *B) UnmarshalJSON(p []byte) error {
	var s string
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	if err != nil {
		return err
	}
	*b = make([]byte, 0, len(u))
	for _, r := range u {
		*b = append(*b, byte(r))
	}
	return nil
}

// Facet is one generated check that contributes to deciding a property.
type Facet struct {
	Prop, Name, Rule string
	Quick, Thorough  int
	Enumerated       bool
	Race             bool // needs the race detector
	run              func(w *Worker)
	replay           func(raw json.RawMessage) error
}

var (
	facets []*Facet
	byName = map[string]*Facet{}
)

// Facets returns the facets of a property in registration order.
func Facets(prop string) []*Facet {
	var out []*Facet
	for _, f := range facets {
		if f.Prop == prop {
			out = append(out, f)
		}
	}
	return out
}

// Props returns all property ids with at least one facet.
func Props() []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range facets {
		if !seen[f.Prop] {
			seen[f.Prop] = true
			out = append(out, f.Prop)
		}
	}
	sort.Strings(out)
	return out
}

// Lookup finds a facet by property and name.
func Lookup(prop, name string) *Facet { return byName[prop+"/"+name] }

func register(f *Facet) {
	key := f.Prop + "/" + f.Name
	if byName[key] != nil {
		panic("duplicate facet " + key)
	}
	byName[key] = f
	facets = append(facets, f)
}

// Replay runs the oracle of the facet on a saved case, without rapid.
func (f *Facet) Replay(raw json.RawMessage) error { return f.replay(raw) }

// Run executes the facet in this process.
func (f *Facet) Run(w *Worker) { f.run(w) }

// Spec describes a generated facet.
type Spec[T any] struct {
	Prop, Name string
	// Rule says how a case is made and what makes one non-trivial.
	Rule            string
	Quick, Thorough int
	Race            bool // run with the race detector
	Gen             func(*rapid.T) T
	// Classify returns the labels of the interesting classes the case is in; a
	// case without a label is trivial.
	Classify func(T) []string
	Check    func(T) error
}

// Add registers a generated facet.
func Add[T any](s Spec[T]) {
	f := &Facet{Prop: s.Prop, Name: s.Name, Rule: s.Rule, Quick: s.Quick, Thorough: s.Thorough, Race: s.Race}
	f.replay = func(raw json.RawMessage) error {
		var c T
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("harness: cannot decode case: %v", err)
		}
		return inZone(mustJSON(c), func() error { return s.Check(c) })
	}
	f.run = func(w *Worker) {
		tb := &fakeTB{name: s.Prop + "_" + s.Name}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(failNow); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := s.Gen(t)
				raw := mustJSON(c)
				w.begin(raw, s.Classify(c))
				err := inZone(raw, func() error { return s.Check(c) })
				w.end()
				if err != nil {
					w.fail(raw, err)
					t.Fatalf("violation")
				}
			})
		}()
		w.Res.Log = tb.log()
		if tb.failed.Load() && w.Res.FailCase == nil {
			w.Res.HarnessError = "rapid reported a failure without a failing case: " + tb.log()
		}
	}
	register(f)
}

// EnumSpec describes a facet that walks a finite space completely.
type EnumSpec[T any] struct {
	Prop, Name, Rule string
	// Enum yields every case; thorough says whether the deep tier runs.
	Enum     func(thorough bool, yield func(T) bool)
	Classify func(T) []string
	Check    func(T) error
}

// AddEnum registers an enumerated facet.
func AddEnum[T any](s EnumSpec[T]) {
	f := &Facet{Prop: s.Prop, Name: s.Name, Rule: s.Rule, Enumerated: true, Quick: 1, Thorough: 1}
	f.replay = func(raw json.RawMessage) error {
		var c T
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("harness: cannot decode case: %v", err)
		}
		return inZone(mustJSON(c), func() error { return s.Check(c) })
	}
	f.run = func(w *Worker) {
		s.Enum(w.Thorough, func(c T) bool {
			raw := mustJSON(c)
			w.begin(raw, s.Classify(c))
			err := inZone(raw, func() error { return s.Check(c) })
			w.end()
			if err != nil {
				w.fail(raw, err)
				return false
			}
			return true
		})
	}
	register(f)
}

func mustJSON(v any) json.RawMessage {
	raw, err := json.Marshal(v)
	if err != nil {
		panic(fmt.Sprintf("harness: case not serialisable: %v", err))
	}
	return raw
}

// PanicError is a panic of the code under test, as an error.
type PanicError struct {
	Val   string
	Stack string
}

func (p *PanicError) Error() string { return "panic: " + p.Val + "\n" + p.Stack }

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = &PanicError{fmt.Sprint(r), trimStack(string(debug.Stack()))}
		}
	}()
	return f()
}

var zones = func() []*time.Location {
	out := []*time.Location{time.UTC, time.FixedZone("", 14*3600), time.FixedZone("", -12*3600)}
	for _, n := range []string{"Europe/Berlin", "Europe/Berlin", "America/Sao_Paulo", "Asia/Kathmandu", "Africa/Monrovia"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		out = append(out, l)
	}
	return out
}()

// inZone guards f, which runs in a local time zone that depends on nothing but
// the case, so that a replay runs in the same one.
func inZone(raw json.RawMessage, f func() error) error {
	if Race { // the watchdog reads the clock
		return guard(f)
	}
	h := fnv.New32a()
	h.Write(raw)
	local := time.Local
	defer func() { time.Local = local }()
	time.Local = zones[h.Sum32()%uint32(len(zones))]
	return guard(f)
}

// Guard runs f and turns a panic into an error.
func Guard(f func() error) error { return guard(f) }

// NoPanic runs f and reports a panic as an error.
func NoPanic(f func()) error {
	return guard(func() error { f(); return nil })
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "/repo/") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) == 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Result is what one worker reports.
type Result struct {
	Facet        string
	Evaluations  int
	Nontrivial   []uint64
	Classes      map[string]int
	Notes        map[string]int
	Samples      []json.RawMessage
	FailCase     json.RawMessage `json:",omitempty"`
	FailErr      string
	HarnessError string
	Log          string
}

// Worker runs one facet in one process.
type Worker struct {
	Res      *Result
	Thorough bool
	Journal  string
	// watchdog state
	seq     atomic.Int64
	mu      sync.Mutex
	current json.RawMessage

	seen    map[uint64]struct{}
	failing bool
}

var active *Worker

// NewWorker makes a worker.
func NewWorker(facet string, thorough bool, journal string) *Worker {
	w := &Worker{Res: &Result{Facet: facet, Classes: map[string]int{}, Notes: map[string]int{}}, Thorough: thorough, Journal: journal, seen: map[uint64]struct{}{}}
	active = w
	return w
}

// Note counts an observation made while a case ran (e.g. "decoded").
func Note(label string) {
	if active != nil && !active.failing {
		active.Res.Notes[label]++
	}
}

func (w *Worker) begin(raw json.RawMessage, labels []string) {
	w.mu.Lock()
	w.current = raw
	w.mu.Unlock()
	w.seq.Add(1)
	if w.Journal != "" {
		os.WriteFile(w.Journal, raw, 0o644)
	}
	if w.failing { // shrinking: do not count
		return
	}
	w.Res.Evaluations++
	if len(labels) == 0 {
		return
	}
	for _, l := range labels {
		w.Res.Classes[l]++
	}
	h := fnv.New64a()
	h.Write(raw)
	k := h.Sum64()
	if _, ok := w.seen[k]; !ok {
		w.seen[k] = struct{}{}
		n := len(w.seen)
		if (n == 3 || n == 40 || n == 400) && len(raw) < 4000 {
			w.Res.Samples = append(w.Res.Samples, raw)
		}
	}
}

func (w *Worker) end() {
	w.mu.Lock()
	w.current = nil
	w.mu.Unlock()
	w.seq.Add(1)
}

// Current returns the sequence number and the case being evaluated.
func (w *Worker) Current() (int64, json.RawMessage) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.seq.Load(), w.current
}

func (w *Worker) fail(raw json.RawMessage, err error) {
	w.failing = true
	w.Res.FailCase = raw
	w.Res.FailErr = err.Error()
}

// Finish fills in the merged sets.
func (w *Worker) Finish() {
	for k := range w.seen {
		w.Res.Nontrivial = append(w.Res.Nontrivial, k)
	}
}

type failNow struct{}

type fakeTB struct {
	name   string
	failed atomic.Bool
	mu     sync.Mutex
	lines  []string
}

func (f *fakeTB) add(s string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.lines) < 200 {
		f.lines = append(f.lines, s)
	}
}
func (f *fakeTB) log() string                     { return strings.Join(f.lines, "\n") }
func (f *fakeTB) Helper()                         {}
func (f *fakeTB) Name() string                    { return f.name }
func (f *fakeTB) Logf(format string, args ...any) { f.add(fmt.Sprintf(format, args...)) }
func (f *fakeTB) Log(args ...any)                 { f.add(fmt.Sprint(args...)) }
func (f *fakeTB) Skipf(string, ...any)            { panic("skip outside of a case") }
func (f *fakeTB) Skip(...any)                     { panic("skip outside of a case") }
func (f *fakeTB) SkipNow()                        { panic("skip outside of a case") }
func (f *fakeTB) Errorf(format string, args ...any) {
	f.failed.Store(true)
	f.add(fmt.Sprintf(format, args...))
}
func (f *fakeTB) Error(args ...any) { f.failed.Store(true); f.add(fmt.Sprint(args...)) }
func (f *fakeTB) Fatalf(format string, args ...any) {
	f.Errorf(format, args...)
	panic(failNow{})
}
func (f *fakeTB) Fatal(args ...any) { f.Error(args...); panic(failNow{}) }
func (f *fakeTB) FailNow()          { f.failed.Store(true); panic(failNow{}) }
func (f *fakeTB) Fail()             { f.failed.Store(true) }
func (f *fakeTB) Failed() bool      { return f.failed.Load() }

// One evaluates a single saved case under the watchdog.
func (w *Worker) One(f *Facet, raw json.RawMessage) error {
	w.begin(raw, []string{"replay"})
	defer w.end()
	return f.Replay(raw)
}
