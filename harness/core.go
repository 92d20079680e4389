// Command harness decides the properties of /verif/properties.jsonl by
// generated-input search against explicit oracles. See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- floats

// F is a float64 that survives JSON (NaN and infinities included).
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	return []byte(`"` + strconv.FormatFloat(float64(f), 'g', -1, 64) + `"`), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	v, err := strconv.ParseFloat(strings.Trim(string(b), `"`), 64)
	*f = F(v)
	return err
}

// mix is a fixed pseudo random function used to fill bulk pixel content from
// one drawn seed.
func mix(seed uint64, i int) uint64 {
	z := seed + uint64(i+1)*0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// ---------------------------------------------------------------- sections

// Obs collects what one case covered.
type Obs struct {
	nontrivial bool
	labels     map[string]int
}

// NT marks the case as non-trivial.
func (o *Obs) NT() { o.nontrivial = true }

// Label counts the case under a class.
func (o *Obs) Label(format string, args ...any) {
	if o.labels == nil {
		o.labels = map[string]int{}
	}
	o.labels[fmt.Sprintf(format, args...)]++
}

// Section is one executable statement of a property.
type Section struct {
	Name   string
	run    func(c *Child)
	replay func(raw json.RawMessage) error
}

// Prop is one property of properties.jsonl.
type Prop struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Assume   []string
	Sections []Section
	// CrashIsViolation: a fatal death of the process (out of memory, stack
	// overflow) is within the property's statement.
	CrashIsViolation bool
	Exhaustive       bool
	Race             bool // additionally run the race-detector build
	CLI              bool // needs the radolan2png binary
}

var errDraw = errors.New("violation")

func guarded[C any](check func(C, *Obs) error, cs C, o *Obs) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()
	return check(cs, o)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func replayFn[C any](check func(C, *Obs) error) func(json.RawMessage) error {
	return func(raw json.RawMessage) error {
		var cs C
		if err := json.Unmarshal(raw, &cs); err != nil {
			fatal("cannot decode case: %v", err)
		}
		return guarded(check, cs, &Obs{})
	}
}

// Rand is a section over randomly generated cases (rapid).
func Rand[C any](name string, quick, thorough int, gen func(*rapid.T) C, check func(C, *Obs) error) Section {
	return Section{
		Name:   name,
		replay: replayFn(check),
		run: func(c *Child) {
			n := 2 * quick
			if strings.Contains("C20 C21 C22 C23", c.prop.ID) { // these start processes
				n = quick
			}
			if c.tier == "thorough" {
				n = thorough
			}
			n = (n + c.shards - 1) / c.shards
			if c.scale > 0 {
				n = int(float64(n)*c.scale) + 1
			}
			seed := seedFor(c.seed, c.prop.ID, name, c.shard)
			must(flag.Set("rapid.checks", strconv.Itoa(n)))
			must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
			tb := &fakeTB{name: c.prop.ID + "_" + name}
			func() {
				defer func() {
					if p := recover(); p != nil && p != any(errFailNow) {
						panic(p)
					}
				}()
				rapid.Check(tb, func(t *rapid.T) {
					cs := gen(t)
					if err := runCase(c, name, check, cs); err != nil {
						t.Fatalf("violation")
					}
				})
			}()
			if tb.failed && c.failure == nil {
				fatal("section %s/%s: rapid failed without a violation: %s", c.prop.ID, name, strings.Join(tb.log, "; "))
			}
		},
	}
}

// Enum is a section over an enumerated finite set of cases.
func Enum[C any](name string, enum func(tier string, yield func(C) bool), check func(C, *Obs) error) Section {
	return Section{
		Name:   name,
		replay: replayFn(check),
		run: func(c *Child) {
			i := 0
			enum(c.tier, func(cs C) bool {
				i++
				if (i-1)%c.shards != c.shard {
					return true
				}
				return runCase(c, name, check, cs) == nil
			})
		},
	}
}

func runCase[C any](c *Child, section string, check func(C, *Obs) error, cs C) error {
	raw, err := json.Marshal(cs)
	must(err)
	c.begin(section, raw)
	o := &Obs{}
	verr := guarded(check, cs, o)
	c.end()
	c.remember(section, raw, verr)
	if verr != nil {
		c.failure = &Replay{Property: c.prop.ID, Section: section, Message: verr.Error(), Case: raw}
		return verr
	}
	if c.failure != nil {
		return nil // shrinking: passing candidates are not counted
	}
	st := c.stat(section)
	st.Evaluations++
	h := fnv.New64a()
	h.Write([]byte(section))
	h.Write(raw)
	if o.nontrivial {
		c.hashes[h.Sum64()] = struct{}{}
		st.Nontrivial++
		if len(st.Samples) < 2 || (st.Nontrivial%997 == 0 && len(st.Samples) < 4) {
			st.Samples = append(st.Samples, sample(raw))
		}
	}
	for k, v := range o.labels {
		st.Labels[k] += v
	}
	return nil
}

func sample(raw []byte) string {
	if len(raw) > 400 {
		return string(raw[:400]) + "..."
	}
	return string(raw)
}

func seedFor(seed int64, id, section string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, id, section, shard)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// ---------------------------------------------------------------- rapid TB

var errFailNow = errors.New("FailNow")

type fakeTB struct {
	name   string
	failed bool
	log    []string
}

func (t *fakeTB) Helper()                  {}
func (t *fakeTB) Name() string             { return t.name }
func (t *fakeTB) Logf(string, ...any)      {}
func (t *fakeTB) Log(...any)               {}
func (t *fakeTB) Skipf(f string, a ...any) { panic("skip") }
func (t *fakeTB) Skip(...any)              { panic("skip") }
func (t *fakeTB) SkipNow()                 { panic("skip") }
func (t *fakeTB) Errorf(f string, a ...any) {
	t.failed = true
	t.log = append(t.log, fmt.Sprintf(f, a...))
}
func (t *fakeTB) Error(a ...any)            { t.failed = true; t.log = append(t.log, fmt.Sprint(a...)) }
func (t *fakeTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(errFailNow) }
func (t *fakeTB) Fatal(a ...any)            { t.Error(a...); panic(errFailNow) }
func (t *fakeTB) FailNow()                  { t.failed = true; panic(errFailNow) }
func (t *fakeTB) Fail()                     { t.failed = true }
func (t *fakeTB) Failed() bool              { return t.failed }

// ---------------------------------------------------------------- child

// Replay is the minimal reproduction of one violation.
type Replay struct {
	Property string          `json:"property"`
	Section  string          `json:"section"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Before   []Step          `json:"before,omitempty"` // cases run before it in the same process, if it takes them
}

// Step is one case of a history.
type Step struct {
	Section string          `json:"section"`
	Case    json.RawMessage `json:"case"`
}

// History is what a process did up to its first violation.
type History struct {
	First *Replay
	Steps []Step
}

// SectionStat is what one section covered.
type SectionStat struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"-"`
	SampleList  []string       `json:"samples,omitempty"`
}

// Child runs sections of one property in one process.
type Child struct {
	prop    *Prop
	tier    string
	seed    int64
	shard   int
	shards  int
	scale   float64
	stats   map[string]*SectionStat
	hashes  map[uint64]struct{}
	failure *Replay
	history History
	kept    int // bytes of history

	curFile *os.File
	mu      sync.Mutex
	busy    bool
	started float64 // process cpu seconds at the start of the case
	section string
	raw     []byte
}

func (c *Child) stat(section string) *SectionStat {
	s := c.stats[section]
	if s == nil {
		s = &SectionStat{Labels: map[string]int{}}
		c.stats[section] = s
	}
	return s
}

func (c *Child) begin(section string, raw []byte) {
	c.mu.Lock()
	c.busy, c.started, c.section, c.raw = true, cpuSeconds(), section, raw
	c.mu.Unlock()
	if c.curFile != nil {
		head := fmt.Sprintf("%-30s%12d\n", section, len(raw))
		c.curFile.WriteAt(append([]byte(head), raw...), 0)
	}
}

// remember keeps the latest cases up to the first violation.
func (c *Child) remember(section string, raw []byte, err error) {
	h := &c.history
	switch {
	case h.First != nil || c.prop.Race:
	case err != nil:
		h.First = &Replay{Property: c.prop.ID, Section: section, Message: err.Error(), Case: raw}
	default:
		h.Steps = append(h.Steps, Step{section, raw})
		c.kept += len(raw)
		for c.kept > 48<<20 {
			c.kept -= len(h.Steps[0].Case)
			h.Steps[0].Case = nil
			h.Steps = h.Steps[1:]
		}
	}
}

func (c *Child) end() {
	c.mu.Lock()
	c.busy = false
	c.mu.Unlock()
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const exitHang = 3

// watch ends the process when a single case has consumed an absurd amount of
// CPU time (not wall-clock time, so a busy machine does not matter).
func (c *Child) watch(limit float64) {
	for {
		time.Sleep(500 * time.Millisecond)
		c.mu.Lock()
		hang := c.busy && cpuSeconds()-c.started > limit
		c.mu.Unlock()
		if hang {
			fmt.Fprintf(os.Stderr, "HANG: case of section %s used more than %.0f s of CPU time\n", c.section, limit)
			os.Exit(exitHang)
		}
	}
}

// ---------------------------------------------------------------- helpers

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// fatal ends the harness with an error exit (neither pass nor violation).
func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+format+"\n", args...)
	os.Exit(2)
}

func isNaN32(f float32) bool { return f != f }

func same32(a, b float32) bool {
	return a == b || (a != a && b != b)
}

func same64(a, b float64) bool {
	return a == b || (a != a && b != b)
}

func near(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return a == b || math.Abs(a-b) <= tol
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
