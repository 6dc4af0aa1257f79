// Package kit runs facets: generated plans executed against the library, with
// shrinking, replay files, coverage counts and error classification.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"socketioverif/sim"
)

// C is the context of one case.
type C struct {
	T       *testing.T
	mu      sync.Mutex
	fails   []string
	errs    []string // harness errors
	nt      bool
	labels  map[string]int
	closers []func()
	trace   []string
	excuse  func() bool
}

type sentinel struct{}

// IsSentinel tells whether a recovered value is Failf's.
func IsSentinel(v interface{}) bool { _, ok := v.(sentinel); return ok }

// Failf ends the case with a violation. Only from the case's own goroutine.
func (c *C) Failf(format string, a ...interface{}) {
	c.Errorf(format, a...)
	panic(sentinel{})
}

// Errorf records a violation; the case goes on until it next checks. Any goroutine.
func (c *C) Errorf(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.fails) < 20 {
		c.fails = append(c.fails, clip(fmt.Sprintf(format, a...), 6000))
	}
}

// Check ends the case if a violation was recorded.
func (c *C) Check() {
	c.mu.Lock()
	n := len(c.fails) + len(c.errs)
	c.mu.Unlock()
	if n > 0 {
		panic(sentinel{})
	}
}

// Failed tells whether a violation was recorded.
func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) > 0
}

// Broken ends the case with an error of the harness (no verdict).
func (c *C) Broken(format string, a ...interface{}) {
	c.mu.Lock()
	c.errs = append(c.errs, fmt.Sprintf(format, a...))
	c.mu.Unlock()
	panic(sentinel{})
}

// NonTrivial marks the case as non-trivial.
func (c *C) NonTrivial() { c.mu.Lock(); c.nt = true; c.mu.Unlock() }

// NonTrivialIf marks the case as non-trivial under a condition.
func (c *C) NonTrivialIf(b bool) {
	if b {
		c.NonTrivial()
	}
}

// Label counts a class of cases.
func (c *C) Label(s string) {
	c.mu.Lock()
	if c.labels == nil {
		c.labels = map[string]int{}
	}
	c.labels[s]++
	c.mu.Unlock()
}

// LabelIf counts a class of cases under a condition.
func (c *C) LabelIf(b bool, s string) {
	if b {
		c.Label(s)
	}
}

// Defer registers a clean-up.
func (c *C) Defer(f func()) { c.mu.Lock(); c.closers = append(c.closers, f); c.mu.Unlock() }

// Excuse registers a condition that makes a case mean nothing, e.g. that the machine was
// too slow for a case that depends on real time. It is evaluated after a failure.
func (c *C) Excuse(f func() bool) { c.excuse = f }

// Tracef adds to the trace that a failure report carries.
func (c *C) Tracef(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.trace) < 400 {
		c.trace = append(c.trace, clip(fmt.Sprintf(format, a...), 300))
	}
	c.mu.Unlock()
}

// Await waits for cond; if it can no longer come true that is a violation.
func (c *C) Await(cond func() bool, format string, a ...interface{}) {
	o := sim.Wait(func() bool { return c.Failed() || cond() })
	c.Check()
	switch o {
	case sim.Stuck:
		c.Failf("never happens: "+format, a...)
	case sim.Unknown:
		c.hung()
		if sim.Wait(func() bool { return c.Failed() || cond() }) != sim.Reached {
			c.Failf("does not happen in %v, though the process stays busy: "+format+"\n%s", append(append([]interface{}{2 * sim.GiveUp}, a...), busyDump())...)
		}
		c.Check()
	}
}

// Reaches waits for cond and reports whether it came true; it gives up a process that stays
// busy all the same after a time that is beyond all that happens in a case.
func (c *C) Reaches(cond func() bool) bool {
	o := sim.Wait(func() bool { return c.Failed() || cond() })
	c.Check()
	if o == sim.Unknown {
		c.hung()
		o = sim.Wait(func() bool { return c.Failed() || cond() })
		c.Check()
	}
	return o == sim.Reached
}

// Quiet waits until nothing moves.
func (c *C) Quiet() {
	if sim.WaitQuiet() == sim.Unknown {
		c.hung()
		c.Broken("no verdict (process stays busy)\n%s", busyDump())
	}
	c.Check()
}

// hung ends the case with a violation if the process stays busy because of a goroutine of
// the library.
func (c *C) hung() {
	if d := sim.Hung(); d != "" {
		c.Failf("a goroutine of the library runs and runs, or waits for a lock for ever\n%s", clip(d, 4000))
	}
}

func busyDump() string {
	var b strings.Builder
	for _, g := range sim.Snapshot() {
		b.WriteString(clip(g.Stack, 700))
		b.WriteString("\n\n")
		if b.Len() > 6000 {
			break
		}
	}
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d more bytes)", len(s)-n)
	}
	return s
}

// Facet is one generated check of a property.
type Facet struct {
	Name     string
	Rule     string
	Quick    int
	Thorough int
	gen      func(*rapid.T) interface{}
	load     func([]byte) (interface{}, error)
	run      func(*C, interface{})
	virtual  bool
	repeat   int
}

var facets = map[string][]*Facet{}

// Add registers a facet of a property.
func Add[P any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) P, run func(*C, P)) *Facet {
	f := &Facet{Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) interface{} { return gen(t) },
		load: func(b []byte) (interface{}, error) {
			var p P
			err := json.Unmarshal(b, &p)
			return p, err
		},
		run: func(c *C, p interface{}) { run(c, p.(P)) }, repeat: 1}
	facets[prop] = append(facets[prop], f)
	return f
}

// OnVirtualTime runs the cases inside a synctest bubble.
func (f *Facet) OnVirtualTime() *Facet { f.virtual = true; return f }

// Repeat runs every case n times (for schedule-dependent facets).
func (f *Facet) Repeat(n int) *Facet { f.repeat = n; return f }

// Stats is what a run covered.
type Stats struct {
	Facet    string            `json:"facet"`
	Rule     string            `json:"rule"`
	Evals    int               `json:"evaluations"`
	Distinct map[string]bool   `json:"hashes"`
	Labels   map[string]int    `json:"labels"`
	Samples  []json.RawMessage `json:"samples"`
	Wall     float64           `json:"wall_s"`
	Skipped  int               `json:"skipped_for_time"`
}

// Replay is a replay file.
type Replay struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Messages []string        `json:"messages,omitempty"`
	Trace    []string        `json:"trace,omitempty"`
	Seed     int             `json:"seed,omitempty"`
	Plan     json.RawMessage `json:"plan"`
}

// ExitHarness is the exit status for "no verdict".
const ExitHarness = 3

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Println("HARNESS-ERROR:", err)
		os.Exit(ExitHarness)
	}
}

// one executes one plan; it returns violations and harness errors.
func (f *Facet) one(t *testing.T, plan interface{}) (c *C) {
	c = &C{T: t}
	body := func(t *testing.T) {
		c.T = t
		defer func() {
			// clean-ups always run, newest first
			if len(c.fails) > 0 && c.excuse != nil && c.excuse() {
				c.fails = nil
				c.Label("excused")
			}
			for i := len(c.closers) - 1; i >= 0; i-- {
				c.closers[i]()
			}
		}()
		func() {
			defer func() {
				if v := recover(); v != nil {
					if _, ok := v.(sentinel); ok {
						return
					}
					st := string(debug.Stack())
					if libraryPanic(st) {
						c.Errorf("panic in the library: %v\n%s", v, st)
					} else {
						c.mu.Lock()
						c.errs = append(c.errs, fmt.Sprintf("panic in the harness: %v\n%s", v, st))
						c.mu.Unlock()
					}
				}
			}()
			f.run(c, plan)
		}()
	}
	if !f.virtual {
		body(t)
		return c
	}
	sim.Virtual = true
	defer func() { sim.Virtual = false }()
	func() {
		defer func() {
			if v := recover(); v != nil {
				s := fmt.Sprint(v)
				if strings.Contains(s, "deadlock") {
					c.Errorf("goroutines left blocked for ever after the case: %s\n%s", s, libDump())
				} else {
					c.mu.Lock()
					c.errs = append(c.errs, fmt.Sprintf("bubble: %v\n%s", v, debug.Stack()))
					c.mu.Unlock()
				}
			}
		}()
		synctest.Test(t, body)
	}()
	return c
}

func libDump() string {
	var b strings.Builder
	for _, g := range sim.LibGoroutines() {
		b.WriteString(clip(g.Stack, 800) + "\n\n")
		if b.Len() > 4000 {
			break
		}
	}
	return b.String()
}

// libraryPanic: does the panic come from the library (the panicking frame is not ours)?
func libraryPanic(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "github.com/zyxar/socketio") {
			return true
		}
		if strings.HasPrefix(l, "socketioverif/") {
			return false
		}
	}
	return false
}

// Main runs the facets of the property named in VERIF_PROP.
func Main(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP not set")
	}
	log.SetOutput(io.Discard)
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		dir = os.TempDir()
	}
	fs := facets[prop]
	if len(fs) == 0 {
		fmt.Println("HARNESS-ERROR: no facets for", prop)
		os.Exit(ExitHarness)
	}
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		replay(t, prop, fs, rp)
		return
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	only := os.Getenv("VERIF_FACET")
	budget := time.Duration(envInt("VERIF_BUDGET_S", 600)) * time.Second
	shards := envInt("VERIF_SHARDS", 1)
	start := time.Now()
	var all []*Stats
	for i, f := range fs {
		if only != "" && f.Name != only {
			continue
		}
		n := f.Quick
		if thorough {
			n = f.Thorough
		}
		n = (n + shards - 1) / shards
		if m := envInt("VERIF_CASES", 0); m > 0 {
			n = m
		}
		// a share of the remaining time for each remaining facet
		share := (budget - time.Since(start)) / time.Duration(len(fs)-i)
		st := f.explore(t, prop, n, time.Now().Add(share*2), dir)
		all = append(all, st)
		writeJSON(filepath.Join(dir, "stats.json"), all)
		if t.Failed() {
			return
		}
	}
}

func (f *Facet) explore(t *testing.T, prop string, n int, deadline time.Time, dir string) *Stats {
	st := &Stats{Facet: f.Name, Rule: f.Rule, Distinct: map[string]bool{}, Labels: map[string]int{}}
	begin := time.Now()
	defer func() { st.Wall = time.Since(begin).Seconds() }()
	os.Setenv("RAPID_CHECKS", "")
	setFlag("rapid.checks", strconv.Itoa(n))
	var best *Replay
	failing := false
	bestLen := 0
	var slowest time.Duration
	var now atomic.Pointer[running]
	stop := make(chan struct{})
	defer close(stop)
	go watch(&now, stop, filepath.Join(dir, "violation.json"))
	t.Run(f.Name, func(t *testing.T) {
		defer func() {
			if best != nil {
				writeJSON(filepath.Join(dir, "violation.json"), best)
				if !t.Failed() {
					t.Fail()
				}
			}
		}()
		outer := t
		rapid.Check(t, func(rt *rapid.T) {
			if !failing && time.Now().After(deadline) {
				st.Skipped++
				return
			}
			plan := f.gen(rt)
			b, err := json.Marshal(plan)
			if err != nil {
				fmt.Println("HARNESS-ERROR: plan:", err)
				os.Exit(ExitHarness)
			}
			rep := &Replay{Property: prop, Facet: f.Name, Plan: b}
			writeJSON(filepath.Join(dir, "journal.json"), rep)
			if !failing {
				st.Evals++
				if len(st.Samples) < 3 && st.Evals%(1+n/3) == n/6+1 || len(st.Samples) == 0 && st.Evals == n/8+1 {
					st.Samples = append(st.Samples, sample(b))
				}
			}
			rr := f.repeat
			if failing {
				rr *= 3
			}
			for k := 0; k < rr; k++ {
				// the plan is decoded anew so that a case cannot depend on anything else
				p2, err := f.load(b)
				if err != nil {
					fmt.Println("HARNESS-ERROR: plan:", err)
					os.Exit(ExitHarness)
				}
				t1 := time.Now()
				now.Store(&running{t1, rep})
				c := f.one(outer, p2)
				now.Store(nil)
				if d := time.Since(t1); d > slowest {
					slowest = d
					if os.Getenv("VERIF_SLOW") != "" {
						fmt.Printf("slow: %v %s\n", d, clip(string(b), 3000))
					}
				}
				if len(c.errs) > 0 && len(c.fails) == 0 {
					fmt.Printf("HARNESS-ERROR: facet %s: %s\nplan: %s\n", f.Name, strings.Join(c.errs, "\n"), clip(string(b), 4000))
					os.Exit(ExitHarness)
				}
				if !failing && k == 0 {
					for l, m := range c.labels {
						_ = m
						st.Labels[l]++
					}
					if c.nt {
						h := fnv.New64a()
						h.Write(b)
						st.Distinct[strconv.FormatUint(h.Sum64(), 36)] = true
					}
				}
				if len(c.fails) > 0 {
					failing = true
					if best == nil || len(b) < bestLen {
						rep.Messages, rep.Trace = c.fails, c.trace
						best, bestLen = rep, len(b)
						// written at once: a later crash must not lose it
						writeJSON(filepath.Join(dir, "violation.json"), best)
					}
					rt.Fatalf("violation")
				}
			}
		})
	})
	return st
}

// running is the case that runs.
type running struct {
	since time.Time
	rep   *Replay
}

// watch looks after cases that take very long: on virtual time a goroutine of the library
// that spins, or a lock that is never released, stops the case without a verdict.
func watch(now *atomic.Pointer[running], stop chan struct{}, out string) {
	tick := time.NewTicker(5 * time.Second)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		r := now.Load()
		if r == nil || time.Since(r.since) < 100*time.Second {
			continue
		}
		d := sim.Hung()
		if d == "" || now.Load() != r {
			continue
		}
		v := *r.rep
		v.Messages = []string{"the case does not end: a goroutine of the library runs and runs, or waits for a lock for ever\n" + clip(d, 4000)}
		writeJSON(out, &v)
		fmt.Println("hung:", v.Messages[0])
		os.Exit(1)
	}
}

func sample(b []byte) json.RawMessage {
	if len(b) <= 1500 {
		return b
	}
	q, _ := json.Marshal(string(b[:1500]) + "...")
	return q
}

func replay(t *testing.T, prop string, fs []*Facet, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("HARNESS-ERROR:", err)
		os.Exit(ExitHarness)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println("HARNESS-ERROR:", err)
		os.Exit(ExitHarness)
	}
	for _, f := range fs {
		if f.Name != r.Facet {
			continue
		}
		n := envInt("VERIF_REPEAT", 20)
		var now atomic.Pointer[running]
		stop := make(chan struct{})
		defer close(stop)
		go watch(&now, stop, filepath.Join(os.TempDir(), "violation.json"))
		for i := 0; i < n; i++ {
			p, err := f.load(r.Plan)
			if err != nil {
				fmt.Println("HARNESS-ERROR:", err)
				os.Exit(ExitHarness)
			}
			now.Store(&running{time.Now(), &r})
			c := f.one(t, p)
			now.Store(nil)
			if len(c.fails) > 0 {
				fmt.Printf("attempt %d: %s\n", i+1, strings.Join(c.fails, "\n"))
				if len(c.trace) > 0 {
					fmt.Println("trace:\n  " + strings.Join(c.trace, "\n  "))
				}
				t.Fatal("violation reproduced")
			}
			if len(c.errs) > 0 {
				fmt.Println("HARNESS-ERROR:", strings.Join(c.errs, "\n"))
				os.Exit(ExitHarness)
			}
		}
		fmt.Printf("not reproduced in %d attempts\n", n)
		return
	}
	fmt.Println("HARNESS-ERROR: no facet", r.Facet)
	os.Exit(ExitHarness)
}

// Names lists the properties with facets.
func Names() []string {
	var out []string
	for k := range facets {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
