package sim

import (
	"bytes"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Outcome of waiting for a condition.
type Outcome int

// The outcomes: the condition came true; nothing in the process can make it true any
// more; neither could be established.
const (
	Reached Outcome = iota
	Stuck
	Unknown
)

var (
	// StuckAfter is how long the process must stay quiescent to be called stuck.
	StuckAfter = 200 * time.Millisecond
	// GiveUp is how long a busy process is waited for.
	GiveUp = 60 * time.Second
	// IOBlocked makes network waits count as blocked (real sockets: see StuckAfter).
	IOBlocked = false
	// Virtual is set inside a synctest bubble.
	Virtual = false
)

var stackBuf []byte
var stackMu sync.Mutex

// Goroutine is one entry of a snapshot.
type Goroutine struct {
	ID    string
	State string
	Stack string
}

// Snapshot lists all goroutines but the caller's.
func Snapshot() []Goroutine {
	stackMu.Lock()
	defer stackMu.Unlock()
	if stackBuf == nil {
		stackBuf = make([]byte, 1<<20)
	}
	n := runtime.Stack(stackBuf, true)
	for n == len(stackBuf) {
		stackBuf = make([]byte, 2*len(stackBuf))
		n = runtime.Stack(stackBuf, true)
	}
	var out []Goroutine
	first := true
	for _, blk := range bytes.Split(stackBuf[:n], []byte("\n\n")) {
		if first {
			first = false
			continue
		}
		s := string(blk)
		if !strings.HasPrefix(s, "goroutine ") {
			continue
		}
		i := strings.IndexByte(s, '[')
		j := strings.IndexByte(s, ']')
		if i < 0 || j < i {
			continue
		}
		st := s[i+1 : j]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		if k := strings.Index(st, " ("); k >= 0 {
			st = st[:k]
		}
		out = append(out, Goroutine{ID: strings.TrimSpace(s[len("goroutine "):i]), State: st, Stack: s})
	}
	return out
}

// blocked tells whether a goroutine in this state can only be moved by another one.
func blocked(g Goroutine) bool {
	switch g.State {
	case "chan receive", "chan send", "select", "semacquire", "chan receive (nil chan)",
		"chan send (nil chan)", "select (no cases)", "sync.Cond.Wait", "sync.Mutex.Lock",
		"sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "finalizer wait",
		"cleanup wait", "debug call", "force gc (idle)", "GC worker (idle)", "GC sweep wait", "GC scavenge wait",
		"synctest.Run", "synctest.Wait":
		return true
	case "IO wait":
		return IOBlocked
	}
	return strings.Contains(g.Stack, "os/signal.")
}

// Quiescent takes a snapshot and tells whether every other goroutine is blocked.
func Quiescent() bool {
	for _, g := range Snapshot() {
		if !blocked(g) {
			return false
		}
	}
	return true
}

// Wait waits until cond holds or can no longer come true. On virtual time it advances
// nothing: it lets everything runnable run and looks once.
func Wait(cond func() bool) Outcome {
	if Virtual {
		synctest.Wait()
		if cond() {
			return Reached
		}
		return Stuck
	}
	start := time.Now()
	var quiet time.Time
	next := 0
	for i := 0; ; i++ {
		if cond() {
			return Reached
		}
		switch {
		case i < 30:
			runtime.Gosched()
			continue
		case i < 60:
			time.Sleep(20 * time.Microsecond)
			continue
		default:
			time.Sleep(time.Millisecond)
		}
		next++
		if next < 10 && quiet.IsZero() {
			continue
		}
		next = 0
		if Quiescent() {
			if cond() {
				return Reached
			}
			if quiet.IsZero() {
				quiet = time.Now()
			} else if time.Since(quiet) >= StuckAfter {
				return Stuck
			}
		} else {
			quiet = time.Time{}
			if time.Since(start) > GiveUp {
				return Unknown
			}
		}
	}
}

// WaitQuiet waits until nothing can move any more (or, on virtual time, until everything
// is blocked).
func WaitQuiet() Outcome {
	if Virtual {
		synctest.Wait()
		return Reached
	}
	start := time.Now()
	runs := 0
	for i := 0; ; i++ {
		if Quiescent() {
			if runs++; runs >= 3 {
				return Reached
			}
			time.Sleep(200 * time.Microsecond)
			continue
		}
		runs = 0
		if time.Since(start) > GiveUp {
			return Unknown
		}
		if i < 20 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

// LibGoroutines returns the goroutines running the library under test.
func LibGoroutines() []Goroutine {
	var out []Goroutine
	for _, g := range Snapshot() {
		if strings.Contains(g.Stack, "github.com/zyxar/socketio") {
			out = append(out, g)
		}
	}
	return out
}

// Hung looks for goroutines of the library that run, or wait for a lock, all the time it
// looks, and returns their stacks.
func Hung() string {
	const looks = 8
	seen := map[string]int{}
	last := map[string]string{}
	for i := 0; i < looks; i++ {
		if i > 0 {
			time.Sleep(400 * time.Millisecond)
		}
		for _, g := range Snapshot() {
			switch g.State {
			case "running", "runnable", "GC assist wait", "GC assist marking", "preempted", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
				if inLibrary(g.Stack) {
					seen[g.ID]++
					last[g.ID] = g.Stack
				}
			}
		}
	}
	var out []string
	for id, n := range seen {
		if n == looks {
			out = append(out, last[id])
		}
	}
	return strings.Join(out, "\n\n")
}

// inLibrary tells whether the innermost function of the library or the harness belongs to
// the library.
func inLibrary(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/zyxar/socketio") {
			return true
		}
		if strings.HasPrefix(l, "socketioverif/") {
			return false
		}
	}
	return false
}
