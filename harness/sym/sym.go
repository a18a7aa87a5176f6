// Package sym is the interface between a harness and the checker.
//
// Under the symbolic engine every function below is intercepted: inputs become
// solver variables, Assume constrains them, Assert becomes a query. Compiled
// natively (this source), the same harness replays a counterexample: inputs
// come from the recorded assignment and time is the bubble's fake clock.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/chanjarster/gears/zzverif/vs"
)

// Val is one recorded input.
type Val struct {
	Name string
	Kind string
	V    int64
	B    []byte
}

type replay struct {
	Inputs []Val
	Params map[string]int
	Label  string
	Kind   string
	Sched  []vs.Step
}

var (
	sched  []vs.Step
	mu     sync.Mutex
	rec    map[string][]Val
	params map[string]int
	// Failed collects violated assertions.
	Failed []string
	// Diverged is set when the run does not follow the recording.
	Diverged string
	ghost    sync.Mutex
)

type stopRun struct{ msg string }

// IsStop reports whether a recovered value ends a replay deliberately.
func IsStop(x interface{}) (string, bool) {
	s, ok := x.(stopRun)
	return s.msg, ok
}

// LoadFile prepares a replay.
func LoadFile(name string) (kind, label string) {
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	rec = map[string][]Val{}
	for _, v := range r.Inputs {
		rec[v.Name] = append(rec[v.Name], v)
	}
	params = r.Params
	sched = r.Sched
	return r.Kind, r.Label
}

// Start begins driving the recorded schedule, if there is one.
func Start() { vs.Start(sched) }

// Divergence tells whether the run left the recording.
func Divergence() string {
	if Diverged != "" {
		return Diverged
	}
	return vs.Diverged()
}

func next(name string) Val {
	mu.Lock()
	defer mu.Unlock()
	q := rec[name]
	if len(q) == 0 {
		return Val{Name: name}
	}
	rec[name] = q[1:]
	return q[0]
}

func Bool(name string) bool                 { return next(name).V != 0 }
func Int(name string, lo, hi int) int       { return int(clamp(next(name).V, int64(lo), int64(hi))) }
func Int64(name string, lo, hi int64) int64 { return clamp(next(name).V, lo, hi) }
func Byte(name string) byte                 { return byte(next(name).V) }
func Duration(name string, lo, hi time.Duration) time.Duration {
	return time.Duration(clamp(next(name).V, int64(lo), int64(hi)))
}

func clamp(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// String is an arbitrary byte string of length n.
func String(name string, n int) string {
	b := next(name).B
	for len(b) < n {
		b = append(b, 0)
	}
	return string(b[:n])
}

// StringUpTo is an arbitrary byte string whose length lies in [lo,hi].
func StringUpTo(name string, lo, hi int) string {
	b := next(name).B
	for len(b) < lo {
		b = append(b, 0)
	}
	return string(b)
}

// Choose explores each of 0..n-1.
func Choose(name string, n int) int { return int(clamp(next(name).V, 0, int64(n-1))) }

// Concrete explores every feasible value of x separately.
func Concrete(x int) int { return x }

func Assume(c bool) {
	if !c {
		mu.Lock()
		if Diverged == "" {
			Diverged = "assumption does not hold in the replay"
		}
		mu.Unlock()
		panic(stopRun{"assume"})
	}
}

func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		Failed = append(Failed, label)
		mu.Unlock()
		fmt.Println("REPLAY-FAIL assert:", label)
	}
}

func Fail(label string) { Assert(false, label) }

// Cover marks a point that must be reachable (vacuity guard).
func Cover(label string) {}

// Now is the current instant in nanoseconds since the Unix epoch.
func Now() int64 { return time.Now().UnixNano() }

// Advance lets time pass.
func Advance(d time.Duration) { time.Sleep(d) }

// AutoClock makes every reading of the clock arbitrary (non-decreasing).
func AutoClock() {}

// Param is a bound that differs between tiers.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// Symbolic reports whether the engine interprets the harness.
func Symbolic() bool { return false }

func Setenv(k, v string) { os.Setenv(k, v) }

// OnExit makes calls of os.Exit in the repository call f instead (in the engine, replace os.Exit).
func OnExit(f func(code int)) { vs.OnExit = f }

// Ghost runs harness bookkeeping as one atomic, scheduled step.
func Ghost(f func()) {
	ghost.Lock()
	defer ghost.Unlock()
	f()
}

func Yield() {}

// Quiesce waits until no other goroutine can make progress.
func Quiesce() { vs.Quiesce() }

// Goroutines counts the other live goroutines of the harness (engine only).
func Goroutines() int { return 0 }

func Eq(a, b string) bool    { return a == b }
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}
func Trace(name string, v interface{}) {}

// Unsupported ends the run: the harness cannot model what the code asks for.
func Unsupported(msg string) {
	mu.Lock()
	if Diverged == "" {
		Diverged = "unsupported: " + msg
	}
	mu.Unlock()
	panic(stopRun{"unsupported: " + msg})
}
