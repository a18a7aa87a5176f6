//go:build go1.18

// Package vs drives a recorded schedule against the real, compiled code. The
// replayer inserts a call of Point (or one of the wrappers below) before every
// visible operation; a controller then lets one goroutine at a time proceed, in
// the recorded order. Everything happens in a testing/synctest bubble, so that
// "every other goroutine is blocked" is observable and time is under control.
package vs

import (
	"bytes"
	"fmt"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Step is one recorded scheduling step.
type Step struct {
	G    int
	What string
	Pos  string
	At   int64
	Case int
}

type gor struct {
	id   int
	at   string // where it waits
	wait chan int
	done bool
	sel  int
	gate bool
}

var (
	mu     sync.Mutex
	active bool
	byGoid = map[int64]*gor{}
	byID   = map[int]*gor{}
	nextID = 1
	steps  []Step
	stop   chan struct{}
	note   string
)

// OnExit takes the place of os.Exit if set.
var OnExit func(code int)

// Exit is what the repository's calls of os.Exit call.
func Exit(f func(int)) func(int) {
	if OnExit != nil {
		return OnExit
	}
	return f
}

// Diverged tells where the run left the recording ("" if nowhere).
func Diverged() string { return note }

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	x, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return x
}

func self() *gor {
	mu.Lock()
	defer mu.Unlock()
	if !active {
		return nil
	}
	return byGoid[goid()]
}

// Start begins driving; the caller becomes goroutine 0.
func Start(s []Step) {
	if len(s) == 0 {
		return
	}
	steps = s
	g := &gor{id: 0, wait: make(chan int)}
	byGoid[goid()] = g
	byID[0] = g
	active = true
	go control()
}

func norm(pos string) string {
	if pos == "" || pos == "-" {
		return ""
	}
	p := strings.Split(pos, ":")
	if len(p) < 2 {
		return pos
	}
	return filepath.Base(p[0]) + ":" + p[1]
}

func control() {
	for i := 0; i < len(steps); i++ {
		s := steps[i]
		at := s.At
		if s.What == "timer" && i+1 < len(steps) {
			at = steps[i+1].At
		}
		settle()
		if s.What == "timer" {
			sleepTo(at)
			settle()
			continue
		}
		want := norm(s.Pos)
		ok := false
		for try := 0; try < 12; try++ {
			mu.Lock()
			g := byID[s.G]
			var here string
			if g != nil {
				here = g.at
			}
			mu.Unlock()
			if g == nil || g.done {
				break
			}
			if here == "" {
				// asleep or blocked: let time pass
				if time.Now().UnixNano() >= at {
					break
				}
				sleepTo(at)
				settle()
				continue
			}
			if want == "" || here == want || s.What == "quiesce" {
				sleepTo(at)
				settle()
				ok = true
				grant(g, s.Case)
				break
			}
			later := false
			for _, x := range steps[i+1:] {
				if x.G == s.G && norm(x.Pos) == here {
					later = true
				}
			}
			if later {
				ok = true // a step without a counterpart here
				break
			}
			grant(g, 0)
			settle()
		}
		if !ok && note == "" && want != "" {
			note = fmt.Sprintf("step %d: goroutine %d is not at %s", i, s.G, want)
		}
		if s.What == "advance" || s.What == "sleep" {
			if i+1 < len(steps) {
				settle()
				sleepTo(steps[i+1].At)
			}
		}
	}
	settle()
	mu.Lock()
	active = false
	var ws []*gor
	for _, g := range byID {
		if g.at != "" {
			ws = append(ws, g)
		}
	}
	mu.Unlock()
	for _, g := range ws {
		grant(g, 0)
	}
}

func sleepTo(at int64) {
	if d := at - time.Now().UnixNano(); at != 0 && d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// settle waits until every goroutine is blocked, starting new ones in order.
func settle() {
	for {
		synctest.Wait()
		mu.Lock()
		var next *gor
		for _, g := range byID {
			if g.gate && (next == nil || g.id < next.id) {
				next = g
			}
		}
		mu.Unlock()
		if next == nil {
			return
		}
		mu.Lock()
		next.gate = false
		mu.Unlock()
		next.wait <- 0
	}
}

func grant(g *gor, c int) {
	mu.Lock()
	g.at = ""
	mu.Unlock()
	g.wait <- c
}

func point(g *gor, id string) int {
	mu.Lock()
	if !active {
		mu.Unlock()
		return 0
	}
	g.at = id
	mu.Unlock()
	return <-g.wait
}

// Point is a scheduling point.
func Point(id string) {
	if g := self(); g != nil {
		point(g, id)
	}
}

// At is a scheduling point in the middle of an expression.
func At[T any](id string, v T) T {
	Point(id)
	return v
}

// Sel wraps the channel of case i of a select: only the recorded case stays enabled.
func Sel[C any](id string, i int, first bool, c C) C {
	g := self()
	if g == nil {
		return c
	}
	if first {
		g.sel = point(g, id)
	}
	if g.sel != 0 && g.sel != i+1 {
		var zero C
		return zero
	}
	return c
}

// Go wraps the function of a go statement.
func Go[F any](f F) F {
	mu.Lock()
	if !active {
		mu.Unlock()
		return f
	}
	id := nextID
	nextID++
	g := &gor{id: id, wait: make(chan int), gate: true}
	byID[id] = g
	mu.Unlock()
	return wrap(f, func() func() {
		mu.Lock()
		byGoid[goid()] = g
		mu.Unlock()
		<-g.wait
		return func() {
			mu.Lock()
			g.done = true
			g.at = ""
			mu.Unlock()
		}
	})
}

// Timer wraps the function given to time.AfterFunc.
func Timer(f func()) func() {
	return func() {
		mu.Lock()
		if !active {
			mu.Unlock()
			f()
			return
		}
		g := &gor{id: nextID, wait: make(chan int)}
		nextID++
		byID[g.id] = g
		byGoid[goid()] = g
		mu.Unlock()
		f()
		mu.Lock()
		g.done = true
		mu.Unlock()
	}
}

// Defer wraps the function of a deferred call.
func Defer[F any](id string, f F) F {
	return wrap(f, func() func() {
		Point(id)
		return func() {}
	})
}

// DeferClose is a deferred close.
func DeferClose[T any](id string, c chan<- T) {
	Point(id)
	close(c)
}

func wrap[F any](f F, pre func() func()) F {
	v := reflect.ValueOf(f)
	t := v.Type()
	if v.IsNil() {
		return f
	}
	return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		post := pre()
		defer post()
		if t.IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	}).Interface().(F)
}

// Quiesce waits until nothing else can proceed.
func Quiesce() {
	if g := self(); g != nil {
		point(g, "quiesce")
		return
	}
	synctest.Wait()
}
