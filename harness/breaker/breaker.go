// Package breaker: harnesses for the circuit breaker.
package breaker

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/zzverif/sym"
)

const year = 365 * 24 * time.Hour

type silent struct{}

func (*silent) Error() string { return "silent" }

// failure returns an error of an arbitrary kind.
func failure() error {
	switch sym.Choose("kind", 4) {
	case 1:
		return context.Canceled
	case 2:
		return context.DeadlineExceeded
	case 3:
		return (*silent)(nil) // an error all the same: the interface is not nil
	}
	return errors.New(sym.StringUpTo("message", 0, 2))
}

// Panics: a task or handler panics; the panic reaches the caller and the
// breaker goes on.
func Panics() {
	threshold := sym.Int("threshold", 1, 2)
	var b circuitbreaker.Interface = circuitbreaker.NewSyncCircuitBreaker(threshold, time.Hour)
	if sym.Choose("never", 2) == 1 {
		b = circuitbreaker.NeverOpen
	}
	n := sym.Param("n", 3)
	boom := errors.New("boom")
	for i := 0; i < n; i++ {
		fail, bang := sym.Bool("fail"), sym.Choose("panics", 2) == 1
		sym.Advance(sym.Duration("pause", 0, 2*time.Hour))
		calls := 0
		var got interface{}
		func() {
			defer func() { got = recover() }()
			b.Do(func() error {
				calls++
				if bang && !fail {
					panic(boom)
				}
				if fail {
					return boom
				}
				return nil
			}, func(error) {
				if bang {
					panic(boom)
				}
			}, func() {
				calls++
				if bang {
					panic(boom)
				}
			})
		}()
		sym.Assert(calls == 1, "exactly one of task and open handler runs, once")
		if bang {
			sym.Assert(got == boom, "a panic reaches the caller")
			sym.Cover("panic")
		} else {
			sym.Assert(got == nil, "no panic of its own")
		}
	}
	sym.Cover("end")
}

// Seq: n calls with arbitrary outcomes, durations and pauses.
func Seq() {
	n := sym.Param("n", 4)
	threshold := sym.Int("threshold", 1, n)
	timeout := sym.Duration("timeout", 0, 2*year)
	sym.Advance(sym.Duration("d0", 0, year))
	var b circuitbreaker.Interface = circuitbreaker.NewSyncCircuitBreaker(threshold, timeout)
	boom := failure()
	inRow := 0
	var last int64
	for i := 0; i < n; i++ {
		sym.Advance(sym.Duration("pause", 0, year))
		isOpen := sym.And(inRow >= threshold, sym.Now()-last <= int64(timeout))
		fail := sym.Bool("fail")
		tasks, errs, opens := 0, 0, 0
		b.Do(func() error {
			tasks++
			sym.Advance(sym.Duration("dur", 0, year))
			if fail {
				last = sym.Now()
				return boom
			}
			return nil
		}, func(err error) {
			errs++
			sym.Assert(err == boom, "the error handler gets the task's error")
			sym.Advance(sym.Duration("handling", 0, year))
		}, func() { opens++ })
		sym.Assert(isOpen == (opens == 1), "the open handler runs exactly when the breaker is open")
		sym.Assert(tasks+opens == 1, "exactly one of task and open handler runs, once")
		sym.Assert(errs == 0 || errs == 1, "the error handler runs at most once")
		if tasks == 1 {
			sym.Assert((errs == 1) == fail, "the error handler runs exactly if the task failed")
			if fail {
				inRow++
			} else {
				inRow = 0
				sym.Cover("success")
			}
		} else {
			sym.Assert(errs == 0, "no error handler without a task")
			sym.Cover("open")
		}
	}
	sym.Cover("end")
}

// Never: the never-open breaker.
func Never() {
	var b circuitbreaker.Interface = circuitbreaker.NeverOpen
	n := sym.Param("n", 4)
	boom := failure()
	for i := 0; i < n; i++ {
		fail := sym.Bool("fail")
		tasks, errs := 0, 0
		sym.Advance(sym.Duration("pause", 0, year))
		b.Do(func() error {
			tasks++
			if fail {
				return boom
			}
			return nil
		}, func(err error) {
			errs++
			sym.Assert(err == boom, "the error handler gets the task's error")
		}, func() { sym.Fail("the never-open breaker runs the open handler") })
		sym.Assert(tasks == 1, "the never-open breaker runs the task")
		sym.Assert(errs == sym.B2I(fail), "the error handler runs exactly if the task failed")
	}
	sym.Cover("end")
}

// Conc: n goroutines, a call each, arbitrary outcomes.
func Conc() {
	n := sym.Param("n", 3)
	threshold := sym.Int("threshold", 1, n)
	b := circuitbreaker.NewSyncCircuitBreaker(threshold, time.Hour)
	prior := 0
	if sym.Param("prior", 0) == 1 {
		prior = sym.Choose("prior", 2)
	}
	boom := errors.New("boom")
	for i := 0; i < prior; i++ {
		b.Do(func() error { return boom }, func(error) {}, func() { sym.Fail("rejected below the threshold") })
		sym.Assume(threshold > 1)
	}
	fail := make([]bool, n)
	tasks, errs, opens := make([]int, n), make([]int, n), make([]int, n)
	var wg sync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		i := i
		fail[i] = sym.Bool("fail")
		go func() {
			defer wg.Done()
			b.Do(func() error {
				tasks[i]++
				if fail[i] {
					return boom
				}
				return nil
			}, func(err error) { errs[i]++ }, func() { opens[i]++ })
		}()
	}
	wg.Wait()
	failed, ok, rejected := prior, 0, 0
	for i := 0; i < n; i++ {
		sym.Assert(tasks[i]+opens[i] == 1, "exactly one of task and open handler runs, once")
		sym.Assert(errs[i] == sym.B2I(sym.And(tasks[i] == 1, fail[i])), "the error handler runs exactly if the task failed")
		failed += errs[i]
		ok += tasks[i] - errs[i]
		rejected += opens[i]
	}
	sym.Assert(sym.Implies(failed < threshold, rejected == 0), "no call is rejected while fewer than threshold calls failed")
	open := false
	ran := false
	b.Do(func() error { ran = true; return nil }, func(error) {}, func() { open = true })
	sym.Assert(open != ran, "exactly one of task and open handler runs")
	if ok == 0 {
		sym.Assert(open == (failed >= threshold), "a call after threshold failures without success is rejected, and no other")
	}
	sym.Assert(sym.Implies(failed < threshold, ran), "no call is rejected while fewer than threshold calls failed")
	sym.Cover("end")
}

// Reentrant: tasks and handlers call the breaker themselves, concurrently with another call.
func Reentrant() {
	b := circuitbreaker.NewSyncCircuitBreaker(sym.Int("threshold", 1, 3), time.Hour)
	boom := errors.New("boom")
	f1, f2, f3 := sym.Bool("f1"), sym.Bool("f2"), sym.Bool("f3")
	mk := func(f bool) func() error {
		return func() error {
			if f {
				return boom
			}
			return nil
		}
	}
	total := [2]int{}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		in := func() { b.Do(mk(f2), func(error) {}, func() {}); total[0]++ }
		b.Do(func() error { in(); return mk(f1)() }, func(error) { in() }, func() { in() })
	}()
	go func() {
		defer wg.Done()
		b.Do(mk(f3), func(error) {}, func() {})
		total[1]++
	}()
	wg.Wait()
	sym.Assert(total[0] >= 1 && total[1] == 1, "all calls return")
	sym.Cover("end")
}
