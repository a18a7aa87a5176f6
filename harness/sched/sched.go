// Package sched: harnesses for the scheduled tasks.
package sched

import (
	"errors"
	"strings"
	"sync"
	"time"

	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/zzverif/sym"
)

func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func mk(kind int, name string, job schedule.JobFunc, interval, timeout time.Duration) schedule.Task {
	if kind == 0 {
		return schedule.NewFixedDelayTask(name, job, interval, timeout)
	}
	return schedule.NewFixedRateTask(name, job, interval, timeout)
}

// Construct: a task is refused exactly for bad arguments.
func Construct() {
	kind := sym.Choose("kind", 2)
	name := sym.StringUpTo("name", 0, sym.Param("len", 2))
	interval := sym.Duration("interval", -time.Hour, time.Hour)
	timeout := sym.Duration("timeout", -time.Hour, time.Hour)
	job := func(cancel <-chan struct{}) error { return nil }
	if sym.Bool("nojob") {
		job = nil
	}
	var t schedule.Task
	p := panics(func() { t = mk(kind, name, job, interval, timeout) })
	bad := sym.Or(sym.Or(interval <= 0, timeout <= 0), sym.Or(strings.TrimSpace(name) == "", job == nil))
	sym.Assert(p == bad, "a task is refused exactly if name, interval, timeout or job are unusable")
	if !p {
		sym.Assert(t.Name() == name, "the name is reported as given")
		sym.Cover("accepted")
	}
	sym.Cover("end")
}

// Lifecycle: an arbitrary sequence of starts and stops.
func Lifecycle() {
	kind := sym.Choose("kind", 2)
	n := sym.Param("n", 3)
	interval := sym.Duration("interval", 1, time.Hour)
	timeout := sym.Duration("timeout", 1, time.Hour)
	runs := 0
	t := mk(kind, "t", func(cancel <-chan struct{}) error { sym.Ghost(func() { runs++ }); return nil }, interval, timeout)
	settle := sym.Choose("settle", 2) == 1 // whether the task gets somewhere between the calls
	status := 0                            // new, started, stopped
	for i := 0; i < n; i++ {
		op := 0
		if settle {
			op = sym.Int("op", 0, 3)
		} else {
			op = 2 * sym.Int("stop", 0, 1)
		}
		failed := false
		switch {
		case op == 0:
			failed = t.Start() != nil
		case op == 1:
			failed = panics(func() { t.MustStart() })
		case op == 2:
			failed = t.Stop() != nil
		default:
			failed = panics(func() { t.MustStop() })
		}
		if op <= 1 {
			sym.Assert(failed == (status != 0), "a start succeeds exactly once, and not after a stop")
			if !failed {
				status = 1
			}
		} else {
			sym.Assert(failed == (status != 1), "a stop succeeds exactly once, and only after a start")
			if !failed {
				status = 2
			}
		}
		if settle {
			sym.Quiesce()
		}
		sym.Ghost(func() {
			sym.Assert(sym.Implies(status == 0, runs == 0), "nothing runs before the start")
		})
		if settle && status == 1 {
			sym.Assert(runs == 1, "the first run does not wait for the interval")
		}
	}
	if status == 1 {
		sym.Assert(t.Stop() == nil, "a started task can be stopped")
	}
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	sym.Cover("end")
}

// LifecycleConc: starts and stops at the same time.
func LifecycleConc() {
	kind := sym.Choose("kind", 2)
	runs := 0
	t := mk(kind, "t", func(cancel <-chan struct{}) error { sym.Ghost(func() { runs++ }); return nil }, time.Hour, time.Minute)
	before := sym.Param("started", 0)
	if before == 1 {
		sym.Assert(t.Start() == nil, "a new task can be started")
	}
	ns, nt := sym.Int("starts", 1-before, 2-before), sym.Int("stops", 0, sym.Param("stops", 1))
	sym.Assume(ns+nt <= sym.Param("calls", 2))
	starts, stops := make([]int, ns), make([]int, nt)
	var wg sync.WaitGroup
	wg.Add(ns + nt)
	for i := 0; i < ns; i++ {
		i := i
		go func() { starts[i] = sym.B2I(t.Start() == nil); wg.Done() }()
	}
	for i := 0; i < nt; i++ {
		i := i
		go func() { stops[i] = sym.B2I(t.Stop() == nil); wg.Done() }()
	}
	wg.Wait()
	s, e := before, 0
	for _, x := range starts {
		s += x
	}
	for _, x := range stops {
		e += x
	}
	sym.Assert(s == 1, "exactly one start succeeds")
	sym.Assert(e <= 1, "at most one stop succeeds")
	sym.Assert((t.Stop() == nil) == (e == 0), "the task can be stopped exactly once")
	sym.Quiesce()
	sym.Assert(runs <= 1, "one start leads to one first run")
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	sym.Cover("end")
}

// clock lets time pass k times, by arbitrary amounts, at arbitrary points of the execution.
func clock(k int) {
	for i := 0; i < k; i++ {
		sym.Advance(sym.Duration("step", 0, 4*time.Hour))
	}
}

// Delay: fixed-delay runs with arbitrary durations, results and timings.
func Delay() {
	interval := sym.Duration("interval", 1, time.Hour)
	timeout := sym.Duration("timeout", 1, 3*time.Hour)
	running := false
	count := 0
	var finished int64
	how := sym.Int("how", 0, sym.Param("how", 2))
	task := schedule.NewFixedDelayTask("t", func(cancel <-chan struct{}) error {
		sym.Ghost(func() {
			start := sym.Now()
			sym.Assert(!running, "runs never overlap")
			running = true
			if count > 0 {
				sym.Assert(start-finished >= int64(interval), "a run starts no earlier than an interval after the previous one finished")
			}
			count++
		})
		var err error
		switch {
		case how == 1:
			<-cancel // runs until its timeout (or the stop)
		case how == 2:
			err = errors.New("boom")
		}
		sym.Ghost(func() {
			running = false
			finished = sym.Now()
		})
		return err
	}, interval, timeout)
	sym.Assert(task.Start() == nil, "start succeeds")
	clock(sym.Param("steps", 2))
	sym.Quiesce()
	if count >= 2 {
		sym.Cover("second")
	}
	before := 0
	sym.Ghost(func() { before = count })
	if how != 1 {
		// every run finished: the next one comes
		sym.Advance(interval)
		sym.Quiesce()
		sym.Assert(count == before+1, "another run follows")
	}
	sym.Assert(task.Stop() == nil, "stop succeeds")
	sym.Quiesce()
	sym.Assert(!running, "the job ends")
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	sym.Cover("end")
}

// DelayExact: fixed-delay runs happen exactly when they are due.
func DelayExact() {
	n := sym.Param("n", 3)
	interval := sym.Duration("interval", 1, time.Hour)
	timeout := sym.Duration("timeout", 1, 100*time.Hour)
	runs := 0
	gate := make(chan struct{})
	fail := sym.Bool("fail")
	task := schedule.NewFixedDelayTask("t", func(cancel <-chan struct{}) error {
		sym.Ghost(func() { runs++ })
		<-gate
		if fail {
			return errors.New("boom")
		}
		return nil
	}, interval, timeout)
	sym.Advance(sym.Duration("before", 0, time.Hour))
	sym.Quiesce()
	sym.Assert(runs == 0, "nothing runs before the start")
	sym.Assert(task.Start() == nil, "start succeeds")
	for i := 1; i <= n; i++ {
		sym.Quiesce()
		sym.Assert(runs == i, "the run that is due has started")
		sym.Advance(sym.Duration("dur", 0, 4*time.Hour)) // possibly longer than interval and timeout
		sym.Quiesce()
		sym.Assert(runs == i, "no run starts while another one is in progress")
		gate <- struct{}{}
		sym.Quiesce()
		sym.Assert(runs == i, "no run starts before the interval is over")
		d := sym.Duration("part", 0, time.Hour)
		sym.Assume(d < interval)
		sym.Advance(d)
		sym.Quiesce()
		sym.Assert(runs == i, "no run starts before the interval is over")
		sym.Advance(interval - d)
	}
	sym.Quiesce()
	sym.Assert(runs == n+1, "the run that is due has started")
	sym.Assert(task.Stop() == nil, "stop succeeds")
	gate <- struct{}{}
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	sym.Cover("end")
}

// Rate: never more fixed-rate runs than ticks, for arbitrary timings.
func Rate() {
	interval := sym.Duration("interval", 1, time.Hour)
	timeout := sym.Duration("timeout", 100*time.Hour, 1000*time.Hour)
	count := 0
	t0 := sym.Now()
	task := schedule.NewFixedRateTask("t", func(cancel <-chan struct{}) error {
		sym.Ghost(func() {
			now := sym.Now()
			sym.Assert(now-t0 >= int64(interval)*int64(count), "no more runs than one at start and one per interval")
			count++
		})
		return nil
	}, interval, timeout)
	sym.Assert(task.Start() == nil, "start succeeds")
	clock(sym.Param("steps", 2))
	sym.Quiesce()
	before := 0
	sym.Ghost(func() { before = count })
	sym.Assert(before >= 1, "a run at start")
	if before >= 2 {
		sym.Cover("second")
	}
	sym.Advance(interval)
	sym.Quiesce()
	sym.Assert(count == before+1, "a tick leads to a run")
	sym.Assert(task.Stop() == nil, "stop succeeds")
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	sym.Cover("end")
}

// RateBurst: ticks that come in quick succession lead to no extra runs, also after they have passed.
func RateBurst() {
	interval := sym.Duration("interval", 1, time.Hour)
	count := 0
	t0 := int64(0)
	task := schedule.NewFixedRateTask("t", func(cancel <-chan struct{}) error {
		sym.Ghost(func() {
			sym.Assert(sym.Now()-t0 >= int64(interval)*int64(count), "no more runs than one at start and one per interval")
			count++
		})
		return nil
	}, interval, 100*time.Hour)
	t0 = sym.Now()
	sym.Assert(task.Start() == nil, "start succeeds")
	sym.Quiesce()
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		sym.Advance(interval)
	}
	sym.Quiesce()
	sym.Assert(count >= 2 && count <= 1+n, "at least one run after the ticks, at most one per tick")
	sym.Assert(task.Stop() == nil, "stop succeeds")
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	sym.Cover("end")
}

// RateExact: every tick leads to a run, even if earlier runs are in progress.
func RateExact() {
	n := sym.Param("n", 2)
	interval := sym.Duration("interval", 1, time.Hour)
	timeout := sym.Duration("timeout", 1, 100*time.Hour)
	runs := 0
	ended := 0
	gate := make(chan struct{})
	hold := sym.Bool("hold")
	fail := sym.Bool("fail")
	task := schedule.NewFixedRateTask("t", func(cancel <-chan struct{}) error {
		sym.Ghost(func() { runs++ })
		if hold {
			<-gate
		}
		sym.Ghost(func() { ended++ })
		if fail {
			return errors.New("boom")
		}
		return nil
	}, interval, timeout)
	sym.Assert(task.Start() == nil, "start succeeds")
	for i := 1; i <= n; i++ {
		sym.Quiesce()
		sym.Assert(runs == i, "a run per tick, whether or not others are in progress")
		d := sym.Duration("part", 0, time.Hour)
		sym.Assume(d < interval)
		sym.Advance(d)
		sym.Quiesce()
		sym.Assert(runs == i, "no run before the next tick")
		sym.Advance(interval - d)
	}
	sym.Quiesce()
	sym.Assert(runs == n+1, "a run per tick, whether or not others are in progress")
	sym.Assert(task.Stop() == nil, "stop succeeds")
	sym.Quiesce()
	sym.Advance(interval)
	sym.Advance(interval)
	sym.Quiesce()
	sym.Assert(runs == n+1, "no run after the stop")
	if hold {
		for i := 0; i <= n; i++ {
			gate <- struct{}{}
		}
	}
	sym.Quiesce()
	sym.Assert(ended == n+1, "every run ends")
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	sym.Cover("end")
}

func isClosed(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

// Timeout: cancel channels close at the timeout, and not before.
func Timeout() {
	kind := sym.Choose("kind", 2)
	interval := sym.Duration("interval", 1, 10*time.Hour)
	timeout := sym.Duration("timeout", 1, 4*time.Hour)
	var cancels []<-chan struct{}
	gate := make(chan struct{})
	var result error
	if sym.Bool("fails") {
		result = errors.New("the run failed")
	}
	task := mk(kind, "t", func(cancel <-chan struct{}) error {
		sym.Ghost(func() { cancels = append(cancels, cancel) })
		<-gate
		return result
	}, interval, timeout)
	sym.Assert(task.Start() == nil, "start succeeds")
	sym.Quiesce()
	sym.Assert(len(cancels) == 1, "one run has started")
	d := sym.Duration("d", 0, 4*time.Hour)
	sym.Assume(d < timeout)
	how := sym.Int("how", 0, 2)
	if how == 2 {
		sym.Assume(d < interval)
	} else {
		sym.Assume(timeout < 2*interval)
	}
	sym.Advance(d)
	sym.Quiesce()
	sym.Assert(!isClosed(cancels[0]), "no cancel before the timeout")
	switch {
	case how == 0: // the timeout elapses
		sym.Advance(timeout - d)
		sym.Quiesce()
		sym.Assert(isClosed(cancels[0]), "the run is cancelled at its timeout")
		sym.Cover("timeout")
	case how == 1: // stop
		sym.Assert(task.Stop() == nil, "stop succeeds")
		sym.Quiesce()
		sym.Assert(isClosed(cancels[0]), "the run is cancelled when the task is stopped")
		sym.Cover("stopped")
	default: // another run has its own timeout
		gate <- struct{}{}
		sym.Quiesce()
		sym.Advance(interval)
		sym.Quiesce()
		sym.Assert(len(cancels) == 2, "the second run has started")
		e := sym.Duration("e", 0, 4*time.Hour)
		sym.Assume(e < timeout)
		sym.Assume(e < interval-d)
		sym.Advance(e)
		sym.Quiesce()
		sym.Assert(!isClosed(cancels[1]), "no cancel before the run's own timeout")
		sym.Cover("second")
	}
	if how != 1 {
		sym.Assert(task.Stop() == nil, "stop succeeds")
		sym.Quiesce()
	}
	for i := range cancels {
		sym.Assert(isClosed(cancels[i]), "all runs are cancelled in the end")
	}
	close(gate)
	sym.Quiesce()
	sym.Advance(interval)
	sym.Advance(interval)
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	sym.Cover("end")
}

// Stop: the task is stopped at an arbitrary moment.
func Stop() {
	kind := sym.Choose("kind", 2)
	interval := sym.Duration("interval", 1, time.Hour)
	timeout := sym.Duration("timeout", 1, 3*time.Hour)
	ticks := sym.Param("ticks", 1)
	var cancels []<-chan struct{}
	stopped := false
	late := 0
	wait := sym.Bool("wait")
	var result error
	if sym.Bool("fails") {
		result = errors.New("the run failed")
	}
	task := mk(kind, "t", func(cancel <-chan struct{}) error {
		sym.Ghost(func() {
			cancels = append(cancels, cancel)
			if stopped {
				late++
			}
		})
		if wait {
			<-cancel
		}
		return result
	}, interval, timeout)
	sym.Assert(task.Start() == nil, "start succeeds")
	began := 0
	clock(ticks) // the stop hits whatever goes on
	sym.Assert(task.Stop() == nil, "stop succeeds")
	sym.Ghost(func() { stopped = true })
	sym.Quiesce()
	for _, c := range cancels {
		sym.Assert(isClosed(c), "every run is cancelled")
	}
	sym.Assert(sym.Goroutines() == 0, "a stopped task leaves no goroutine behind")
	began = len(cancels)
	if kind == 0 {
		sym.Assert(late <= 1, "at most one run that was already queued begins after the stop")
	}
	sym.Advance(interval)
	sym.Quiesce()
	sym.Assert(len(cancels) == began, "no run begins after the stop")
	sym.Cover("end")
}
