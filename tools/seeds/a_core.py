seed("r02-boundary", "R02", "ratelimiter",
 [("ratelimiter/slidingwindow.go", "if now-int64(oldest) > s.windowSize {", "if now-int64(oldest) >= s.windowSize {")],
 '''
package ratelimiter

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	s := NewSyncSlidingWindow(2, time.Second)
	now := time.Unix(1700000000, 0)
	s.nowFn = func() time.Time { return now }
	n := 0
	for i := 0; i < 2; i++ {
		if s.Acquire() {
			n++
		}
	}
	now = now.Add(time.Second)
	if s.Acquire() {
		n++
	}
	if n > 2 {
		t.Fatalf("%d requests admitted within exactly one window", n)
	}
}
''', "a request exactly one window after the oldest recorded one", "admits capacity+1 requests in a span exactly as long as the window")

seed("r03-overflow", "R03", "ratelimiter",
 [("ratelimiter/tokenbucket.go", "	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)\n\n	if delta == 0 {", "	delta := elapse * int64(t.issueRatePerSecond) / int64(time.Second)\n\n	if elapse < int64(time.Second) {")],
 '''
package ratelimiter

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	const rate = 1000000
	b := NewSyncTokenBucket(1, rate).(*SyncTokenBucket)
	now := time.Unix(0, b.lastIssueTimestamp)
	b.nowFn = func() time.Time { return now }
	if !b.Acquire() {
		t.Fatal("the first request is refused")
	}
	now = now.Add(3 * time.Hour)
	if !b.Acquire() {
		t.Fatal("a request long after the previous one is refused")
	}
}
''', "a high rate and an idle time of hours (the product overflows)", "a request long after the previous one is refused for good")

seed("r04-addint", "R04", "ratelimiter",
 [("ratelimiter/tokenbucket.go", '''			swapped := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens-1)
			if swapped {
				break
			}
''', '''			atomic.AddInt64(&t.tokens, -1)
			break
''')],
 '''
package ratelimiter

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for round := 0; round < 60000; round++ {
		b := NewAtomicTokenBucket(1, 1)
		var got int64
		var wg, ready sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			wg.Add(1)
			ready.Add(1)
			go func() {
				defer wg.Done()
				ready.Done()
				<-start
				if b.Acquire() {
					atomic.AddInt64(&got, 1)
				}
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
		if got > 1 {
			t.Fatalf("round %d: %d requests admitted from a bucket of one token", round, got)
		}
	}
}
''', "another request between the check and the decrement", "more requests than tokens are admitted and the count gets negative")

seed("b01-consecutive", "B01", "circuitbreaker",
 [("circuitbreaker/circuitbreaker.go", '''	switch s.state() {
	case open:''', '''	switch st := s.state(); st {
	case open:'''), ("circuitbreaker/circuitbreaker.go", '''		} else {
			s.reset()
		}
	default''', '''		} else if st == halfOpen || s.nowFn().UnixNano()-s.lastFailureTs > s.resetTimeout {
			s.reset()
		}
	default''')],
 '''
package circuitbreaker

import (
	"errors"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	b := NewSyncCircuitBreaker(2, time.Hour)
	ran := 0
	do := func(err error) {
		b.Do(func() error { ran++; return err }, func(error) {}, func() {})
	}
	do(errors.New("boom"))
	do(nil)
	do(errors.New("boom"))
	do(nil)
	if ran != 4 {
		t.Fatalf("the breaker opened without two consecutive failures (%d runs)", ran)
	}
}
''', "a failure, a success soon after it, and another failure", "failures that are not consecutive open the breaker")

seed("b02-rlock", "B02", "circuitbreaker",
 [("circuitbreaker/circuitbreaker.go", '''	s.lock.Lock()
	defer s.lock.Unlock()

	s.failures++
''', '''	s.lock.RLock()
	defer s.lock.RUnlock()

	s.failures++
''')],
 '''
package circuitbreaker

import (
	"errors"
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		b := NewSyncCircuitBreaker(100, time.Hour)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 10; k++ {
					b.Do(func() error { return errors.New("boom") }, func(error) {}, func() {})
				}
			}()
		}
		wg.Wait()
		if b.failures != 40 {
			t.Fatalf("%d of 40 failures counted", b.failures)
		}
	}
}
''', "two failures recorded at the same time", "failures are lost (data race)", flags="-race")

seed("s02-signal", "S02", "concurrent",
 [("concurrent/sema.go", '''	s.count--
	s.notFull.Broadcast()
''', '''	wasFull := s.isFull()
	s.count--
	if wasFull {
		s.notFull.Signal()
	}
''')],
 '''
package concurrent

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		s := NewLockSemaphore(2)
		s.Acquire()
		s.Acquire()
		done := make(chan bool, 2)
		for k := 0; k < 2; k++ {
			go func() { s.Acquire(); done <- true }()
		}
		time.Sleep(200 * time.Microsecond)
		s.Release()
		s.Release()
		for k := 0; k < 2; k++ {
			select {
			case <-done:
			case <-time.After(2 * time.Second):
				t.Fatal("a waiter sleeps although a permit is free")
			}
		}
	}
}
''', "two waiters and two releases before the first waiter runs", "a waiter is never woken although a permit is free")

seed("e02-unlock", "E02", "event",
 [("event/bus.go", '''	close(b.ch)
	b.recvMapLock.Lock()
	for name, recv := range b.recvMap {
''', '''	close(b.ch)
	b.recvMapLock.RLock()
	n := len(b.recvMap)
	b.recvMapLock.RUnlock()
	if n == 0 {
		return
	}
	b.recvMapLock.Lock()
	for name, recv := range b.recvMap {
'''), ("event/bus.go", '''	b.recvMapLock.Lock()
	b.recvMap[name] = recv
	b.recvMapLock.Unlock()
''', '''	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	if old := b.recvMap[name]; old != nil && old.ch != nil && cap(old.ch) == bufSize && old.strategy == fullStrategy {
		recv.ch, recv.C = old.ch, old.C
	}
	b.recvMap[name] = recv
''')],
 '''
package event

import "testing"

func TestZZDemo(t *testing.T) {
	b := NewFanOutBus(0)
	old := b.NewRecv("a", 1)
	r := b.NewRecv("a", 1)
	old.Close()
	select {
	case _, ok := <-r.C:
		if !ok {
			t.Fatal("closing the displaced receiver closed its successor")
		}
	default:
	}
}
''', "a second receiver of the same name, buffer and strategy, then closing the first", "closing a displaced receiver closes its successor's channel")

seed("t04-stopq", "T04", "schedule",
 [("schedule/task.go", '''	case <-t.stopSig:
		cancel()
		<-fin
	case <-fin:
''', '''	case <-t.stopSig:
		<-fin
	case <-fin:
''')],
 '''
package schedule

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	begun, cancelled := make(chan bool, 1), make(chan bool, 1)
	task := NewFixedDelayTask("t", func(cancel <-chan struct{}) error {
		begun <- true
		select {
		case <-cancel:
			cancelled <- true
		case <-time.After(10 * time.Second):
		}
		return nil
	}, time.Hour, time.Hour)
	task.MustStart()
	<-begun
	task.MustStop()
	select {
	case <-cancelled:
	case <-time.After(3 * time.Second):
		t.Fatal("the running job is not cancelled by the stop")
	}
}
''', "a stop while a job is running that has not reached its timeout", "a stop does not cancel the running job")

seed("t02-overlap", "T02", "schedule",
 [("schedule/fixed_delay_task.go", '''			t.runJob(t.nextNo())
			go t.appendJobQueueFuture()
''', '''			next := time.Now().Add(t.interval)
			t.runJob(t.nextNo())
			if wait := time.Until(next); wait > 0 && wait < t.interval {
				time.AfterFunc(wait, func() { t.appendJobQueue() })
			} else {
				go t.appendJobQueueFuture()
			}
''')],
 '''
package schedule

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	var mu sync.Mutex
	var last time.Time
	bad := time.Duration(0)
	task := NewFixedDelayTask("t", func(cancel <-chan struct{}) error {
		mu.Lock()
		if !last.IsZero() {
			if gap := time.Since(last); gap < 90*time.Millisecond {
				bad = gap
			}
		}
		mu.Unlock()
		time.Sleep(50 * time.Millisecond)
		mu.Lock()
		last = time.Now()
		mu.Unlock()
		return nil
	}, 100*time.Millisecond, time.Second)
	task.MustStart()
	time.Sleep(600 * time.Millisecond)
	task.MustStop()
	mu.Lock()
	defer mu.Unlock()
	if bad != 0 {
		t.Fatalf("a run began only %v after the previous one had finished", bad)
	}
}
''', "a job that takes some time, but less than the interval", "the interval is counted from the start of the previous run")

seed("t05-unlock", "T05", "schedule",
 [("schedule/task_manager.go", '''	m.lock.Lock()
	defer m.lock.Unlock()

	task := m.taskMap[name]
	if task == nil {
		return
	}
	task.Stop()
	delete(m.taskMap, name)
''', '''	m.lock.Lock()
	task := m.taskMap[name]
	m.lock.Unlock()
	if task == nil {
		return
	}
	task.Stop()
	m.lock.Lock()
	delete(m.taskMap, name)
	m.lock.Unlock()
''')],
 '''
package schedule

import (
	"testing"
	"time"
)

type slowTask struct {
	stopping, resume chan bool
	stops            int
}

func (s *slowTask) Name() string { return "a" }
func (s *slowTask) Start() error { return nil }
func (s *slowTask) MustStart()   {}
func (s *slowTask) Stop() error {
	s.stops++
	if s.stops == 1 {
		close(s.stopping)
		<-s.resume
	}
	return nil
}
func (s *slowTask) MustStop() {}

func TestZZDemo(t *testing.T) {
	m := NewTaskManager()
	s := &slowTask{stopping: make(chan bool), resume: make(chan bool)}
	if m.Register(s) != nil {
		t.Fatal("register")
	}
	done := make(chan bool)
	go func() { m.Unregister("a"); close(done) }()
	<-s.stopping
	go func() { time.Sleep(300 * time.Millisecond); close(s.resume) }()
	m.UnregisterAll()
	<-done
	if s.stops != 1 {
		t.Fatalf("the task was stopped %d times", s.stops)
	}
}
''', "an unregister-all while an unregister stops the task", "a task is stopped twice")
