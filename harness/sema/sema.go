// Package sema: harnesses for the semaphores.
package sema

import (
	"sync"

	"github.com/chanjarster/gears/concurrent"
	"github.com/chanjarster/gears/zzverif/sym"
)

func newSema(permits int) concurrent.Semaphore {
	if sym.Choose("impl", 2) == 0 {
		return concurrent.NewChanSemaphore(int64(permits))
	}
	return concurrent.NewLockSemaphore(int64(permits))
}

// Seq: an arbitrary sequence of operations against a counter.
func Seq() {
	n := sym.Param("n", 5)
	permits := sym.Int("permits", 0, sym.Param("permits", 3))
	s := newSema(permits)
	held := 0
	for i := 0; i < n; i++ {
		op := sym.Int("op", 0, 2)
		switch {
		case op == 0:
			got := s.TryAcquire()
			sym.Assert(got == (held < permits), "try-acquire succeeds exactly when a permit is free")
			if got {
				held++
			}
		case op == 1:
			s.Release()
			if held > 0 {
				held--
			}
		default:
			if held < permits {
				s.Acquire() // must not block
				held++
			}
		}
	}
	sym.Cover("end")
}

// SafeConc: n goroutines acquire (or try to) and release; holders are counted
// inside the critical section.
func SafeConc() {
	n := sym.Param("n", 3)
	permits := sym.Int("permits", 1, 2)
	s := newSema(permits)
	extra := 0
	if sym.Param("extra", 1) == 1 {
		extra = sym.Int("extra", 0, 1) // releases nobody has acquired, before the others start
	}
	for i := 0; i < extra; i++ {
		s.Release()
	}
	holders := 0
	var wg sync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		try := sym.Bool("try")
		go func() {
			defer wg.Done()
			if try {
				if !s.TryAcquire() {
					return
				}
			} else {
				s.Acquire()
			}
			sym.Ghost(func() {
				holders++
				sym.Assert(holders <= permits, "never more holders than permits")
			})
			sym.Ghost(func() { holders-- })
			s.Release()
		}()
	}
	wg.Wait()
	got := 0
	for i := 0; i < permits+1; i++ {
		got += sym.B2I(s.TryAcquire())
	}
	sym.Assert(got == permits, "all permits are free again, and no more than that")
	sym.Cover("end")
}

// Wakeup: all permits are held; n goroutines block; k permits are released in
// any interleaving with them; exactly the right number proceeds.
func Wakeup() {
	n := sym.Param("n", 3)
	permits := sym.Int("permits", 1, 2)
	s := newSema(permits)
	for i := 0; i < permits; i++ {
		s.Acquire()
	}
	sym.Assert(!s.TryAcquire(), "no permit is free")
	var wg sync.WaitGroup
	done := make([]bool, n)
	wg.Add(n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			s.Acquire()
			done[i] = true
			if sym.Param("chain", 1) == 1 {
				s.Release()
			}
			wg.Done()
		}()
	}
	k := sym.Int("k", 1, 2)
	sym.Assume(k <= permits)
	var rel sync.WaitGroup
	if sym.Choose("separate", 2) == 1 {
		rel.Add(k)
		for i := 0; i < k; i++ {
			go func() { s.Release(); rel.Done() }()
		}
	} else {
		for i := 0; i < k; i++ {
			s.Release()
		}
	}
	wg.Wait() // every waiter proceeds, since each hands its permit on
	rel.Wait()
	got := 0
	for i := 0; i <= permits; i++ {
		got += sym.B2I(s.TryAcquire())
	}
	sym.Assert(got == k, "exactly the released permits are free at the end")
	sym.Cover("end")
}

// Stuck: with fewer releases than waiters, exactly as many proceed as permits were released.
func Stuck() {
	n := sym.Param("n", 3)
	permits := sym.Int("permits", 1, 2)
	s := newSema(permits)
	for i := 0; i < permits; i++ {
		s.Acquire()
	}
	passed := 0
	for i := 0; i < n; i++ {
		go func() {
			s.Acquire()
			sym.Ghost(func() { passed++ })
		}()
	}
	k := sym.Int("k", 0, 3)
	sym.Assume(k <= n)
	if k > permits {
		k = permits
	}
	go func() {
		for i := 0; i < k; i++ {
			s.Release()
		}
	}()
	sym.Quiesce()
	want := k
	if n < k {
		want = n
	}
	sym.Assert(passed == want, "as many waiters proceed as permits were released")
	sym.Assert(s.TryAcquire() == (k > n), "a permit is left exactly if nobody wanted it")
	// let the others go
	for i := 0; i < n+permits; i++ {
		s.Release()
		sym.Quiesce()
	}
	sym.Assert(passed == n, "every waiter proceeds in the end")
	sym.Cover("end")
}

// TryRace: try-acquire against concurrent acquires and releases never blocks and loses nothing.
func TryRace() {
	permits := sym.Int("permits", 1, 2)
	s := newSema(permits)
	s.Acquire()
	var wg sync.WaitGroup
	wg.Add(3)
	got := [2]bool{}
	for i := 0; i < 2; i++ {
		i := i
		go func() { got[i] = s.TryAcquire(); wg.Done() }()
	}
	go func() { s.Release(); wg.Done() }()
	wg.Wait()
	h := sym.B2I(got[0]) + sym.B2I(got[1])
	sym.Assert(h <= permits, "never more holders than permits")
	sym.Assert(h >= permits-1, "try-acquire succeeds when a permit is free all the time")
	free := 0
	for i := 0; i <= permits; i++ {
		free += sym.B2I(s.TryAcquire())
	}
	sym.Assert(free == permits-h, "the permits that are not held are free")
	sym.Cover("end")
}

// ReleaseRace: concurrent releases, more of them than permits are held, with an attempt among them.
// None of them blocks, and they free exactly the permits that were held.
func ReleaseRace() {
	permits := sym.Int("permits", 1, 2)
	s := newSema(permits)
	held := sym.Int("held", 0, 2)
	sym.Assume(held <= permits)
	for i := 0; i < held; i++ {
		s.Acquire()
	}
	rel := sym.Param("rel", 2)
	try := sym.Param("try", 0)
	got := 0
	var wg sync.WaitGroup
	wg.Add(rel + try)
	for i := 0; i < rel; i++ {
		go func() { s.Release(); wg.Done() }()
	}
	for i := 0; i < try; i++ {
		go func() {
			ok := s.TryAcquire()
			sym.Ghost(func() { got += sym.B2I(ok) })
			wg.Done()
		}()
	}
	wg.Wait() // none of them blocks
	free := 0
	for i := 0; i <= permits; i++ {
		free += sym.B2I(s.TryAcquire())
	}
	if try == 0 {
		want := permits - held + rel
		if want > permits {
			want = permits
		}
		sym.Assert(free == want, "exactly the held permits are freed")
	} else {
		// a releases before the attempt, the others after it; without holders a release does nothing
		some := false
		for a := 0; a <= rel; a++ {
			c := sym.IteInt(held > a, held-a, 0)
			g := sym.B2I(c < permits)
			c += g
			c = sym.IteInt(c > rel-a, c-(rel-a), 0)
			some = sym.Or(some, sym.And(got == g, free == permits-c))
		}
		sym.Assert(some, "attempt and releases take effect one after another, in some order")
	}
	sym.Cover("end")
}
