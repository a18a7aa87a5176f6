package rate

import (
	"sync"
	"time"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zzverif/sym"
)

// concurrently runs n goroutines, each requesting once; another one may let
// time pass at any moment. It returns the number admitted.
func concurrently(l acquirer, n, each int, tick time.Duration) int {
	var wg sync.WaitGroup
	got := make([]int, n)
	if tick >= 0 {
		wg.Add(n + 1)
	} else {
		wg.Add(n)
	}
	for i := 0; i < n; i++ {
		i := i
		go func() {
			defer wg.Done()
			m := 1
			if i < sym.Param("busy", n) {
				m = each
			}
			for k := 0; k < m; k++ {
				got[i] += sym.B2I(l.Acquire())
			}
		}()
	}
	if tick >= 0 {
		go func() {
			defer wg.Done()
			sym.Advance(tick)
		}()
	}
	wg.Wait()
	total := 0
	for _, x := range got {
		total += x
	}
	return total
}

// ConcFixed: fixed window under concurrency.
func ConcFixed() {
	n := sym.Param("n", 3)
	w := time.Minute
	capacity := sym.Int("cap", 0, n)
	l := ratelimiter.NewSyncFixedWindow(capacity, w)
	sym.Advance(sym.Duration("d0", 0, 2*w))
	t0 := sym.Now()
	tick := time.Duration(-1)
	if sym.Choose("tick", 2) == 1 {
		tick = sym.Duration("d1", 0, 2*w)
	}
	got := concurrently(l, n, 1, tick)
	t1 := sym.Now()
	windows := int((t1-1)/int64(w) - (t0-1)/int64(w) + 1)
	// instants in between may fall into windows that were skipped over
	sym.Assert(got <= capacity*sym.IteInt(windows > 2, 2, windows), "concurrent requests do not exceed the capacity of the windows")
	if tick < 0 {
		sym.Assert(got == sym.IteInt(capacity < n, capacity, n), "no free capacity is refused")
	}
	sym.Assert(sym.Implies(sym.And(windows == 1, got < capacity), l.Acquire()), "free capacity is granted afterwards")
	sym.Cover("end")
}

// ConcSliding: sliding window under concurrency.
func ConcSliding() {
	n := sym.Param("n", 3)
	w := time.Minute
	capacity := sym.Int("cap", 1, n)
	l := ratelimiter.NewSyncSlidingWindow(capacity, w)
	tick := time.Duration(-1)
	if sym.Choose("tick", 2) == 1 {
		tick = sym.Duration("d1", 0, 2*w)
	}
	got := concurrently(l, n, 1, tick)
	if tick < 0 {
		sym.Assert(got == sym.IteInt(capacity < n, capacity, n), "exactly the capacity is admitted at one instant")
	} else {
		sym.Assert(sym.Implies(tick <= w, got <= capacity), "concurrent requests do not exceed the capacity of the window")
		sym.Assert(got <= 2*capacity, "concurrent requests do not exceed the capacity of two windows")
	}
	sym.Assert(sym.Implies(got < capacity, l.Acquire()), "free capacity is granted afterwards")
	sym.Cover("end")
}

// ConcUpdate: reconfiguration concurrent with requests and getters. A
// capacity of zero means that everything is admitted.
func ConcUpdate() {
	w := time.Minute
	w2 := sym.Duration("w2", time.Second, time.Hour)
	c1 := sym.Int("cap", 0, 2)
	c2 := sym.Int("cap2", -1, 2)
	want := sym.IteInt(c2 < 0, 0, c2)
	l := ratelimiter.NewSyncSlidingWindow(c1, w)
	var wg sync.WaitGroup
	var got [2]int
	for i := 0; i < 2; i++ {
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			got[i] = sym.B2I(l.Acquire())
		}()
	}
	wg.Add(2)
	go func() {
		defer wg.Done()
		l.UpdateConfig(c2, w2)
	}()
	go func() {
		defer wg.Done()
		if sym.Choose("getter", 2) == 0 {
			c := l.Capacity()
			sym.Assert(sym.Or(c == c1, c == want), "a configured capacity is reported")
		} else {
			s := l.WindowSize()
			sym.Assert(sym.Or(s == w, s == w2), "a configured window is reported")
		}
	}()
	wg.Wait()
	total := got[0] + got[1]
	limited := sym.And(c1 > 0, want > 0)
	sym.Assert(sym.Implies(limited, total <= sym.IteInt(c1 > want, c1, want)), "concurrent requests do not exceed the largest capacity")
	sym.Assert(total >= 1, "a request is admitted")
	sym.Assert(sym.Implies(sym.And(c1 == 0, want == 0), total == 2), "everything is admitted without a capacity")
	sym.Assert(sym.And(l.Capacity() == want, l.WindowSize() == w2), "the configured values are reported")
	next := l.Acquire()
	sym.Assert(sym.Implies(sym.Or(want == 0, sym.And(limited, total < want)), next), "free capacity is granted afterwards")
	sym.Assert(sym.Implies(sym.And(limited, total >= want), !next), "capacity that is used up is not granted again")
	sym.Cover("end")
}

// ConcReconf: a request concurrent with a reconfiguration is decided by the
// configuration before it or by the one after it, never by a mixture.
func ConcReconf() {
	w := sym.Duration("w", time.Second, time.Hour)
	w2 := sym.Duration("w2", time.Second, time.Hour)
	c1 := sym.Int("cap", 0, 2)
	c2 := sym.Int("cap2", 0, 3)
	l := ratelimiter.NewSyncSlidingWindow(c1, w)
	n := sym.Int("n", 0, c1)
	for i := 0; i < n; i++ {
		sym.Assert(l.Acquire(), "the first capacity requests are admitted")
	}
	d := sym.Duration("d", 0, 2*time.Hour)
	sym.Advance(d)
	var wg sync.WaitGroup
	wg.Add(2)
	got := false
	go func() {
		defer wg.Done()
		got = l.Acquire()
	}()
	go func() {
		defer wg.Done()
		l.UpdateConfig(c2, w2)
	}()
	wg.Wait()
	before := n < c1 || c1 == 0 || d > w
	after := n < c2 || c2 == 0 || d > w2
	sym.Assert(sym.Or(!before, sym.Or(!after, got)), "a request that is admitted before and after a reconfiguration is admitted during it")
	sym.Assert(sym.Implies(got, sym.Or(before, after)), "a request that is refused before and after a reconfiguration is refused during it")
	sym.Cover("end")
}

func concBucket(l acquirer, capacity, rate int) {
	start := sym.Now()
	n := sym.Param("n", 2)
	total := 0
	// drain some of the initial tokens
	k := sym.Choose("drain", capacity+1)
	for i := 0; i < k; i++ {
		sym.Assert(l.Acquire(), "the first capacity requests are admitted")
		total++
	}
	sym.Advance(sym.Duration("d0", 0, 4*time.Second))
	tick := time.Duration(-1)
	if sym.Param("tick", 1) == 1 && sym.Choose("tick", 2) == 1 {
		tick = sym.Duration("d1", 0, 2*time.Second)
	}
	each := sym.Param("each", 1)
	asks := n
	if busy := sym.Param("busy", n); busy < n {
		asks += busy * (each - 1)
	} else {
		asks = n * each
	}
	total += concurrently(l, n, each, tick)
	secs := int((sym.Now() - start) / int64(time.Second))
	sym.Assert(total <= capacity+rate*secs, "concurrent requests do not exceed capacity plus rate times the whole seconds elapsed")
	if secs == 0 {
		// no refill is in progress: whoever asks while a token is left gets one
		asked := k + asks
		sym.Assert(total == sym.IteInt(asked < capacity, asked, capacity), "no free token is refused")
		sym.Assert(sym.Implies(total < capacity, l.Acquire()), "a token that is left is granted afterwards")
	} else {
		before := total
		for i := 0; i < capacity+rate+2; i++ {
			total += sym.B2I(l.Acquire())
		}
		sym.Assert(total <= capacity+rate*secs, "later requests do not exceed capacity plus rate times the whole seconds elapsed")
		sym.Assert(total-before <= capacity+rate, "the bucket never holds more than its capacity")
	}
	sym.Advance(time.Second)
	sym.Assert(l.Acquire(), "a second later a request is admitted")
	sym.Cover("end")
}

// ConcSyncBucket: the lock-based token bucket under concurrency.
func ConcSyncBucket() {
	capacity := 1 + sym.Choose("cap", 2)
	rate := 1 + sym.Choose("rate", 2)
	concBucket(ratelimiter.NewSyncTokenBucket(capacity, rate), capacity, rate)
}

// ConcAtomicBucket: the lock-free token bucket under concurrency.
func ConcAtomicBucket() {
	capacity := 1 + sym.Choose("cap", 2)
	rate := 1 + sym.Choose("rate", 2)
	concBucket(ratelimiter.NewAtomicTokenBucket(capacity, rate), capacity, rate)
}
