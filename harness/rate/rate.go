// Package rate: harnesses for the in-process rate limiters.
package rate

import (
	"time"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zzverif/sym"
)

const year = 365 * 24 * time.Hour

// FixedWindow: k requests at arbitrary non-decreasing instants.
func FixedWindow() {
	sizes := []time.Duration{1, 7, 1000, time.Millisecond, time.Second, time.Minute, time.Hour, 90 * time.Minute, 24 * time.Hour}
	w := sizes[sym.Choose("w", len(sizes))]
	n := sym.Param("n", 3)
	capacity := sym.Int("cap", 0, n)
	sym.Advance(sym.Duration("d0", 0, 30*year))
	l := ratelimiter.NewSyncFixedWindow(capacity, w)
	sym.Assert(l.Capacity() == capacity, "capacity is reported as configured")
	sym.Assert(l.WindowSize() == w, "window size is reported as configured")
	var win []int64
	var adm []int
	for i := 0; i < n; i++ {
		sym.Advance(sym.Duration("d", 0, 2*year))
		t := sym.Now()
		k := (t - 1) / int64(w) // window number: (k*w, (k+1)*w]
		c := 0
		for j := range win {
			c += sym.IteInt(win[j] == k, adm[j], 0)
		}
		got := l.Acquire()
		sym.Assert(sym.Or(!got, c < capacity), "no more than capacity requests of one window are admitted")
		sym.Assert(sym.Or(got, c >= capacity), "a request is refused only when its window is exhausted")
		win = append(win, k)
		adm = append(adm, sym.B2I(got))
	}
	sym.Cover("end")
}

// FixedWindowMany: like FixedWindow, with the instants given as window number and place in the window.
func FixedWindowMany() {
	sizes := []time.Duration{1, 7, time.Second, time.Hour}
	w := sizes[sym.Choose("w", len(sizes))]
	n := sym.Param("n", 6)
	capacity := sym.Int("cap", 0, n)
	base := sym.Now() / int64(w) // the model's clock starts at a fixed instant
	l := ratelimiter.NewSyncFixedWindow(capacity, w)
	var win []int
	var adm []int
	last, place := 0, int64(0)
	for i := 0; i < n; i++ {
		k := last + sym.Int("next", 0, 100000)
		off := int64(sym.Duration("off", 1, w)) // 1..w: (k*w, (k+1)*w]
		sym.Assume(sym.Or(k > last, off >= place))
		at := (base+1+int64(k))*int64(w) + off
		sym.Advance(time.Duration(at - sym.Now()))
		last, place = k, off
		c := 0
		for j := range win {
			c += sym.IteInt(win[j] == k, adm[j], 0)
		}
		got := l.Acquire()
		sym.Assert(sym.Or(!got, c < capacity), "no more than capacity requests of one window are admitted")
		sym.Assert(sym.Or(got, c >= capacity), "a request is refused only when its window is exhausted")
		win = append(win, k)
		adm = append(adm, sym.B2I(got))
	}
	sym.Cover("end")
}

// Sliding: k requests at arbitrary instants, with one reconfiguration in between.
func Sliding() {
	n := sym.Param("n", 3)
	w := sym.Duration("w", 0, 10*year)
	capacity := sym.Int("cap", -1, n)
	sym.Advance(sym.Duration("d0", 0, 30*year))
	l := ratelimiter.NewSyncSlidingWindow(capacity, w)
	at := -1
	if sym.Param("update", 1) == 1 {
		at = sym.Choose("at", n+1) - 1 // -1: never
	}
	var adm []int64 // instants of the admitted requests that still count
	eff := func() int { return sym.IteInt(capacity < 0, 0, capacity) }
	for i := 0; i < n; i++ {
		sym.Advance(sym.Duration("d", 0, 2*year))
		if i == at {
			capacity = sym.Int("cap2", -1, n)
			w = sym.Duration("w2", 0, 10*year)
			l.UpdateConfig(capacity, w)
			for k := 0; k < n; k++ {
				if len(adm) > 0 && len(adm) > eff() {
					adm = adm[1:]
				}
			}
		}
		sym.Assert(l.Capacity() == eff(), "the configured capacity is reported")
		sym.Assert(l.WindowSize() == w, "the configured window is reported")
		t := sym.Now()
		got := l.Acquire()
		if eff() == 0 {
			sym.Assert(got, "no limit when the capacity is not positive")
			continue
		}
		c := 0
		for _, a := range adm {
			c += sym.B2I(t-a <= int64(w))
		}
		sym.Assert(sym.Or(!got, c < capacity), "at most capacity requests are admitted in any window-long span")
		sym.Assert(sym.Or(got, c >= capacity), "a request is refused only when capacity requests were admitted within the window before it")
		if got {
			adm = append(adm, t)
			if len(adm) > capacity {
				adm = adm[1:]
			}
		}
	}
	sym.Cover("end")
}

type acquirer interface {
	Acquire() bool
	Capacity() int
}

// Bucket: k requests against either token bucket.
func Bucket() {
	n := sym.Param("n", 4)
	capacity := sym.Int("cap", 0, n)
	rates := []int{1, 2, 3, 1000, 1000000}
	rate := rates[sym.Choose("rate", len(rates))]
	sym.Advance(sym.Duration("d0", 0, 30*year))
	var l acquirer
	if sym.Choose("kind", 2) == 0 {
		l = ratelimiter.NewSyncTokenBucket(capacity, rate)
	} else {
		l = ratelimiter.NewAtomicTokenBucket(capacity, rate)
	}
	sym.Assert(l.Capacity() == capacity, "the configured capacity is reported")
	start := sym.Now()
	var at []int64
	var adm []int
	total := 0
	for i := 0; i < n; i++ {
		d := sym.Duration("d", 0, 2*year)
		sym.Advance(d)
		t := sym.Now()
		got := l.Acquire()
		total += sym.B2I(got)
		sym.Assert(total <= capacity+rate*int((t-start)/int64(time.Second)), "at most capacity plus rate times the whole seconds elapsed are admitted")
		at = append(at, t)
		adm = append(adm, sym.B2I(got))
		recent := 0
		for j := range at {
			recent += sym.IteInt(t-at[j] < int64(time.Second), adm[j], 0)
		}
		sym.Assert(recent <= capacity+rate, "within less than a second at most capacity plus rate are admitted")
		sym.Assert(sym.Implies(sym.And(capacity > 0, sym.And(i > 0, d >= time.Second)), got), "a request a second or more after the previous one is admitted")
		sym.Assert(sym.Implies(sym.And(!got, capacity <= rate), recent >= capacity), "a request is refused only after as many were admitted in less than the second before it as a second issues")
		sym.Assert(sym.Implies(sym.And(!got, capacity > rate), recent >= rate), "a request is refused only after as many were admitted in less than the second before it as a second issues")
		sym.Assert(sym.Implies(i < capacity, got), "the first capacity requests are admitted")
		sym.Assert(sym.Implies(capacity == 0, !got), "nothing is admitted without capacity")
	}
	sym.Cover("end")
}
