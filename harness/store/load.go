package store

import (
	"sync"
	"time"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zzverif/sym"
)

// watched is a persister whose loads take time and may fail.
type watched struct {
	fail    bool
	took    time.Duration
	loads   int
	start   int64
	end     int64
	store   confstore.Interface
	foreign bool
}

func (w *watched) Load(s confstore.Interface) error {
	w.loads++
	w.start = sym.Now()
	if s != w.store {
		w.foreign = true
	}
	if w.took > 0 {
		sym.Advance(w.took)
	}
	w.end = sym.Now()
	if w.fail {
		return errDown
	}
	return nil
}
func (w *watched) Save(k, v string) error               { return nil }
func (w *watched) BatchSave(l []*confstore.KVStr) error { return nil }
func (w *watched) Delete(k string) error                { return nil }

const hour = time.Hour

// Interval: n loads at arbitrary instants through the interval policy.
func Interval() {
	n := sym.Param("n", 4)
	min := sym.Duration("min", -hour, 10000*hour)
	p := confstore.NewLoadPolicy(min)
	w := &watched{}
	s := confstore.NewStore(w, confstore.NoopLoadPolicy)
	w.store = s
	var lastEnd int64
	loaded := false
	for i := 0; i < n; i++ {
		sym.Advance(sym.Duration("d", 0, 30000*hour))
		w.fail = sym.Bool("fail")
		w.took = sym.Duration("took", 0, hour)
		before := w.loads
		t := sym.Now()
		err := p.DoLoad(s, w)
		did := w.loads > before
		sym.Assert(w.loads <= before+1, "a load happens at most once per request")
		due := !loaded || min <= 0 || t-lastEnd >= int64(min)
		if did {
			sym.Assert(due, "two successful loads are at least the interval apart")
			sym.Assert((err != nil) == w.fail, "an error while loading is returned")
			if !w.fail {
				loaded = true
				lastEnd = w.end
			}
		} else {
			sym.Assert(sym.Not(due), "a request at least the interval after the last load loads")
			sym.Assert(err == nil, "no error without a load")
		}
	}
	sym.Assert(!w.foreign, "values are loaded into the given store")
	sym.Cover("end")
}

// Always: the simple policy, the non-positive interval and the no-op policy.
func Always() {
	hush()
	n := sym.Param("n", 4)
	kind := sym.Choose("kind", 5)
	var p confstore.LoadPolicy
	switch kind {
	case 0:
		p = confstore.SimpleLoadPolicy
	case 1:
		p = confstore.NewSimpleLoadPolicy()
	case 2:
		p = confstore.NewLoadPolicy(sym.Duration("min", -hour, 0))
	case 3:
		p = confstore.NoopLoadPolicy
	case 4:
		p = confstore.NewLoadPolicy(0)
	}
	w := &watched{}
	s := confstore.NewStore(w, p)
	w.store = s
	want := 0
	for i := 0; i < n; i++ {
		sym.Advance(sym.Duration("d", 0, hour))
		w.fail = sym.Bool("fail")
		err := p.DoLoad(s, w)
		if kind != 3 {
			want++
			sym.Assert((err != nil) == w.fail, "an error while loading is returned")
		} else {
			sym.Assert(err == nil, "the no-op policy returns no error")
		}
		sym.Assert(w.loads == want, "every request loads, or none with the no-op policy")
	}
	// reads go through the policy
	s.GetValue("a")
	sym.Assert((w.loads > want) == (kind != 3), "reading a value loads")
	want = w.loads
	s.GetValueString("a")
	sym.Assert((w.loads > want) == (kind != 3), "reading a string loads")
	want = w.loads
	s.BatchGetValues(nil)
	sym.Assert((w.loads > want) == (kind != 3), "reading values loads")
	want = w.loads
	s.BatchGetValueString(nil)
	sym.Assert((w.loads > want) == (kind != 3), "reading strings loads")
	sym.Assert(!w.foreign, "values are loaded into the given store")
	sym.Cover("end")
}

// slow is a persister that others may interleave with.
type slow struct {
	inside int
	ends   []int64
	starts []int64
	fail   func() bool
}

func (w *slow) Load(s confstore.Interface) error {
	var f bool
	sym.Ghost(func() {
		w.inside++
		sym.Assert(w.inside == 1, "loads never overlap")
		f = sym.Bool("fail")
		w.starts = append(w.starts, sym.Now())
	})
	sym.Ghost(func() {
		w.inside--
		if !f {
			w.ends = append(w.ends, sym.Now())
		} else {
			w.starts = w.starts[:len(w.starts)-1]
		}
	})
	if f {
		return errDown
	}
	return nil
}
func (w *slow) Save(k, v string) error               { return nil }
func (w *slow) BatchSave(l []*confstore.KVStr) error { return nil }
func (w *slow) Delete(k string) error                { return nil }

// Shared: concurrent reads through one interval policy while time passes.
func Shared() {
	n := sym.Param("n", 3)
	steps := sym.Param("steps", 2)
	min := sym.Duration("min", -hour, 10*hour)
	p := confstore.NewLoadPolicy(min)
	w := &slow{}
	s := confstore.NewStore(w, confstore.NoopLoadPolicy)
	go func() {
		for j := 0; j < steps; j++ {
			sym.Advance(sym.Duration("d", 0, 30*hour))
		}
	}()
	var wg sync.WaitGroup
	var any int
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p.DoLoad(s, w) == nil {
				sym.Ghost(func() { any++ })
			}
		}()
	}
	wg.Wait()
	sym.Ghost(func() {
		for i := 1; min > 0 && i < len(w.starts); i++ {
			sym.Assert(w.starts[i]-w.ends[i-1] >= int64(min), "two successful loads are at least the interval apart")
		}
		if any > 0 {
			sym.Assert(len(w.ends) > 0, "someone loaded")
			sym.Assert(min > 0 || any == len(w.ends), "every read loads without an interval")
		}
	})
	sym.Cover("end")
}
