package store

import (
	"sync"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zzverif/sym"
)

// fixed is a persister that always loads the same pair.
type fixed struct{ k, v string }

func (f *fixed) Load(s confstore.Interface) error {
	s.UpdateNoPersist(f.k, f.v)
	return nil
}
func (f *fixed) Save(k, v string) error               { return nil }
func (f *fixed) BatchSave(l []*confstore.KVStr) error { return nil }
func (f *fixed) Delete(k string) error                { return nil }

// Conc: n concurrent operations on one key; the second registration has a
// narrower processor.
func Conc() {
	hush()
	n := sym.Param("n", 3)
	var s confstore.Interface
	load := sym.Param("load", 0) == 1
	if load {
		s = confstore.NewStore(&fixed{"a", "l"}, confstore.NewLoadPolicy(0))
	} else {
		s = confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
	}
	wide, narrow := &proc{200}, &proc{110}
	ops := make([]int, n)
	dereg, reg := 0, 0
	sym.Assert(s.RegisterKey("a", "d", wide) == nil, "a registration is accepted")
	lo := 0
	for i := range ops {
		ops[i] = lo + sym.Choose("op", 6-lo)
		lo = ops[i]
		switch ops[i] {
		case 0:
			dereg++
		case 1:
			reg++
		}
	}
	v := sym.String("v", 1)
	sound := func(x interface{}) {
		t, ok := x.(typed)
		sym.Assert(ok, "a read returns a value of the processor's type")
		sym.Assert((&proc{t.limit}).ok(t.v), "a read returns a value that a processor accepted")
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		op := ops[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch op {
			case 0:
				s.DeregisterKey("a")
			case 1:
				s.RegisterKey("a", "e", narrow)
			case 2:
				s.Update("a", v)
			case 3:
				s.BatchUpdate([]*confstore.KVStr{{Key: "a", Value: v}, {Key: "b", Value: v}})
			case 4:
				s.ResetKey("a")
			case 5:
				if x, hit := s.GetValue("a"); hit {
					sound(x)
				}
				for _, e := range s.BatchGetValues([]string{"a", "b"}) {
					sound(e.Value)
				}
				if str, hit := s.GetValueString("a"); hit {
					sym.Assert(str == "d" || str == "e" || str == "l" || str == v, "a read returns a string that was stored")
				}
			}
		}()
	}
	wg.Wait()
	x, hit := s.GetValue("a")
	str, hits := s.GetValueString("a")
	sym.Assert(hit == hits, "typed value and string exist together")
	if dereg > 0 && reg == 0 {
		sym.Assert(!hit, "a deregistered key reads as missing")
	}
	if hit {
		t, ok := x.(typed)
		sym.Assert(ok && t.v == str, "typed value and string agree")
		if dereg == 0 {
			sym.Assert(t.limit == wide.limit, "the value is of the registered processor")
		}
		sym.Assert((&proc{t.limit}).ok(t.v), "the value is accepted by its processor")
		sym.Cover("registered")
		s.DeregisterKey("a")
	}
	if !load {
		sym.Assert(s.RegisterKey("a", "f", narrow) == nil, "a deregistered key can be registered again")
		str, _ = s.GetValueString("a")
		sym.Assert(str == "f", "a key registered again starts from its new default")
		x, _ = s.GetValue("a")
		t, ok := x.(typed)
		sym.Assert(ok && t.limit == narrow.limit && t.v == "f", "a key registered again starts from its new typed default")
	}
	sym.Cover("end")
}

// Reading: a read during one other operation returns what the key held before it or after it.
func Reading() {
	hush()
	s := confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
	wide, narrow := &proc{200}, &proc{200}
	sym.Assert(s.RegisterKey("a", "d", wide) == nil, "a registration is accepted")
	sym.Assert(s.RegisterKey("b", "d", wide) == nil, "a registration is accepted")
	v, w := sym.String("v", 1), sym.String("w", 1)
	held := "d"
	if sym.Choose("set", 2) == 1 {
		if s.Update("a", v) == nil {
			held = v
		}
	}
	op := sym.Choose("op", 5)
	how := sym.Choose("how", 4)
	var wg sync.WaitGroup
	wg.Add(2)
	next, gone := held, false
	switch op {
	case 0, 1:
		gone = true
	case 2:
		if wide.ok(w) {
			next = w
		}
	case 3:
		next = "d"
	case 4:
		if wide.ok(w) {
			next = w
		}
	}
	go func() {
		defer wg.Done()
		switch op {
		case 0:
			s.DeregisterKey("a")
		case 1:
			s.DeregisterKey("a")
			s.RegisterKey("a", "e", narrow)
		case 2:
			s.Update("a", w)
		case 3:
			s.ResetKey("a")
		case 4:
			s.BatchUpdate([]*confstore.KVStr{{Key: "a", Value: w}})
		}
	}()
	allowed := func(x string, hit bool) {
		if !hit {
			sym.Assert(gone, "a key that stays registered is never missing")
			return
		}
		ok := sym.Or(sym.Eq(x, held), sym.And(!gone, sym.Eq(x, next)))
		if op == 1 {
			ok = sym.Or(ok, sym.Eq(x, "e"))
		}
		sym.Assert(ok, "a read returns a value that the key held during the call")
	}
	go func() {
		defer wg.Done()
		switch how {
		case 0:
			x, hit := s.GetValue("a")
			t, _ := x.(typed)
			allowed(t.v, hit)
		case 1:
			x, hit := s.GetValueString("a")
			allowed(x, hit)
		case 2:
			n := 0
			for _, e := range s.BatchGetValues([]string{"a", "b"}) {
				t, _ := e.Value.(typed)
				if e.Key == "a" {
					allowed(t.v, true)
					n++
				} else {
					sym.Assert(e.Key == "b" && t.v == "d", "other keys keep their values")
				}
			}
			sym.Assert(n == 1 || gone, "a key that stays registered is never missing")
		case 3:
			x, hit := s.GetValueString("a")
			y, hit2 := s.GetValueString("a")
			allowed(x, hit)
			allowed(y, hit2)
			if !gone {
				sym.Assert(sym.Or(sym.Not(sym.Eq(x, next)), sym.Or(sym.Eq(y, next), sym.Eq(next, held))), "reads never go back")
			}
		}
	}()
	wg.Wait()
	sym.Cover("end")
}
