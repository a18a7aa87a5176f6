package sched

import (
	"errors"
	"sync"

	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/zzverif/sym"
)

// fake counts what the manager does to it.
type fake struct {
	mu           sync.Mutex
	name         string
	starts, ends int
	failStop     bool
	run          *running // shared by the tasks of a harness, may be nil
}

// running is the task that was started and not stopped yet, by name.
type running struct {
	mu sync.Mutex
	by map[string]*fake
}

func (r *running) start(f *fake) {
	if r == nil {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	sym.Assert(r.by[f.name] == nil, "a task is started only when no other one of its name is running")
	r.by[f.name] = f
}

func (r *running) stop(f *fake) {
	if r == nil {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.by[f.name] == f {
		delete(r.by, f.name)
	}
}

func (f *fake) Name() string { return f.name }
func (f *fake) Start() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.starts++
	f.run.start(f)
	if f.starts > 1 {
		return errors.New("started twice")
	}
	return nil
}
func (f *fake) MustStart() {
	if err := f.Start(); err != nil {
		panic(err)
	}
}
func (f *fake) Stop() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.ends++
	f.run.stop(f)
	if f.failStop {
		return errors.New("cannot stop")
	}
	return nil
}
func (f *fake) MustStop() {
	if err := f.Stop(); err != nil {
		panic(err)
	}
}

// ManagerSeq: an arbitrary sequence of operations against a map.
func ManagerSeq() {
	n := sym.Param("n", 4)
	m := schedule.NewTaskManager()
	names := []string{sym.String("name0", 1), sym.String("name1", 1), sym.String("name2", 1)}
	held := []*fake{}
	var all []*fake
	holder := func(name string) int {
		for i, f := range held {
			if f.name == name {
				return i
			}
		}
		return -1
	}
	for i := 0; i < n; i++ {
		op := sym.Int("op", 0, 2)
		switch {
		case op == 0:
			f := &fake{name: names[sym.Int("which", 0, 1)], failStop: sym.Bool("failstop")}
			if len(held) > 0 && sym.Bool("again") { // a task that is held already
				was := held[0].starts
				sym.Assert(m.Register(held[0]) != nil, "a task that is held already is refused")
				sym.Assert(held[0].starts == was, "a refused task is not started")
				break
			}
			all = append(all, f)
			err := m.Register(f)
			if holder(f.name) >= 0 {
				sym.Assert(err != nil, "a second task of a held name is refused")
				sym.Assert(f.starts == 0, "a refused task is not started")
			} else {
				sym.Assert(err == nil, "a task with a free name is registered")
				sym.Assert(f.starts == 1, "a registered task is started once")
				held = append(held, f)
			}
		case op == 1:
			name := names[sym.Int("which", 0, 2)]
			m.Unregister(name)
			if h := holder(name); h >= 0 {
				sym.Assert(held[h].ends == 1, "an unregistered task is stopped once")
				held = append(held[:h:h], held[h+1:]...)
			}
		default:
			m.UnregisterAll()
			for _, f := range held {
				sym.Assert(f.ends == 1, "unregistering all stops every task once")
			}
			held = nil
		}
		for _, f := range all {
			sym.Assert(f.starts <= 1 && f.ends <= f.starts, "no task is started or stopped twice")
		}
		for _, f := range held {
			sym.Assert(f.ends == 0, "held tasks keep running")
		}
	}
	sym.Cover("end")
}

// ManagerConc: registrations and unregistrations at the same time.
func ManagerConc() {
	m := schedule.NewTaskManager()
	run := &running{by: map[string]*fake{}}
	a, b, c := &fake{name: "x", run: run}, &fake{name: "x", run: run}, &fake{name: "y", run: run}
	var ea, eb, ec error
	k := sym.Int("k", 0, 3)
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { ea = m.Register(a); wg.Done() }()
	go func() { eb = m.Register(b); wg.Done() }()
	go func() {
		switch {
		case k == 0:
			m.Unregister("x")
		case k == 1:
			m.UnregisterAll()
		case k == 2:
			ec = m.Register(c)
		default:
			m.Unregister("z")
		}
		wg.Done()
	}()
	wg.Wait()
	ok := sym.B2I(ea == nil) + sym.B2I(eb == nil)
	sym.Assert(ok >= 1, "a registration succeeds")
	sym.Assert(ok == 1 || a.ends+b.ends >= 1, "one task per name at any time")
	sym.Assert(ec == nil, "another name is independent")
	for _, f := range []*fake{a, b, c} {
		sym.Assert(f.starts <= 1 && f.ends <= f.starts, "no task is started or stopped twice")
	}
	sym.Assert((ea == nil) == (a.starts == 1) && (eb == nil) == (b.starts == 1), "exactly the registered tasks are started")
	m.UnregisterAll()
	for _, f := range []*fake{a, b, c} {
		sym.Assert(f.ends == f.starts, "in the end every started task is stopped once")
	}
	sym.Assert(m.Register(&fake{name: "x", run: run}) == nil, "the name is free again")
	sym.Cover("end")
}

// ManagerHeld: a held task while operations run at the same time.
func ManagerHeld() {
	m := schedule.NewTaskManager()
	run := &running{by: map[string]*fake{}}
	a := &fake{name: "x", run: run}
	sym.Assert(m.Register(a) == nil, "a task with a free name is registered")
	n := sym.Param("n", 2)
	var bs []*fake
	var errs []error
	for i := 0; i < n; i++ {
		bs = append(bs, &fake{name: "x", run: run})
		errs = append(errs, nil)
	}
	var wg sync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		i := i
		op := sym.Int("op", 0, 2)
		go func() {
			switch {
			case op == 0:
				m.Unregister("x")
			case op == 1:
				m.UnregisterAll()
			default:
				errs[i] = m.Register(bs[i])
			}
			wg.Done()
		}()
	}
	wg.Wait()
	for i, b := range bs {
		sym.Assert(b.starts <= 1 && b.ends <= b.starts, "no task is started or stopped twice")
		sym.Assert(sym.Implies(errs[i] != nil, b.starts == 0), "a refused task is not started")
		sym.Assert(sym.Implies(b.starts == 1 && b.ends == 0, a.ends == 1), "one task per name at any time")
	}
	sym.Assert(a.starts == 1 && a.ends <= 1, "no task is started or stopped twice")
	m.UnregisterAll()
	for _, b := range append(bs, a) {
		sym.Assert(b.ends == b.starts, "in the end every started task is stopped once")
	}
	sym.Cover("end")
}
