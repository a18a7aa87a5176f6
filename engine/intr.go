package main

// Intrinsics: functions whose effect is modelled by the engine.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic returns ok=false when the goroutine must wait (it is retried).
type intrinsic func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool)

const symPkg = "github.com/chanjarster/gears/zzverif/sym"

var intrinsics = map[string]intrinsic{}

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

// pure registers an intrinsic that never blocks.
func pure(names string, f func(p *Path, g *Gor, a []Value) Value) {
	reg(names, func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) { return f(p, g, a), true })
}

func findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == symPkg {
		if i, ok := symIntr[fn.Name()]; ok {
			return i
		}
	}
	return nil
}

// skipInit lists packages whose initialisers are irrelevant to the checked code.
func skipInit(path string) bool {
	switch path {
	case "runtime", "internal/runtime/sys", "internal/cpu", "reflect", "internal/reflectlite", "syscall", "internal/godebug", "internal/poll", "internal/testlog", "os/signal", "testing", "internal/runtime/atomic", "runtime/debug", "sync/atomic", "unsafe", "internal/abi", "internal/goarch":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime/")
}

var symIntr = map[string]intrinsic{}

func symReg(name string, f func(p *Path, g *Gor, a []Value) Value) {
	symIntr[name] = func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) { return f(p, g, a), true }
}

func cstr(v Value) string {
	s, ok := v.(Str)
	if !ok || s.sym != nil {
		unsup("concrete string expected")
	}
	return s.s
}

func (p *Path) termI(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("scalar expected, got %T", v)
	}
	return t
}

// SyncObj is the state of a mutex, wait group or condition.
type SyncObj struct {
	locked  bool
	owner   int
	readers int
	wpend   *Gor
	vc      []int32
	rvc     []int32
	count   *Term
	n       int
	waitq   []*Gor
	notify  int
	ticket  int
	tickets map[*Gor]int
	once    bool
	m       *Map
	pool    []Value
}

func (p *Path) syncOf(v Value) *SyncObj {
	c, ok := v.(*Value)
	if !ok {
		unsup("sync object %T", v)
	}
	if c == nil {
		p.goPanicStr("invalid memory address or nil pointer dereference")
	}
	s := p.syncs[c]
	if s == nil {
		s = &SyncObj{owner: -2}
		p.syncs[c] = s
	}
	return s
}

func (p *Path) fatal(g *Gor, msg string) {
	// runtime fatal errors cannot be recovered
	if p.pos < len(p.prefix) {
		panic(pathEnd{"panic", "replayed"})
	}
	p.violate("panic", "no goroutine panics", "fatal error: "+msg, p.model, g)
	panic(pathEnd{"panic", msg})
}

func init() {
	// ---- sync.Mutex
	lock := func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "lock", true, func() bool { return !s.locked }, s) {
			return nil, false
		}
		s.locked = true
		s.owner = g.id
		p.hbAcquire(g, s.vc)
		return nil, true
	}
	reg("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).TryLock (*internal/sync.Mutex).TryLock", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "trylock", true, nil, s) {
			return nil, false
		}
		if s.locked {
			return p.w.ts.False, true
		}
		s.locked = true
		s.owner = g.id
		p.hbAcquire(g, s.vc)
		return p.w.ts.True, true
	})
	reg("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if p.w.prog.usesTryLock && !p.visible(g, "unlock", true, nil, s) {
			return nil, false
		}
		if !s.locked {
			p.fatal(g, "sync: unlock of unlocked mutex")
		}
		s.locked = false
		p.hbRelease(g, &s.vc)
		return nil, true
	})
	// ---- sync.RWMutex
	reg("(*sync.RWMutex).Lock", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if s.wpend == g {
			if !p.visible(g, "lock", true, func() bool { return s.readers == 0 }, s) {
				return nil, false
			}
			s.wpend = nil
			s.locked = true
			p.hbAcquire(g, s.vc)
			p.hbAcquire(g, s.rvc)
			return nil, true
		}
		if !p.visible(g, "lock", true, func() bool { return !s.locked && s.wpend == nil }, s) {
			return nil, false
		}
		if s.readers > 0 {
			// announced: new readers wait, existing ones drain
			s.wpend = g
			g.pend = &pending{kind: "lock", write: true, objs: []any{s}, enabled: func() bool { return s.readers == 0 }}
			if p.noYield > 0 {
				unsup("lock would block in atomic section")
			}
			return nil, false
		}
		s.locked = true
		p.hbAcquire(g, s.vc)
		p.hbAcquire(g, s.rvc)
		return nil, true
	})
	reg("(*sync.RWMutex).TryLock", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "trylock", true, nil, s) {
			return nil, false
		}
		if s.locked || s.wpend != nil || s.readers > 0 {
			return p.w.ts.False, true
		}
		s.locked = true
		p.hbAcquire(g, s.vc)
		p.hbAcquire(g, s.rvc)
		return p.w.ts.True, true
	})
	reg("(*sync.RWMutex).Unlock", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if p.w.prog.usesTryLock && !p.visible(g, "unlock", true, nil, s) {
			return nil, false
		}
		if !s.locked {
			p.fatal(g, "sync: Unlock of unlocked RWMutex")
		}
		s.locked = false
		p.hbRelease(g, &s.vc)
		return nil, true
	})
	reg("(*sync.RWMutex).RLock", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "rlock", false, func() bool { return !s.locked && s.wpend == nil }, s) {
			return nil, false
		}
		s.readers++
		p.hbAcquire(g, s.vc)
		return nil, true
	})
	reg("(*sync.RWMutex).TryRLock", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "tryrlock", true, nil, s) {
			return nil, false
		}
		if s.locked || s.wpend != nil {
			return p.w.ts.False, true
		}
		s.readers++
		p.hbAcquire(g, s.vc)
		return p.w.ts.True, true
	})
	reg("(*sync.RWMutex).RUnlock", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if p.w.prog.usesTryLock && !p.visible(g, "unlock", true, nil, s) {
			return nil, false
		}
		if s.readers <= 0 {
			p.fatal(g, "sync: RUnlock of unlocked RWMutex")
		}
		s.readers--
		p.hbRelease(g, &s.rvc)
		return nil, true
	})
	// ---- sync.WaitGroup
	reg("(*sync.WaitGroup).Add", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "wgadd", true, nil, s) {
			return nil, false
		}
		s.n += p.concInt(a[1], "WaitGroup.Add")
		if s.n < 0 {
			panic(goPanic{Iface{T: p.w.canon(types.Typ[types.String]), V: Str{s: "sync: negative WaitGroup counter"}}})
		}
		p.hbRelease(g, &s.vc)
		return nil, true
	})
	reg("(*sync.WaitGroup).Done", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "wgdone", true, nil, s) {
			if s.n > 0 {
				g.pend.comm = "wgdone"
			}
			return nil, false
		}
		s.n--
		if s.n < 0 {
			panic(goPanic{Iface{T: p.w.canon(types.Typ[types.String]), V: Str{s: "sync: negative WaitGroup counter"}}})
		}
		p.hbRelease(g, &s.vc)
		return nil, true
	})
	reg("(*sync.WaitGroup).Wait", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "wgwait", false, func() bool { return s.n == 0 }, s) {
			return nil, false
		}
		p.hbAcquire(g, s.vc)
		return nil, true
	})
	// ---- sync.Cond (real source over the runtime's notify list)
	pure("(*sync.copyChecker).check", func(p *Path, g *Gor, a []Value) Value { return nil })
	reg("sync.runtime_notifyListAdd", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "cond-ticket", true, nil, s) {
			return nil, false
		}
		s.ticket++
		return p.w.ts.BV(uint64(s.ticket-1), 32), true
	})
	reg("sync.runtime_notifyListWait", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		t := int(p.termI(a[1]).C)
		if g.woken != nil {
			w := g.woken
			g.woken = nil
			p.hbAcquire(g, w.vc)
			return nil, true
		}
		if !p.visible(g, "cond-wait", true, nil, s) {
			return nil, false
		}
		if t < s.notify {
			return nil, true
		}
		if s.tickets == nil {
			s.tickets = map[*Gor]int{}
		}
		s.tickets[g] = t
		s.waitq = append(s.waitq, g)
		p.park(g, "cond")
		return nil, false
	})
	reg("sync.runtime_notifyListNotifyAll", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "broadcast", true, nil, s) {
			return nil, false
		}
		vc := vcCopy(g.vc)
		g.tick()
		for _, w := range s.waitq {
			w.parked = false
			w.why = ""
			w.woken = &wake{kind: "cond", vc: vc}
			p.wakeEdge(w)
		}
		s.waitq = nil
		s.notify = s.ticket
		return nil, true
	})
	reg("sync.runtime_notifyListNotifyOne", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "signal", true, nil, s) {
			return nil, false
		}
		if s.notify == s.ticket {
			return nil, true
		}
		t := s.notify
		s.notify++
		vc := vcCopy(g.vc)
		g.tick()
		for i, w := range s.waitq {
			if s.tickets[w] == t {
				w.parked = false
				w.why = ""
				w.woken = &wake{kind: "cond", vc: vc}
				p.wakeEdge(w)
				s.waitq = append(append([]*Gor(nil), s.waitq[:i]...), s.waitq[i+1:]...)
				break
			}
		}
		return nil, true
	})
	// ---- sync.Pool
	reg("(*sync.Pool).Get", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if !p.visible(g, "pool", true, nil, s) {
			return nil, false
		}
		if n := len(s.pool); n > 0 {
			v := s.pool[n-1]
			s.pool = s.pool[:n-1]
			p.hbAcquire(g, s.vc)
			return v, true
		}
		st := (*a[0].(*Value)).(Struct)
		nf, _ := st[len(st)-1].(*FuncVal)
		if nf == nil {
			return Iface{}, true
		}
		return p.callSync(g, nf, nil), true
	})
	reg("(*sync.Pool).Put", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.syncOf(a[0])
		if p.boot > 0 {
			return nil, true
		}
		if !p.visible(g, "pool", true, nil, s) {
			return nil, false
		}
		if i, ok := a[1].(Iface); ok && i.T != nil {
			s.pool = append(s.pool, a[1])
			p.hbRelease(g, &s.vc)
		}
		return nil, true
	})
	// ---- sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(p *Path, s *SyncObj) *Map {
		if s.m == nil {
			s.m = p.newMap(anyT)
		}
		return s.m
	}
	sm := func(name string, write bool, f func(p *Path, g *Gor, m *Map, a []Value) Value) {
		reg("(*sync.Map)."+name+" (*internal/sync.HashTrieMap)."+name, func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
			s := p.syncOf(a[0])
			if !p.visible(g, "syncmap", write, nil, s) {
				return nil, false
			}
			p.hbAcquire(g, s.vc)
			r := f(p, g, smap(p, s), a[1:])
			p.hbRelease(g, &s.vc)
			return r, true
		})
	}
	found := func(p *Path, e *mapEntry) (Value, Value) {
		if e == nil {
			return Iface{}, p.w.ts.False
		}
		return e.v, p.w.ts.True
	}
	sm("Load", false, func(p *Path, g *Gor, m *Map, a []Value) Value {
		v, ok := found(p, p.mapFind(m, a[0]))
		return Tuple{v, ok}
	})
	sm("Store", true, func(p *Path, g *Gor, m *Map, a []Value) Value { p.mapSet(m, a[0], a[1]); return nil })
	sm("Delete", true, func(p *Path, g *Gor, m *Map, a []Value) Value { p.mapDel(m, a[0]); return nil })
	sm("LoadOrStore", true, func(p *Path, g *Gor, m *Map, a []Value) Value {
		if e := p.mapFind(m, a[0]); e != nil {
			return Tuple{e.v, p.w.ts.True}
		}
		p.mapSet(m, a[0], a[1])
		return Tuple{a[1], p.w.ts.False}
	})
	sm("LoadAndDelete", true, func(p *Path, g *Gor, m *Map, a []Value) Value {
		v, ok := found(p, p.mapFind(m, a[0]))
		p.mapDel(m, a[0])
		return Tuple{v, ok}
	})
	sm("Swap", true, func(p *Path, g *Gor, m *Map, a []Value) Value {
		v, ok := found(p, p.mapFind(m, a[0]))
		p.mapSet(m, a[0], a[1])
		return Tuple{v, ok}
	})
	sm("CompareAndSwap", true, func(p *Path, g *Gor, m *Map, a []Value) Value {
		e := p.mapFind(m, a[0])
		if e != nil && p.branch(p.eq(e.v, a[1])) {
			e.v = a[2]
			return p.w.ts.True
		}
		return p.w.ts.False
	})
	sm("CompareAndDelete", true, func(p *Path, g *Gor, m *Map, a []Value) Value {
		e := p.mapFind(m, a[0])
		if e != nil && p.branch(p.eq(e.v, a[1])) {
			p.mapDel(m, a[0])
			return p.w.ts.True
		}
		return p.w.ts.False
	})
	sm("Clear", true, func(p *Path, g *Gor, m *Map, a []Value) Value {
		for _, e := range append([]*mapEntry(nil), m.ents...) {
			p.mapDel(m, e.k)
		}
		return nil
	})
	sm("Range", true, func(p *Path, g *Gor, m *Map, a []Value) Value {
		it := p.mapIter(m)
		for {
			e, ok := it.next()
			if !ok {
				return nil
			}
			r := p.callSync(g, a[0].(*FuncVal), []Value{e.k, e.v})
			if !p.branch(r.(*Term)) {
				return nil
			}
		}
	})

	// ---- sync/atomic
	atom := func(names string, write bool, f func(p *Path, c Value, a []Value) (Value, Value)) {
		reg(names, func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
			if isNilPtr(a[0]) {
				p.goPanicStr("invalid memory address or nil pointer dereference")
			}
			if !p.visible(g, "atomic", write, nil, a[0]) {
				return nil, false
			}
			var so *SyncObj
			if c, ok := a[0].(*Value); ok {
				so = p.syncOf(c)
				p.hbAcquire(g, so.vc)
			}
			sv := p.multi
			p.multi = false
			cur := p.load(a[0], nil)
			nv, ret := f(p, cur, a[1:])
			if nv != nil {
				p.store(a[0], nv)
			}
			p.multi = sv
			if so != nil && write {
				p.hbRelease(g, &so.vc)
			}
			return ret, true
		})
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		atom("sync/atomic.Load"+ty, false, func(p *Path, c Value, a []Value) (Value, Value) { return nil, c })
		atom("sync/atomic.Store"+ty, true, func(p *Path, c Value, a []Value) (Value, Value) { return a[0], nil })
		atom("sync/atomic.Add"+ty, true, func(p *Path, c Value, a []Value) (Value, Value) {
			n := p.w.ts.Bin(OpAdd, c.(*Term), a[0].(*Term))
			return n, n
		})
		atom("sync/atomic.Swap"+ty, true, func(p *Path, c Value, a []Value) (Value, Value) { return a[0], c })
		atom("sync/atomic.CompareAndSwap"+ty, true, func(p *Path, c Value, a []Value) (Value, Value) {
			if p.branch(p.w.ts.Eq(c.(*Term), a[0].(*Term))) {
				return a[1], p.w.ts.True
			}
			return nil, p.w.ts.False
		})
		atom("sync/atomic.And"+ty, true, func(p *Path, c Value, a []Value) (Value, Value) {
			return p.w.ts.Bin(OpBAnd, c.(*Term), a[0].(*Term)), c
		})
		atom("sync/atomic.Or"+ty, true, func(p *Path, c Value, a []Value) (Value, Value) {
			return p.w.ts.Bin(OpBOr, c.(*Term), a[0].(*Term)), c
		})
	}
	atom("sync/atomic.LoadPointer", false, func(p *Path, c Value, a []Value) (Value, Value) { return nil, c })
	atom("sync/atomic.StorePointer", true, func(p *Path, c Value, a []Value) (Value, Value) { return a[0], nil })
	atom("sync/atomic.SwapPointer", true, func(p *Path, c Value, a []Value) (Value, Value) { return a[0], c })
	atom("sync/atomic.CompareAndSwapPointer", true, func(p *Path, c Value, a []Value) (Value, Value) {
		if p.branch(p.eq(c, a[0])) {
			return a[1], p.w.ts.True
		}
		return nil, p.w.ts.False
	})
	// typed pointers and values keep their content in a side table keyed by the cell
	side := func(names string, write bool, f func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value) {
		reg(names, func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
			s := p.syncOf(a[0])
			if !p.visible(g, "atomic", write, nil, s) {
				return nil, false
			}
			p.hbAcquire(g, s.vc)
			if len(s.pool) == 0 {
				s.pool = []Value{nil}
			}
			r := f(p, s, fn, a[1:])
			if write {
				p.hbRelease(g, &s.vc)
			}
			return r, true
		})
	}
	ptrZero := func(fn *ssa.Function, v Value) Value {
		if v == nil {
			return (*Value)(nil)
		}
		return v
	}
	side("(*sync/atomic.Pointer).Load", false, func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value { return ptrZero(fn, s.pool[0]) })
	side("(*sync/atomic.Pointer).Store", true, func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value { s.pool[0] = a[0]; return nil })
	side("(*sync/atomic.Pointer).Swap", true, func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value {
		o := ptrZero(fn, s.pool[0])
		s.pool[0] = a[0]
		return o
	})
	side("(*sync/atomic.Pointer).CompareAndSwap", true, func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value {
		if ptrZero(fn, s.pool[0]) == a[0] {
			s.pool[0] = a[1]
			return p.w.ts.True
		}
		return p.w.ts.False
	})
	ifz := func(v Value) Value {
		if v == nil {
			return Iface{}
		}
		return v
	}
	chkNil := func(p *Path, v Value) {
		if i, ok := v.(Iface); !ok || i.T == nil {
			panic(goPanic{Iface{T: p.w.canon(types.Typ[types.String]), V: Str{s: "sync/atomic: store of nil value into Value"}}})
		}
	}
	side("(*sync/atomic.Value).Load", false, func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value { return ifz(s.pool[0]) })
	side("(*sync/atomic.Value).Store", true, func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value {
		chkNil(p, a[0])
		if o, ok := s.pool[0].(Iface); ok && o.T != nil && o.T != a[0].(Iface).T {
			panic(goPanic{Iface{T: p.w.canon(types.Typ[types.String]), V: Str{s: "sync/atomic: store of inconsistently typed value into Value"}}})
		}
		s.pool[0] = a[0]
		return nil
	})
	side("(*sync/atomic.Value).Swap", true, func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value {
		chkNil(p, a[0])
		o := ifz(s.pool[0])
		s.pool[0] = a[0]
		return o
	})
	side("(*sync/atomic.Value).CompareAndSwap", true, func(p *Path, s *SyncObj, fn *ssa.Function, a []Value) Value {
		if p.branch(p.eq(ifz(s.pool[0]), a[0])) {
			s.pool[0] = a[1]
			return p.w.ts.True
		}
		return p.w.ts.False
	})

	// ---- runtime
	reg("runtime.Gosched", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		return nil, p.visible(g, "gosched", false, nil, g)
	})
	pure("runtime.GC runtime.KeepAlive runtime.SetFinalizer runtime/debug.PrintStack runtime/debug.FreeOSMemory internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable internal/race.Read internal/race.Write internal/race.ReadRange internal/race.WriteRange (*internal/godebug.Setting).IncNonDefault", func(p *Path, g *Gor, a []Value) Value { return nil })
	pure("runtime.NumCPU runtime.GOMAXPROCS", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.Int(8) })
	pure("runtime.NumGoroutine", func(p *Path, g *Gor, a []Value) Value {
		n := 0
		for _, x := range p.gors {
			if !x.done {
				n++
			}
		}
		return p.w.ts.Int(n)
	})
	pure("runtime.Caller", func(p *Path, g *Gor, a []Value) Value {
		return Tuple{p.w.ts.Int(0), Str{}, p.w.ts.Int(0), p.w.ts.False}
	})
	pure("runtime.Callers", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.Int(0) })
	pure("runtime/debug.Stack", func(p *Path, g *Gor, a []Value) Value { return p.strToBytes(Str{s: "stack"}) })
	pure("runtime/debug.SetGCPercent", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.Int(100) })
	pure("(*internal/godebug.Setting).Value", func(p *Path, g *Gor, a []Value) Value { return Str{} })
	pure("internal/godebug.New", func(p *Path, g *Gor, a []Value) Value {
		c := new(Value)
		*c = Struct{}
		return c
	})
	pure("internal/race.Enabled", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.False })
	pure("strings.(*Builder).copyCheck (*strings.Builder).copyCheck", func(p *Path, g *Gor, a []Value) Value { return nil })
	pure("internal/abi.NoEscape", func(p *Path, g *Gor, a []Value) Value { return a[0] })
	reg("internal/abi.Escape internal/stringslite.Clone strings.Clone bytes.Clone", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := a[0].(Slice); ok && s != nil {
			n := make(Slice, len(s))
			for i := range s {
				n[i] = copyVal(s[i])
			}
			return n, true
		}
		return a[0], true
	})

	// ---- math
	f1 := func(name string, f func(float64) float64) {
		pure("math."+name, func(p *Path, g *Gor, a []Value) Value {
			t := p.termI(a[0])
			if !t.IsConst() {
				unsup("math.%s of symbolic value", name)
			}
			return p.w.ts.FP(f(t.Float()))
		})
	}
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Cbrt": math.Cbrt, "Sin": math.Sin, "Cos": math.Cos} {
		f1(n, f)
	}
	pure("math.Pow", func(p *Path, g *Gor, a []Value) Value {
		x, y := p.termI(a[0]), p.termI(a[1])
		if !x.IsConst() || !y.IsConst() {
			unsup("math.Pow of symbolic value")
		}
		return p.w.ts.FP(math.Pow(x.Float(), y.Float()))
	})
	pure("math.Mod", func(p *Path, g *Gor, a []Value) Value {
		x, y := p.termI(a[0]), p.termI(a[1])
		if !x.IsConst() || !y.IsConst() {
			unsup("math.Mod of symbolic value")
		}
		return p.w.ts.FP(math.Mod(x.Float(), y.Float()))
	})
	rnd := func(name string, mode uint64) {
		pure("math."+name, func(p *Path, g *Gor, a []Value) Value { return p.w.ts.FUn(OpFRound, p.termI(a[0]), mode) })
	}
	rnd("Ceil", 0)
	rnd("Floor", 1)
	rnd("Trunc", 2)
	rnd("RoundToEven", 3)
	rnd("Round", 4)
	pure("math.Abs", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.FUn(OpFAbs, p.termI(a[0]), 0) })
	pure("math.IsNaN", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.FUn(OpFIsNaN, p.termI(a[0]), 0) })
	pure("math.Max", func(p *Path, g *Gor, a []Value) Value {
		x, y := p.termI(a[0]), p.termI(a[1])
		if x.IsConst() && y.IsConst() {
			return p.w.ts.FP(math.Max(x.Float(), y.Float()))
		}
		return p.w.ts.Ite(p.w.ts.FBin(OpFLt, x, y), y, x)
	})
	pure("math.Min", func(p *Path, g *Gor, a []Value) Value {
		x, y := p.termI(a[0]), p.termI(a[1])
		if x.IsConst() && y.IsConst() {
			return p.w.ts.FP(math.Min(x.Float(), y.Float()))
		}
		return p.w.ts.Ite(p.w.ts.FBin(OpFLt, x, y), x, y)
	})
	pure("math.Float64bits", func(p *Path, g *Gor, a []Value) Value {
		x := p.termI(a[0])
		if !x.IsConst() {
			unsup("Float64bits of symbolic value")
		}
		return p.w.ts.BV(x.C, 64)
	})
	pure("math.Float64frombits", func(p *Path, g *Gor, a []Value) Value {
		x := p.termI(a[0])
		if !x.IsConst() {
			unsup("Float64frombits of symbolic value")
		}
		return p.w.ts.FP(math.Float64frombits(x.C))
	})
	pure("math.Float32bits", func(p *Path, g *Gor, a []Value) Value {
		x := p.termI(a[0])
		if !x.IsConst() {
			unsup("Float32bits of symbolic value")
		}
		return p.w.ts.BV(uint64(math.Float32bits(float32(x.Float()))), 32)
	})
	pure("math.Float32frombits", func(p *Path, g *Gor, a []Value) Value {
		x := p.termI(a[0])
		if !x.IsConst() {
			unsup("Float32frombits of symbolic value")
		}
		return p.w.ts.FP(float64(math.Float32frombits(uint32(x.C))))
	})

	// ---- byte searching
	bytesOf := func(p *Path, v Value) []*Term {
		switch x := v.(type) {
		case Str:
			return p.w.strBytes(x)
		case Slice:
			return p.w.strBytes(p.bytesToStr(x))
		}
		unsup("bytes of %T", v)
		return nil
	}
	idxByte := func(p *Path, g *Gor, a []Value) Value {
		c := p.termI(a[1])
		for i, b := range bytesOf(p, a[0]) {
			if p.branch(p.w.ts.Eq(b, c)) {
				return p.w.ts.Int(i)
			}
		}
		return p.w.ts.Int(-1)
	}
	pure("internal/bytealg.IndexByte internal/bytealg.IndexByteString strings.IndexByte bytes.IndexByte internal/stringslite.IndexByte", idxByte)
	pure("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString strings.LastIndexByte bytes.LastIndexByte", func(p *Path, g *Gor, a []Value) Value {
		c := p.termI(a[1])
		bs := bytesOf(p, a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if p.branch(p.w.ts.Eq(bs[i], c)) {
				return p.w.ts.Int(i)
			}
		}
		return p.w.ts.Int(-1)
	})
	pure("internal/bytealg.Count internal/bytealg.CountString", func(p *Path, g *Gor, a []Value) Value {
		c := p.termI(a[1])
		n := 0
		for _, b := range bytesOf(p, a[0]) {
			if p.branch(p.w.ts.Eq(b, c)) {
				n++
			}
		}
		return p.w.ts.Int(n)
	})
	pure("internal/bytealg.Index internal/bytealg.IndexString strings.Index bytes.Index internal/stringslite.Index internal/bytealg.IndexRabinKarp", func(p *Path, g *Gor, a []Value) Value {
		h, n := bytesOf(p, a[0]), bytesOf(p, a[1])
		for i := 0; i+len(n) <= len(h); i++ {
			c := p.w.ts.True
			for j := range n {
				c = p.w.ts.And(c, p.w.ts.Eq(h[i+j], n[j]))
			}
			if p.branch(c) {
				return p.w.ts.Int(i)
			}
		}
		return p.w.ts.Int(-1)
	})
	pure("strings.LastIndex bytes.LastIndex internal/bytealg.LastIndexRabinKarp", func(p *Path, g *Gor, a []Value) Value {
		h, n := bytesOf(p, a[0]), bytesOf(p, a[1])
		for i := len(h) - len(n); i >= 0; i-- {
			c := p.w.ts.True
			for j := range n {
				c = p.w.ts.And(c, p.w.ts.Eq(h[i+j], n[j]))
			}
			if p.branch(c) {
				return p.w.ts.Int(i)
			}
		}
		return p.w.ts.Int(-1)
	})
	pure("internal/bytealg.Equal bytes.Equal", func(p *Path, g *Gor, a []Value) Value {
		return p.w.strEq(p.w.symStr(bytesOf(p, a[0])), p.w.symStr(bytesOf(p, a[1])))
	})
	pure("internal/bytealg.Compare internal/bytealg.CompareString bytes.Compare strings.Compare", func(p *Path, g *Gor, a []Value) Value {
		x, y := p.w.symStr(bytesOf(p, a[0])), p.w.symStr(bytesOf(p, a[1]))
		ts := p.w.ts
		return ts.Ite(p.w.strEq(x, y), ts.Int(0), ts.Ite(p.w.strLess(x, y, false), ts.Int(-1), ts.Int(1)))
	})
	pure("internal/bytealg.MakeNoZero", func(p *Path, g *Gor, a []Value) Value {
		n := p.concInt(a[0], "MakeNoZero")
		s := make(Slice, n)
		for i := range s {
			s[i] = p.w.ts.small8[0]
		}
		return s
	})
	pure("internal/bytealg.Cutover", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.Int(4) })

	// ---- random numbers: any value
	rn := func(names string, f func(p *Path, a []Value) Value) {
		pure(names, func(p *Path, g *Gor, a []Value) Value { return f(p, a) })
	}
	rn("math/rand.Intn math/rand.Int63n math/rand/v2.IntN math/rand/v2.Int64N", func(p *Path, a []Value) Value {
		n := p.termI(a[0])
		v := p.fresh("rand", n.S, 0, math.MaxInt64)
		p.assume(p.w.ts.Cmp(OpSLt, v, n))
		return v
	})
	rn("math/rand.Int math/rand.Int63 math/rand/v2.Int math/rand/v2.Int64", func(p *Path, a []Value) Value {
		return p.fresh("rand", sortBV(64), 0, math.MaxInt64)
	})

	// ---- os, logging
	pure("os.Getenv", func(p *Path, g *Gor, a []Value) Value {
		v, _ := p.env(a[0])
		return v
	})
	pure("os.LookupEnv syscall.Getenv", func(p *Path, g *Gor, a []Value) Value {
		v, ok := p.env(a[0])
		return Tuple{v, p.w.ts.Bool(ok)}
	})
	pure("os.Exit", func(p *Path, g *Gor, a []Value) Value {
		if p.pos < len(p.prefix) {
			panic(pathEnd{"exit", "replayed"})
		}
		p.violate("exit", "the process is not terminated", "os.Exit", p.model, g)
		panic(pathEnd{"exit", ""})
	})
	pure("log.Print log.Printf log.Println (*log.Logger).Print (*log.Logger).Printf (*log.Logger).Println (*log.Logger).Output", func(p *Path, g *Gor, a []Value) Value {
		return Iface{}
	})
	pure("fmt.Print fmt.Printf fmt.Println fmt.Fprint fmt.Fprintf fmt.Fprintln", func(p *Path, g *Gor, a []Value) Value {
		return Tuple{p.w.ts.Int(0), Iface{}}
	})
	pure("crypto/internal/constanttime.boolToUint8", func(p *Path, g *Gor, a []Value) Value {
		return p.w.ts.Ite(a[0].(*Term), p.w.ts.BV(1, 8), p.w.ts.BV(0, 8))
	})
	// a string seen as bytes without copying; nobody may write to them
	pure("github.com/valyala/fasthttp.s2b github.com/gin-gonic/gin/internal/bytesconv.StringToBytes", func(p *Path, g *Gor, a []Value) Value {
		return p.strToBytes(a[0].(Str))
	})
	pure("fmt.Sprintf", func(p *Path, g *Gor, a []Value) Value { return p.sprintf(g, cstr(a[0]), a[1].(Slice)) })
	pure("fmt.Sprint", func(p *Path, g *Gor, a []Value) Value { return p.sprint(g, a[0].(Slice), false) })
	pure("fmt.Sprintln", func(p *Path, g *Gor, a []Value) Value { return p.sprint(g, a[0].(Slice), true) })
	pure("fmt.Errorf", func(p *Path, g *Gor, a []Value) Value { return p.errorf(g, cstr(a[0]), a[1].(Slice)) })
	pure("fmt.Appendf", func(p *Path, g *Gor, a []Value) Value {
		s := p.sprintf(g, cstr(a[1]), a[2].(Slice))
		return append(append(Slice{}, a[0].(Slice)...), p.strToBytes(s)...)
	})
	initTime()
	initSym()
	initStrconv()
	initReflect()
	initReflectMaps()
	initCtx()
}

func (p *Path) env(k Value) (Value, bool) {
	m, _ := p.extra["env"].(*Map)
	if m == nil {
		return Str{}, false
	}
	e := p.mapFind(m, k)
	if e == nil {
		return Str{}, false
	}
	return e.v, true
}

// ---- formatting

func (p *Path) sprint(g *Gor, args Slice, ln bool) Str {
	var r Str
	prevStr := true
	for i, a := range args {
		x := a.(Iface)
		_, isS := x.V.(Str)
		if i > 0 && (ln || (!isS && !prevStr)) {
			r = p.w.strCat(r, Str{s: " "})
		}
		r = p.w.strCat(r, p.fmtVal(g, x, 'v', "", 0))
		prevStr = isS
	}
	if ln {
		r = p.w.strCat(r, Str{s: "\n"})
	}
	return r
}

func (p *Path) errorf(g *Gor, f string, args Slice) Value {
	s := p.sprintf(g, f, args)
	// %w: keep the wrapped error
	n := 0
	var wrapped Value
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && n < len(args) && wrapped == nil {
			wrapped = args[n]
		}
		n++
	}
	c := new(Value)
	if w, ok := wrapped.(Iface); ok && w.T != nil {
		if t := p.w.typeByName("fmt", "wrapError"); t != nil {
			*c = Struct{s, w}
			return Iface{T: p.w.canon(types.NewPointer(t)), V: c}
		}
	}
	if t := p.w.typeByName("errors", "errorString"); t != nil {
		*c = Struct{s}
		return Iface{T: p.w.canon(types.NewPointer(t)), V: c}
	}
	unsup("errors package missing")
	return nil
}

func (p *Path) sprintf(g *Gor, f string, args Slice) Str {
	w := p.w
	var out Str
	n := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = w.strCat(out, Str{s: f[i:]})
			break
		}
		out = w.strCat(out, Str{s: f[i : i+j]})
		i += j + 1
		flags := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.*", f[i]) >= 0 {
			if f[i] == '*' && n < len(args) {
				x, ok := args[n].(Iface).V.(*Term)
				if !ok || x.S.K == SBool || x.S.K == SFP {
					unsup("fmt flag *")
				}
				flags += strconv.FormatInt(p.concTerm(x), 10)
				n++
			} else {
				flags += string(f[i])
			}
			i++
		}
		if i >= len(f) {
			out = w.strCat(out, Str{s: "%!(NOVERB)"})
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = w.strCat(out, Str{s: "%"})
			continue
		}
		if n >= len(args) {
			out = w.strCat(out, Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[n].(Iface)
		n++
		out = w.strCat(out, p.fmtVal(g, a, verb, flags, 0))
	}
	if n < len(args) {
		out = w.strCat(out, Str{s: "%!(EXTRA "})
		for k := n; k < len(args); k++ {
			a := args[k].(Iface)
			if k > n {
				out = w.strCat(out, Str{s: ", "})
			}
			out = w.strCat(out, Str{s: p.typeName(a.T) + "="})
			out = w.strCat(out, p.fmtVal(g, a, 'v', "", 0))
		}
		out = w.strCat(out, Str{s: ")"})
	}
	return out
}

func (p *Path) typeName(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return types.TypeString(t, func(pk *types.Package) string { return pk.Name() })
}

// callMethod invokes a niladic method by name if the type has it.
func (p *Path) strMethod(g *Gor, a Iface, name string) (Str, bool) {
	if a.T == nil {
		return Str{}, false
	}
	if _, ok := a.V.(RTypeV); ok {
		if name == "String" {
			return Str{s: p.typeName(a.V.(RTypeV).t)}, true
		}
		return Str{}, false
	}
	if _, ok := a.V.(*Native); ok {
		return Str{}, false
	}
	ms := p.w.strMethodOf(a.T, name)
	if ms == nil {
		return Str{}, false
	}
	if pv, ok := a.V.(*Value); ok && pv == nil {
		return Str{s: "<nil>"}, true
	}
	r := p.callSync(g, &FuncVal{fn: ms}, []Value{a.V})
	s, ok := r.(Str)
	return s, ok
}

func (w *Worker) strMethodOf(t types.Type, name string) *ssa.Function {
	k := methodKey{t, "$" + name, nil}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.methodByName(t, nil, name)
	if f != nil {
		sg := f.Signature
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), types.Typ[types.String]) {
			f = nil
		}
	}
	w.methods[k] = f
	return f
}

func (p *Path) fmtVal(g *Gor, a Iface, verb byte, flags string, depth int) Str {
	w := p.w
	ts := w.ts
	if a.T == nil {
		if verb == 'v' || verb == 's' && depth > 0 {
			return Str{s: "<nil>"}
		}
		if verb == 'T' {
			return Str{s: "<nil>"}
		}
		return Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	if depth > 8 {
		return Str{s: "..."}
	}
	if verb == 'T' {
		return Str{s: p.typeName(a.T)}
	}
	if verb == 'p' {
		return Str{s: fmt.Sprintf("0x%x", p.addrOf(a.V))}
	}
	if verb == 'w' {
		verb = 'v'
	}
	if rv, ok := a.V.(RVal); ok {
		if rv.t == nil {
			return Str{s: "<invalid reflect.Value>"}
		}
		return p.fmtVal(g, Iface{T: w.canon(rv.t), V: p.rvGet(rv)}, verb, flags, depth)
	}
	sharp := strings.Contains(flags, "#")
	if (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') && !sharp {
		if s, ok := p.strMethod(g, a, "Error"); ok {
			return p.fmtStr(g, s, verb, flags)
		}
		if s, ok := p.strMethod(g, a, "String"); ok {
			return p.fmtStr(g, s, verb, flags)
		}
	}
	pad := func(s Str) Str { return p.pad(s, flags) }
	switch u := a.T.Underlying().(type) {
	case *types.Basic:
		switch x := a.V.(type) {
		case Str:
			return p.fmtStr(g, x, verb, flags)
		case *Term:
			if x.S.K == SBool {
				if p.branch(x) {
					return pad(Str{s: "true"})
				}
				return pad(Str{s: "false"})
			}
			if x.S.K == SFP {
				if !x.IsConst() {
					unsup("formatting symbolic float")
				}
				if w.ti(a.T).w == 32 {
					return Str{s: fmt.Sprintf("%"+flags+string(verb), float32(x.Float()))}
				}
				return Str{s: fmt.Sprintf("%"+flags+string(verb), x.Float())}
			}
			sg := w.ti(a.T).signed
			if x.IsConst() {
				if sg {
					return Str{s: fmt.Sprintf("%"+flags+string(verb), sx(x.C, x.S.W))}
				}
				return Str{s: fmt.Sprintf("%"+flags+string(verb), x.C)}
			}
			base := uint64(10)
			switch verb {
			case 'x':
				base = 16
			case 'v', 'd':
			case 'c':
				return pad(w.symStr(p.encodeRune(ts.Conv(x, sg, 32))))
			default:
				unsup("formatting symbolic integer with %%%c", verb)
			}
			var s Str
			if sg {
				s = p.callByName(g, "strconv", "FormatInt", ts.Conv(x, true, 64), ts.Int(int(base))).(Str)
			} else {
				s = p.callByName(g, "strconv", "FormatUint", ts.Conv(x, false, 64), ts.Int(int(base))).(Str)
			}
			return pad(s)
		}
		_ = u
	case *types.Pointer:
		pv, ok := a.V.(*Value)
		if ok && pv == nil {
			return pad(Str{s: "<nil>"})
		}
		if ok && depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return w.strCat(Str{s: "&"}, p.fmtVal(g, Iface{T: w.canon(u.Elem()), V: *pv}, verb, flags, depth+1))
			}
		}
		return Str{s: fmt.Sprintf("0x%x", p.addrOf(a.V))}
	case *types.Struct:
		s, ok := a.V.(Struct)
		if !ok {
			break
		}
		out := Str{s: "{"}
		if sharp {
			out = Str{s: p.typeName(a.T) + "{"}
		}
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				if sharp {
					out = w.strCat(out, Str{s: ", "})
				} else {
					out = w.strCat(out, Str{s: " "})
				}
			}
			if strings.Contains(flags, "+") || sharp {
				out = w.strCat(out, Str{s: u.Field(i).Name() + ":"})
			}
			out = w.strCat(out, p.fmtElem(g, u.Field(i).Type(), s[i], verb, flags, depth+1))
		}
		return w.strCat(out, Str{s: "}"})
	case *types.Slice, *types.Array:
		var et types.Type
		var el []Value
		switch y := a.V.(type) {
		case Slice:
			et = u.(*types.Slice).Elem()
			el = y
		case Array:
			et = u.(*types.Array).Elem()
			el = y
		}
		if w.ti(et).w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return p.fmtStr(g, p.bytesToStr(Slice(el)), verb, flags)
		}
		out := Str{s: "["}
		if sharp {
			out = Str{s: p.typeName(a.T) + "{"}
		}
		for i := range el {
			if i > 0 {
				if sharp {
					out = w.strCat(out, Str{s: ", "})
				} else {
					out = w.strCat(out, Str{s: " "})
				}
			}
			out = w.strCat(out, p.fmtElem(g, et, el[i], verb, flags, depth+1))
		}
		if sharp {
			return w.strCat(out, Str{s: "}"})
		}
		return w.strCat(out, Str{s: "]"})
	case *types.Map:
		m := a.V.(*Map)
		out := Str{s: "map["}
		if m != nil {
			// fmt sorts keys; only concrete string or int keys are supported in order
			ents := append([]*mapEntry(nil), m.ents...)
			sortEntries(ents)
			for i, e := range ents {
				if i > 0 {
					out = w.strCat(out, Str{s: " "})
				}
				out = w.strCat(out, p.fmtElem(g, u.Key(), e.k, verb, flags, depth+1))
				out = w.strCat(out, Str{s: ":"})
				out = w.strCat(out, p.fmtElem(g, u.Elem(), e.v, verb, flags, depth+1))
			}
		}
		return w.strCat(out, Str{s: "]"})
	case *types.Interface:
		return p.fmtVal(g, a.V.(Iface), verb, flags, depth)
	case *types.Chan, *types.Signature:
		if isNilPtr(a.V) {
			return Str{s: "<nil>"}
		}
		return Str{s: fmt.Sprintf("0x%x", p.addrOf(a.V))}
	}
	unsup("formatting %v", a.T)
	return Str{}
}

func sortEntries(e []*mapEntry) {
	less := func(a, b Value) bool {
		switch x := a.(type) {
		case Str:
			y, ok := b.(Str)
			return ok && x.sym == nil && y.sym == nil && x.s < y.s
		case *Term:
			y, ok := b.(*Term)
			return ok && x.IsConst() && y.IsConst() && sx(x.C, x.S.W) < sx(y.C, y.S.W)
		case Iface:
			y, ok := b.(Iface)
			if ok {
				if s, ok := x.V.(Str); ok {
					if t, ok := y.V.(Str); ok {
						return s.s < t.s
					}
				}
			}
		}
		return false
	}
	for i := 1; i < len(e); i++ {
		for j := i; j > 0 && less(e[j].k, e[j-1].k); j-- {
			e[j], e[j-1] = e[j-1], e[j]
		}
	}
}

func (p *Path) fmtElem(g *Gor, t types.Type, v Value, verb byte, flags string, depth int) Str {
	if i, ok := v.(Iface); ok && types.IsInterface(t) {
		if i.T == nil {
			return Str{s: "<nil>"}
		}
		return p.fmtVal(g, i, verb, flags, depth)
	}
	return p.fmtVal(g, Iface{T: p.w.canon(t), V: v}, verb, flags, depth)
}

func (p *Path) pad(s Str, flags string) Str {
	width := 0
	minus := false
	zero := false
	for i := 0; i < len(flags); i++ {
		c := flags[i]
		switch {
		case c == '-':
			minus = true
		case c == '0' && width == 0:
			zero = true
		case c >= '0' && c <= '9':
			width = width*10 + int(c-'0')
		case c == '.':
			i = len(flags)
		}
	}
	for s.Len() < width {
		if minus {
			s = p.w.strCat(s, Str{s: " "})
		} else if zero {
			s = p.w.strCat(Str{s: "0"}, s)
		} else {
			s = p.w.strCat(Str{s: " "}, s)
		}
	}
	return s
}

func (p *Path) fmtStr(g *Gor, s Str, verb byte, flags string) Str {
	switch verb {
	case 'v', 's':
		if strings.Contains(flags, "#") && verb == 'v' {
			return p.callByName(g, "strconv", "Quote", s).(Str)
		}
		if i := strings.IndexByte(flags, '.'); i >= 0 {
			n := 0
			fmt.Sscanf(flags[i+1:], "%d", &n)
			if s.Len() > n {
				s = s.slice(0, n)
			}
		}
		return p.pad(s, flags)
	case 'q':
		return p.callByName(g, "strconv", "Quote", s).(Str)
	case 'x', 'X':
		if s.sym == nil {
			return Str{s: fmt.Sprintf("%"+flags+string(verb), s.s)}
		}
		var out []*Term
		ts := p.w.ts
		hex := func(n *Term) *Term {
			base := uint64('a')
			if verb == 'X' {
				base = 'A'
			}
			return ts.Ite(ts.Cmp(OpULt, n, ts.BV(10, 8)), ts.Bin(OpAdd, n, ts.BV('0', 8)), ts.Bin(OpAdd, n, ts.BV(base-10, 8)))
		}
		for _, b := range s.sym {
			out = append(out, hex(ts.Bin(OpLShr, b, ts.BV(4, 8))), hex(ts.Bin(OpBAnd, b, ts.BV(15, 8))))
		}
		return p.w.symStr(out)
	case 'd':
		if s.sym == nil {
			return Str{s: fmt.Sprintf("%d", s.s)}
		}
		return p.w.strCat(p.w.strCat(Str{s: "%!d(string="}, s), Str{s: ")"})
	}
	if s.sym == nil {
		return Str{s: fmt.Sprintf("%"+flags+string(verb), s.s)}
	}
	unsup("formatting string with %%%c", verb)
	return Str{}
}

func (p *Path) callByName(g *Gor, pkg, name string, args ...Value) Value {
	pk := p.w.prog.byPath[pkg]
	if pk == nil {
		unsup("package %s not loaded", pkg)
	}
	fn := pk.Func(name)
	if fn == nil {
		unsup("no function %s.%s", pkg, name)
	}
	return p.callSync(g, &FuncVal{fn: fn}, args)
}

func nativeMethod(n *Native, name string) func(p *Path, g *Gor, a []Value) Value { return nil }
