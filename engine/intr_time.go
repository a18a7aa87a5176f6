package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math"
)

func timeMarked(v Value) (*Term, bool) {
	s, ok := v.(Struct)
	if !ok || len(s) != 3 {
		return nil, false
	}
	w, ok := s[0].(*Term)
	if !ok || !w.IsConst() || w.C != timeMark {
		return nil, false
	}
	return s[1].(*Term), true
}

var negUnix = -unixToInternal

const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

// timeNs gives nanoseconds since the Unix epoch; the zero Time maps to a very early instant.
func (p *Path) timeNs(v Value) *Term {
	if t, ok := timeMarked(v); ok {
		return t
	}
	s := v.(Struct)
	w, e := p.termI(s[0]), p.termI(s[1])
	if !w.IsConst() || !e.IsConst() {
		unsup("symbolic native time")
	}
	if w.C == 0 && e.C == 0 {
		return p.w.ts.BV(uint64(zeroTimeNs()), 64)
	}
	if w.C>>63 == 1 {
		unsup("monotonic time")
	}
	sec := int64(e.C) - unixToInternal
	if sec > 9e9 || sec < -9e9 {
		if sec > 0 {
			return p.w.ts.BV(uint64(math.MaxInt64), 64)
		}
		return p.w.ts.BV(uint64(zeroTimeNs()), 64)
	}
	return p.w.ts.BV(uint64(sec*1e9+int64(w.C&(1<<30-1))), 64)
}

func zeroTimeNs() int64 { return math.MinInt64 }

func initTime() {
	reg("time.Now", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if p.boot > 0 {
			return p.timeValue(p.w.ts.Int(0)), true
		}
		if !p.clockRead(g, "now") {
			return nil, false
		}
		p.tickClock(nil)
		return p.timeValue(p.now), true
	})
	pure("time.runtimeNano time.runtimeNow", func(p *Path, g *Gor, a []Value) Value { return p.now })
	reg("time.Since", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if !p.clockRead(g, "now") {
			return nil, false
		}
		p.tickClock(nil)
		return p.timeSub(p.timeValue(p.now), a[0]), true
	})
	reg("time.Until", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if !p.clockRead(g, "now") {
			return nil, false
		}
		p.tickClock(nil)
		return p.timeSub(a[0], p.timeValue(p.now)), true
	})
	pure("(time.Time).UnixNano", func(p *Path, g *Gor, a []Value) Value { return p.timeNs(a[0]) })
	div := func(names string, d int64) {
		reg(names, func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
			t := p.timeNs(a[0])
			if t.IsConst() && int64(t.C) == zeroTimeNs() {
				x := -unixToInternal * (1e9 / d)
				return p.w.ts.BV(uint64(x), 64), true
			}
			return p.floorDiv(t, d), true
		})
	}
	div("(time.Time).Unix", 1e9)
	div("(time.Time).UnixMilli", 1e6)
	div("(time.Time).UnixMicro", 1e3)
	pure("(time.Time).Nanosecond", func(p *Path, g *Gor, a []Value) Value {
		t := p.timeNs(a[0])
		return p.w.ts.Bin(OpSub, t, p.w.ts.Bin(OpMul, p.floorDiv(t, 1e9), p.w.ts.BV(1e9, 64)))
	})
	pure("(time.Time).Sub", func(p *Path, g *Gor, a []Value) Value { return p.timeSub(a[0], a[1]) })
	reg("(time.Time).Add", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		t, ok := timeMarked(a[0])
		if !ok {
			if d := p.termI(a[1]); d.IsConst() && d.C == 0 {
				return a[0], true
			}
			n := p.timeNs(a[0])
			if n.IsConst() && int64(n.C) == zeroTimeNs() {
				unsup("adding to the zero time")
			}
			t = n
		}
		return p.timeValue(p.w.ts.Bin(OpAdd, t, p.termI(a[1]))), true
	})
	cmp := func(name string, f func(p *Path, x, y *Term) Value) {
		pure("(time.Time)."+name, func(p *Path, g *Gor, a []Value) Value { return f(p, p.timeNs(a[0]), p.timeNs(a[1])) })
	}
	cmp("After", func(p *Path, x, y *Term) Value { return p.w.ts.Cmp(OpSLt, y, x) })
	cmp("Before", func(p *Path, x, y *Term) Value { return p.w.ts.Cmp(OpSLt, x, y) })
	cmp("Equal", func(p *Path, x, y *Term) Value { return p.w.ts.Eq(x, y) })
	cmp("Compare", func(p *Path, x, y *Term) Value {
		ts := p.w.ts
		return ts.Ite(ts.Eq(x, y), ts.Int(0), ts.Ite(ts.Cmp(OpSLt, x, y), ts.Int(-1), ts.Int(1)))
	})
	pure("(time.Time).IsZero", func(p *Path, g *Gor, a []Value) Value {
		n := p.timeNs(a[0])
		return p.w.ts.Bool(n.IsConst() && int64(n.C) == zeroTimeNs())
	})
	pure("(time.Time).UTC (time.Time).Local (time.Time).In (time.Time).Round (time.Time).Truncate", func(p *Path, g *Gor, a []Value) Value {
		if len(a) > 1 {
			if d, ok := a[1].(*Term); ok {
				// Round/Truncate
				if d.IsConst() && int64(d.C) <= 0 {
					return a[0]
				}
				unsup("Time.Round/Truncate")
			}
		}
		return a[0]
	})
	pure("time.Unix", func(p *Path, g *Gor, a []Value) Value {
		ts := p.w.ts
		s, n := p.termI(a[0]), p.termI(a[1])
		return p.timeValue(ts.Bin(OpAdd, ts.Bin(OpMul, s, ts.BV(1e9, 64)), n))
	})
	pure("time.UnixMilli", func(p *Path, g *Gor, a []Value) Value {
		return p.timeValue(p.w.ts.Bin(OpMul, p.termI(a[0]), p.w.ts.BV(1e6, 64)))
	})
	internal := func(name string, f func(p *Path, t *Term) Value, raw func(p *Path, s Struct) Value) {
		pure("(*time.Time)."+name, func(p *Path, g *Gor, a []Value) Value {
			v := p.load(a[0], nil)
			if t, ok := timeMarked(v); ok {
				return f(p, t)
			}
			return raw(p, v.(Struct))
		})
	}
	internal("sec", func(p *Path, t *Term) Value {
		return p.w.ts.Bin(OpAdd, p.floorDiv(t, 1e9), p.w.ts.BV(uint64(unixToInternal), 64))
	}, func(p *Path, s Struct) Value { return s[1] })
	internal("unixSec", func(p *Path, t *Term) Value { return p.floorDiv(t, 1e9) }, func(p *Path, s Struct) Value {
		return p.w.ts.Bin(OpAdd, p.termI(s[1]), p.w.ts.BV(uint64(negUnix), 64))
	})
	internal("nsec", func(p *Path, t *Term) Value {
		return p.w.ts.Conv(p.w.ts.Bin(OpSub, t, p.w.ts.Bin(OpMul, p.floorDiv(t, 1e9), p.w.ts.BV(1e9, 64))), true, 32)
	}, func(p *Path, s Struct) Value {
		return p.w.ts.Conv(p.w.ts.Bin(OpBAnd, p.termI(s[0]), p.w.ts.BV(1<<30-1, 64)), true, 32)
	})

	// ---- timers
	mk := func(p *Path, typ string, ch *Chan, t *Timer) Value {
		c := new(Value)
		ty := p.w.typeByName("time", typ)
		st := p.w.zero(ty).(Struct)
		if ch != nil {
			st[0] = ch
		}
		*c = st
		t.obj = c
		tm, _ := p.extra["timers"].(map[*Value]*Timer)
		if tm == nil {
			tm = map[*Value]*Timer{}
			p.extra["timers"] = tm
		}
		tm[c] = t
		return c
	}
	timeT := func(p *Path) *Chan {
		ch := p.newChan(1, p.w.typeByName("time", "Time"))
		ch.timer = true
		return ch
	}
	gate := func(p *Path, g *Gor) bool {
		// arming a timer reads the clock
		return p.clockRead(g, "timer-arm")
	}
	reg("time.NewTimer", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if !gate(p, g) {
			return nil, false
		}
		ch := timeT(p)
		return mk(p, "Timer", ch, p.newTimer(p.termI(a[0]), nil, ch, nil)), true
	})
	reg("time.After", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if !gate(p, g) {
			return nil, false
		}
		ch := timeT(p)
		p.newTimer(p.termI(a[0]), nil, ch, nil)
		return ch, true
	})
	reg("time.NewTicker time.Tick", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		d := p.termI(a[0])
		if p.branch(p.w.ts.Cmp(OpSLe, d, p.w.ts.Int(0))) {
			if fn.Name() == "Tick" {
				return (*Chan)(nil), true
			}
			panic(goPanic{Iface{T: p.w.canon(types.Typ[types.String]), V: Str{s: "non-positive interval for NewTicker"}}})
		}
		if !gate(p, g) {
			return nil, false
		}
		ch := timeT(p)
		t := p.newTimer(d, d, ch, nil)
		if fn.Name() == "Tick" {
			return ch, true
		}
		return mk(p, "Ticker", ch, t), true
	})
	reg("time.AfterFunc", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if !gate(p, g) {
			return nil, false
		}
		f := a[1].(*FuncVal)
		var t *Timer
		t = p.newTimer(p.termI(a[0]), nil, nil, nil)
		t.fn = func() {
			ng := p.spawn(&Gor{id: -3, vc: vcCopy(t.vc)}, f, nil, 0)
			_ = ng
		}
		return mk(p, "Timer", nil, t), true
	})
	reg("time.Sleep", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if g.woken != nil {
			g.woken = nil
			return nil, true
		}
		if p.branch(p.w.ts.Cmp(OpSLe, p.termI(a[0]), p.w.ts.Int(0))) {
			return nil, true
		}
		if p.noYield > 0 {
			unsup("sleep in atomic section")
		}
		if !p.clockRead(g, "sleep") {
			return nil, false
		}
		p.newTimer(p.termI(a[0]), nil, nil, func() {
			g.parked = false
			g.why = ""
			g.woken = &wake{kind: "sleep"}
			p.wakeEdge(g)
		})
		p.park(g, "sleep")
		return nil, false
	})
	timerOf := func(p *Path, v Value) *Timer {
		c, ok := v.(*Value)
		if !ok || c == nil {
			p.goPanicStr("invalid memory address or nil pointer dereference")
		}
		tm, _ := p.extra["timers"].(map[*Value]*Timer)
		t := tm[c]
		if t == nil {
			unsup("uninitialised timer")
		}
		return t
	}
	reg("(*time.Timer).Stop (*time.Ticker).Stop", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		t := timerOf(p, a[0])
		if t.ch != nil {
			if !p.visible(g, "timer-stop", true, nil, t, t.ch) {
				return nil, false
			}
		} else if !p.visible(g, "timer-stop", true, nil, t) {
			return nil, false
		}
		was := t.active
		t.active = false
		t.pend = nil
		if t.ch != nil { // Go 1.23: no stale value after Stop
			was = was || len(t.ch.buf) > 0
			t.ch.buf = nil
			t.ch.bufVC = nil
		}
		return p.w.ts.Bool(was), true
	})
	reg("(*time.Timer).Reset (*time.Ticker).Reset", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		t := timerOf(p, a[0])
		objs := []any{t}
		ro := []any{clockObj}
		if p.autoClk {
			objs, ro = []any{t, clockObj}, nil
		}
		if t.ch != nil {
			objs = append(objs, t.ch)
		}
		if !p.visibleRO(g, "timer-reset", true, nil, ro, objs...) {
			return nil, false
		}
		was := t.active
		if t.ch != nil {
			was = was || len(t.ch.buf) > 0
			t.ch.buf = nil
			t.ch.bufVC = nil
		}
		d := p.termI(a[1])
		if t.period != nil {
			if p.branch(p.w.ts.Cmp(OpSLe, d, p.w.ts.Int(0))) {
				panic(goPanic{Iface{T: p.w.canon(types.Typ[types.String]), V: Str{s: "non-positive interval for Ticker.Reset"}}})
			}
			t.period = d
		}
		p.armTimer(t, d)
		return p.w.ts.Bool(was), true
	})
}

func (p *Path) floorDiv(t *Term, d int64) *Term {
	ts := p.w.ts
	c := ts.BV(uint64(d), 64)
	q := ts.Bin(OpSDiv, t, c)
	if t.Lo >= 0 {
		return q
	}
	r := ts.Bin(OpSRem, t, c)
	return ts.Ite(ts.Cmp(OpSLt, r, ts.Int(0)), ts.Bin(OpSub, q, ts.Int(1)), q)
}

// clockRead is a reading of the clock; with the automatic clock it also moves it.
func (p *Path) clockRead(g *Gor, kind string) bool {
	if p.autoClk {
		return p.visible(g, kind, true, nil, clockObj)
	}
	return p.visible(g, kind, false, nil, clockObj)
}

// timeSub models Time.Sub with saturation against the zero time.
func (p *Path) timeSub(x, y Value) Value {
	a, b := p.timeNs(x), p.timeNs(y)
	ts := p.w.ts
	zero := func(t *Term) bool { return t.IsConst() && int64(t.C) == zeroTimeNs() }
	switch {
	case zero(a) && zero(b):
		return ts.Int(0)
	case zero(b):
		return ts.BV(uint64(math.MaxInt64), 64)
	case zero(a):
		return ts.BV(uint64(1)<<63, 64)
	}
	return ts.Bin(OpSub, a, b)
}
