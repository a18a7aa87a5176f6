package main

import (
	"fmt"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// min64 and max64 are the bounds known of a term.
func min64(t *Term) int64 {
	if t.IsConst() {
		return sx(t.C, 64)
	}
	if t.Lo <= t.Hi {
		return t.Lo
	}
	return math.MinInt64
}

func max64(t *Term) int64 {
	if t.IsConst() {
		return sx(t.C, 64)
	}
	if t.Lo <= t.Hi {
		return t.Hi
	}
	return math.MaxInt64
}

// The harness interface (package sym).
func initSym() {
	in := func(p *Path, name string, s Sort, lo, hi int64) *Term {
		t := p.fresh(name, s, lo, hi)
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: "int", term: t})
		return t
	}
	symReg("Bool", func(p *Path, g *Gor, a []Value) Value { return in(p, cstr(a[0]), sBool, 1, 0) })
	symReg("Int", func(p *Path, g *Gor, a []Value) Value {
		lo, hi := p.termI(a[1]), p.termI(a[2])
		if lo.IsConst() && hi.IsConst() {
			return in(p, cstr(a[0]), sortBV(64), sx(lo.C, 64), sx(hi.C, 64))
		}
		if os.Getenv("GOSYM_BOUNDS") != "" {
			fmt.Fprintln(os.Stderr, "symbolic bounds", cstr(a[0]), g.where())
		}
		t := in(p, cstr(a[0]), sortBV(64), min64(lo), max64(hi))
		p.assume(p.w.ts.And(p.w.ts.Cmp(OpSLe, lo, t), p.w.ts.Cmp(OpSLe, t, hi)))
		return t
	})
	symIntr["Int64"] = symIntr["Int"]
	symIntr["Duration"] = symIntr["Int"]
	symReg("Byte", func(p *Path, g *Gor, a []Value) Value {
		return in(p, cstr(a[0]), sortBV(8), math.MinInt64, math.MaxInt64)
	})
	mkBytes := func(p *Path, name string, n int) []*Term {
		b := make([]*Term, n)
		for i := range b {
			b[i] = p.fresh(fmt.Sprintf("%s[%d]", name, i), sortBV(8), 1, 0)
		}
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: "bytes", str: b})
		return b
	}
	symReg("String", func(p *Path, g *Gor, a []Value) Value {
		return p.w.symStr(mkBytes(p, cstr(a[0]), p.concInt(a[1], "String")))
	})
	symReg("StringUpTo", func(p *Path, g *Gor, a []Value) Value {
		lo, hi := p.concInt(a[1], "String"), p.concInt(a[2], "String")
		n := lo + p.choose("len", hi-lo+1)
		return p.w.symStr(mkBytes(p, cstr(a[0]), n))
	})
	symReg("Choose", func(p *Path, g *Gor, a []Value) Value {
		n := p.choose(cstr(a[0]), p.concInt(a[1], "Choose"))
		p.inputs = append(p.inputs, inputRec{Name: cstr(a[0]), Kind: "int", n: n})
		return p.w.ts.Int(n)
	})
	symReg("Assume", func(p *Path, g *Gor, a []Value) Value { p.assume(p.termI(a[0])); return nil })
	symReg("Assert", func(p *Path, g *Gor, a []Value) Value { p.assert(p.termI(a[0]), cstr(a[1]), g); return nil })
	symReg("Unsupported", func(p *Path, g *Gor, a []Value) Value { unsup("harness: " + cstr(a[0])); return nil })
	symReg("Cover", func(p *Path, g *Gor, a []Value) Value { p.reached[cstr(a[0])] = true; return nil })
	symReg("Concrete", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.BV(uint64(p.concTerm(p.termI(a[0]))), 64) })
	symIntr["Now"] = func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if p.noYield == 0 && !p.visible(g, "now", false, nil, clockObj) {
			return nil, false
		}
		return p.now, true
	}
	symReg("SetNow", func(p *Path, g *Gor, a []Value) Value {
		p.now = p.termI(a[0])
		return nil
	})
	symIntr["Advance"] = func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if !p.visible(g, "advance", true, nil, clockObj) {
			return nil, false
		}
		p.now = p.w.ts.Bin(OpAdd, p.now, p.termI(a[0]))
		return nil, true
	}
	symReg("AutoClock", func(p *Path, g *Gor, a []Value) Value {
		p.autoClk = true
		p.now = p.fresh("clk0", sortBV(64), 0, maxClock)
		return nil
	})
	symReg("Param", func(p *Path, g *Gor, a []Value) Value {
		if v, ok := p.cfg.Params[cstr(a[0])]; ok {
			return p.w.ts.Int(v)
		}
		return a[1]
	})
	symReg("OnExit", func(p *Path, g *Gor, a []Value) Value { return nil })
	symReg("Symbolic", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.True })
	symReg("Setenv", func(p *Path, g *Gor, a []Value) Value {
		m, _ := p.extra["env"].(*Map)
		if m == nil {
			m = p.newMap(nil)
			p.extra["env"] = m
		}
		p.mapSet(m, a[0], a[1])
		return nil
	})
	// Atomic runs f without interleaving and without race checking.
	atomic := func(p *Path, g *Gor, f Value) {
		sv, sm := p.extra["noRace"], p.multi
		p.extra["noRace"] = true
		p.multi = false
		p.callSync(g, f.(*FuncVal), nil)
		p.extra["noRace"] = sv
		p.multi = sm || (p.cfg.RaceOn && len(p.gors) > 1)
	}
	symIntr["Ghost"] = func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if !p.visibleRO(g, "ghost", true, nil, []any{clockObj}, ghostObj) {
			return nil, false
		}
		// order between ghost sections is also an ordering for the race detector's view of ghost data
		atomic(p, g, a[0])
		return nil, true
	}
	symIntr["Yield"] = func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		return nil, p.visible(g, "yield", true, nil, ghostObj)
	}
	symIntr["Quiesce"] = func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if g.woken != nil {
			g.woken = nil
			// everything that happened is ordered before
			for _, o := range p.gors {
				p.hbAcquire(g, o.vc)
			}
			return nil, true
		}
		if p.noYield > 0 {
			unsup("Quiesce in atomic section")
		}
		if p.alone() {
			return nil, true
		}
		p.park(g, "quiesce")
		return nil, false
	}
	symReg("Goroutines", func(p *Path, g *Gor, a []Value) Value {
		n := 0
		for _, x := range p.gors {
			if !x.done && x != g {
				n++
			}
		}
		return p.w.ts.Int(n)
	})
	symReg("MaxFires", func(p *Path, g *Gor, a []Value) Value { return nil })
	symReg("Fail", func(p *Path, g *Gor, a []Value) Value { p.assert(p.w.ts.False, cstr(a[0]), g); return nil })
	symReg("Eq", func(p *Path, g *Gor, a []Value) Value { return p.w.strEq(a[0].(Str), a[1].(Str)) })
	symReg("And", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.And(p.termI(a[0]), p.termI(a[1])) })
	symReg("Or", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.Or(p.termI(a[0]), p.termI(a[1])) })
	symReg("Not", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.Not(p.termI(a[0])) })
	symReg("Implies", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.Implies(p.termI(a[0]), p.termI(a[1])) })
	symReg("IteInt", func(p *Path, g *Gor, a []Value) Value { return p.w.ts.Ite(p.termI(a[0]), p.termI(a[1]), p.termI(a[2])) })
	symReg("B2I", func(p *Path, g *Gor, a []Value) Value {
		return p.w.ts.Ite(p.termI(a[0]), p.w.ts.Int(1), p.w.ts.Int(0))
	})
	symReg("Trace", func(p *Path, g *Gor, a []Value) Value {
		if p.cfg.Trace {
			fmt.Println("TRACE", cstr(a[0]), showVal(a[1]))
		}
		return nil
	})
}

var ghostObj = &struct{ x int }{2}

func initCtx() {
	// context: real source, each operation executed as one step. All contexts
	// derived from one another share a root object that stands for the tree.
	with := func(names string) {
		reg(names, func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
			root, known := p.ctxRoot(a[0])
			clock := strings.Contains(fn.Name(), "Timeout") || strings.Contains(fn.Name(), "Deadline")
			switch {
			case !known:
				if p.noYield == 0 && !p.visibleUni(g, fn.Name(), nil) {
					return nil, false
				}
			case root != nil:
				ro := []any{}
				objs := []any{root}
				if clock && p.autoClk {
					objs = append(objs, clockObj)
				} else if clock {
					ro = append(ro, clockObj)
				}
				if !p.visibleRO(g, fn.Name(), true, nil, ro, objs...) {
					return nil, false
				}
			case clock:
				if !p.clockRead(g, fn.Name()) {
					return nil, false
				}
			}
			nt := len(p.timers)
			r := p.callRaw(g, fn, a)
			if known && root == nil {
				root = &ctxTree{}
			}
			if known {
				m, _ := p.extra["ctxRoots"].(map[*Value]any)
				if m == nil {
					m = map[*Value]any{}
					p.extra["ctxRoots"] = m
				}
				if tu, ok := r.(Tuple); ok {
					if ifc, ok := tu[0].(Iface); ok {
						if c, ok := ifc.V.(*Value); ok {
							m[c] = root
							// the embedded cancelCtx of a timerCtx has the same address or is its first field
							if st, ok := (*c).(Struct); ok && len(st) > 0 {
								m[&st[0]] = root
							}
						}
					}
				}
				for _, t := range p.timers[nt:] {
					t.tag = root
				}
			}
			return r, true
		})
	}
	with("context.WithCancel context.WithTimeout context.WithDeadline context.WithTimeoutCause context.WithDeadlineCause context.WithCancelCause")
	op := func(names string, write bool) {
		reg(names, func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
			if p.noYield == 0 {
				m, _ := p.extra["ctxRoots"].(map[*Value]any)
				c, _ := a[0].(*Value)
				if root, ok := m[c]; ok && c != nil {
					if !p.visible(g, fn.Name(), write, nil, root) {
						return nil, false
					}
				} else if !p.visibleUni(g, fn.Name(), nil) {
					return nil, false
				}
			}
			return p.callRaw(g, fn, a), true
		})
	}
	op("(*context.cancelCtx).cancel (*context.timerCtx).cancel", true)
	op("(*context.cancelCtx).Err", false)
	reg("(*context.cancelCtx).propagateCancel", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		if p.noYield == 0 && !p.visibleUni(g, fn.Name(), nil) {
			return nil, false
		}
		return p.callRaw(g, fn, a), true
	})
	reg("(*context.cancelCtx).Done", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		r := p.callRaw(g, fn, a)
		m, _ := p.extra["ctxRoots"].(map[*Value]any)
		if c, ok := a[0].(*Value); ok {
			if root, ok := m[c]; ok {
				if ch, ok := r.(*Chan); ok && ch != nil && !ch.closed && ch.tag == nil {
					ch.tag = root
				}
			} else if ch, ok := r.(*Chan); ok && ch != nil && !ch.closed {
				ch.tag = nil
			}
		}
		return r, true
	})
}

type ctxTree struct{ _ int }

// ctxRoot finds the tree a context belongs to (nil for a context that is never done).
func (p *Path) ctxRoot(v Value) (root any, known bool) {
	ifc, ok := v.(Iface)
	if !ok || ifc.T == nil {
		return nil, false
	}
	for i := 0; i < 64; i++ {
		switch ifc.T.String() {
		case "context.backgroundCtx", "context.todoCtx":
			return nil, true
		case "*context.valueCtx":
			c, ok := ifc.V.(*Value)
			if !ok || c == nil {
				return nil, false
			}
			st, ok := (*c).(Struct)
			if !ok {
				return nil, false
			}
			if ifc, ok = st[0].(Iface); !ok || ifc.T == nil {
				return nil, false
			}
		case "*context.cancelCtx", "*context.timerCtx":
			m, _ := p.extra["ctxRoots"].(map[*Value]any)
			c, _ := ifc.V.(*Value)
			r, ok := m[c]
			return r, ok
		default:
			return nil, false
		}
	}
	return nil, false
}

// callRaw runs a function's own body (bypassing its intrinsic) without scheduling.
func (p *Path) callRaw(g *Gor, fn *ssa.Function, args []Value) Value {
	fi := p.w.rawInfo(fn)
	p.noYield++
	defer func() { p.noYield-- }()
	var res Value
	done := false
	fr := &Frame{info: fi, regs: make([]Value, fi.nregs), dst: -1, stopAt: true}
	copy(fr.regs, args)
	fr.enter(fn.Blocks[0])
	fr.onRet = func(v Value) { res = v; done = true }
	g.frames = append(g.frames, fr)
	depth := len(g.frames)
	granted, pend := g.granted, g.pend
	g.granted, g.pend = false, nil
	p.runNested(g, func() bool { return done || len(g.frames) < depth })
	g.granted, g.pend = granted, pend
	return res
}

func (w *Worker) rawInfo(fn *ssa.Function) *fnInfo {
	if w.raw == nil {
		w.raw = map[*ssa.Function]*fnInfo{}
	}
	if fi, ok := w.raw[fn]; ok {
		return fi
	}
	saved := w.infos[fn]
	delete(w.infos, fn)
	name := fn.String()
	in := intrinsics[name]
	delete0 := in != nil
	if delete0 {
		w.skipIntr = name
	}
	fi := w.info(fn)
	w.skipIntr = ""
	w.infos[fn] = saved
	w.raw[fn] = fi
	return fi
}
