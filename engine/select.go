package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (p *Path) doSelect(g *Gor, fr *Frame, c *cinstr, in *ssa.Select) (Value, bool) {
	ts := p.w.ts
	n := len(in.States)
	chs := make([]*Chan, n)
	vals := make([]Value, n)
	oi := 0
	for i, s := range in.States {
		chs[i] = p.chanVal(p.get(fr, &c.ops[oi]))
		oi++
		if s.Dir == types.SendOnly {
			vals[i] = p.get(fr, &c.ops[oi])
		}
		oi++
	}
	mkRes := func(sel int, rv Value, rok bool) Value {
		t := Tuple{ts.Int(sel), ts.Bool(rok)}
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				if i == sel && rv != nil {
					t = append(t, rv)
				} else {
					t = append(t, p.w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	if g.woken != nil {
		w := g.woken
		g.woken = nil
		p.hbAcquire(g, w.vc)
		if in.States[w.sel].Dir == types.SendOnly {
			if !w.ok {
				panic(goPanic{p.plainErr("send on closed channel")})
			}
			return mkRes(w.sel, nil, false), true
		}
		return mkRes(w.sel, w.val, w.ok), true
	}
	var objs []any
	var rs []*Chan
	for i, ch := range chs {
		if ch == nil {
			continue
		}
		if in.States[i].Dir == types.SendOnly {
			objs = append(objs, ch.objs()...)
		} else {
			rs = append(rs, ch)
		}
	}
	if !p.visibleRecv(g, "select", rs, objs...) {
		return nil, false
	}
	var ready []int
	for i, s := range in.States {
		ch := chs[i]
		if ch == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			if ch.closed || peek(ch.recvq) || len(ch.buf) < ch.cap {
				ready = append(ready, i)
			}
		} else {
			if len(ch.buf) > 0 || peek(ch.sendq) || ch.closed {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		i := ready[p.choose("select", len(ready))]
		if len(ready) > 1 {
			p.inputs = append(p.inputs, inputRec{Name: "select", Kind: "sel", n: i})
		}
		p.selCase(g, i)
		if in.States[i].Dir == types.SendOnly {
			if !p.trySend(g, chs[i], vals[i]) {
				unsup("select send")
			}
			return mkRes(i, nil, false), true
		}
		v, ok, done := p.tryRecv(g, chs[i])
		if !done {
			unsup("select recv")
		}
		return mkRes(i, v, ok), true
	}
	if !in.Blocking {
		p.selCase(g, n)
		return mkRes(-1, nil, false), true
	}
	grp := &selGroup{}
	for i, s := range in.States {
		ch := chs[i]
		if ch == nil {
			continue
		}
		p.ownChan(ch)
		sd := &sudog{g: g, sel: i, ch: ch, grp: grp}
		if s.Dir == types.SendOnly {
			sd.val = copyVal(vals[i])
			ch.sendq = append(ch.sendq, sd)
		} else {
			ch.recvq = append(ch.recvq, sd)
		}
	}
	p.park(g, "select")
	return nil, false
}

// selCase records the chosen case (1-based; n+1 is the default case).
func (p *Path) selCase(g *Gor, i int) {
	if n := len(p.sched); n > 0 && p.sched[n-1].G == g.id {
		p.sched[n-1].Case = i + 1
	}
}
