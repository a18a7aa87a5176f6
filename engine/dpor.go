package main

// Partial order reduction: source sets with sleep sets (Abdulla, Aronis,
// Jonsson, Sagonas 2014), adapted to a shared work queue. Data decisions
// (symbolic branches, explicit choices) are always explored completely.

import (
	"sync"
)

// schedNode is a point where the scheduler chose; shared by all paths through it.
type schedNode struct {
	mu    sync.Mutex
	order []int // processes explored from here, in the order they were added
	done  map[int]bool
	// fixed facts about the node (identical for every path through it)
	enabled []int
	asleep  map[int]bool
	decIdx  int
}

// event is an executed (or, at the end of a path, pending) visible operation.
type event struct {
	pid   int
	pend  *pending
	extra []any // objects touched inside an atomic section
	pre   []int // events that happen before by spawning or waking
	node  int   // index of the schedule node, -1 when not scheduled
	all   bool  // ordered after everything before it
	clk   []int
	prev  int
}

func pidIdx(pid int) int {
	if pid >= 0 {
		return 2 * pid
	}
	return 2*(-1-pid) + 1
}

func evDependent(a, b *event, sent map[any]bool) bool {
	if dependentIn(a.pend, b.pend, sent) {
		return true
	}
	if len(a.extra) == 0 && len(b.extra) == 0 {
		return false
	}
	has := func(objs []any, o any) bool {
		for _, x := range objs {
			if x == o {
				return true
			}
		}
		return false
	}
	for _, o := range a.extra {
		if has(b.pend.objs, o) || has(b.pend.ro, o) || has(b.pend.recvs, o) || has(b.extra, o) {
			return true
		}
	}
	for _, o := range b.extra {
		if has(a.pend.objs, o) || has(a.pend.ro, o) || has(a.pend.recvs, o) {
			return true
		}
	}
	return false
}

func (p *Path) addEvent(pid int, pend *pending, node int, pre []int) int {
	e := &event{pid: pid, pend: pend, node: node, pre: pre}
	p.events = append(p.events, e)
	return len(p.events) - 1
}

// lastEvent is the index of the event being executed (-1 before the first).
func (p *Path) lastEvent() int { return len(p.events) - 1 }

func (p *Path) wakeEdge(g *Gor) {
	if n := p.lastEvent(); n >= 0 {
		g.hbPre = append(g.hbPre, n)
	}
}

// analyse finds the reversible races of the finished path and queues the
// schedules that reverse them.
func (p *Path) analyse() {
	if p.cfg.NoDPOR || len(p.nodes) == 0 {
		return
	}
	evs := p.events
	n := len(evs)
	conservative := map[int]bool{}
	switch p.endKind {
	case "sleep":
	default:
		pendingOf := func(pid int, pend *pending, pre []int) {
			evs = append(evs, &event{pid: pid, pend: pend, node: -1, pre: pre})
		}
		quiet := p.endKind == "ok" || p.endKind == "deadlock"
		for _, g := range p.gors {
			if g.done {
				continue
			}
			if g.pend != nil && !g.granted {
				pendingOf(g.id, g.pend, g.hbPre)
			}
			if !quiet {
				conservative[g.id] = true
				continue
			}
			if g.id == 0 || g.parked {
				continue
			}
			if g.pend != nil && g.pend.enabled != nil && !g.pend.enabled() {
				continue
			}
			conservative[g.id] = true
		}
		for _, t := range p.timers {
			if t.active {
				// a timer that did not fire (any more) in this path may fire earlier in another
				conservative[-1-t.id] = true
			}
		}
	}
	// channels something is sent to
	sent := map[any]bool{}
	for _, e := range evs {
		for _, o := range e.pend.objs {
			if c, ok := o.(*Chan); ok && e.pend.kind != "close" {
				sent[c] = true
			}
		}
		for _, o := range e.extra {
			if c, ok := o.(*Chan); ok {
				sent[c] = true
			}
		}
	}
	last := map[int]int{}
	maxp := 0
	for _, e := range evs {
		if x := pidIdx(e.pid); x > maxp {
			maxp = x
		}
	}
	join := func(c []int, d []int) {
		for i := range d {
			if d[i] > c[i] {
				c[i] = d[i]
			}
		}
	}
	for j, e := range evs {
		c := make([]int, maxp+1)
		for i := range c {
			c[i] = -1
		}
		if l, ok := last[e.pid]; ok {
			join(c, evs[l].clk)
			e.prev = l
		} else {
			e.prev = -1
		}
		for _, x := range e.pre {
			if x < j {
				join(c, evs[x].clk)
			}
		}
		if e.all {
			for i := 0; i < j; i++ {
				join(c, evs[i].clk)
			}
		}
		var races []int
		for i := j - 1; i >= 0; i-- {
			f := evs[i]
			if f.pid == e.pid || c[pidIdx(f.pid)] >= i {
				continue
			}
			if i >= n || !evDependent(f, e, sent) {
				continue
			}
			if f.node >= 0 {
				races = append(races, i)
			}
			join(c, f.clk)
		}
		c[pidIdx(e.pid)] = j
		e.clk = c
		if j < n {
			last[e.pid] = j
		}
		if j < p.freshEv-1 {
			continue
		}
		for _, i := range races {
			p.reverse(evs, i, j)
		}
	}
	if len(conservative) > 0 {
		for k, nd := range p.nodes {
			for _, pid := range nd.enabled {
				if conservative[pid] {
					p.backtrack(k, nd, pid)
				}
			}
		}
	}
}

// reverse arranges for an execution in which event j comes before event i.
func (p *Path) reverse(evs []*event, i, j int) {
	ei := evs[i]
	nd := p.nodes[ei.node]
	// initials of notdep(e_i, E).e_j
	var inits []int
	seen := map[int]bool{}
	var v []int
	for k := i + 1; k <= j; k++ {
		e := evs[k]
		if k < j && e.clk[pidIdx(ei.pid)] >= i {
			continue // happens after e_i
		}
		first := true
		for _, q := range v {
			if e.clk[pidIdx(evs[q].pid)] >= q {
				first = false
				break
			}
		}
		v = append(v, k)
		if first && !seen[e.pid] {
			inits = append(inits, e.pid)
		}
		seen[e.pid] = true
	}
	nd.mu.Lock()
	cand := -1 << 30
	for _, pid := range inits {
		if nd.done[pid] || nd.asleep[pid] {
			nd.mu.Unlock()
			return
		}
		if cand == -1<<30 {
			for _, q := range nd.enabled {
				if q == pid {
					cand = pid
				}
			}
		}
	}
	nd.mu.Unlock()
	if cand != -1<<30 {
		p.backtrack(ei.node, nd, cand)
	}
}

func (p *Path) backtrack(k int, nd *schedNode, pid int) {
	nd.mu.Lock()
	defer nd.mu.Unlock()
	if nd.done[pid] || nd.asleep[pid] {
		return
	}
	nd.done[pid] = true
	nd.order = append(nd.order, pid)
	pre := make([]int32, nd.decIdx+1)
	copy(pre, p.dec[:nd.decIdx])
	pre[nd.decIdx] = int32(pid)
	m := Model{}
	for k, x := range p.model {
		m[k] = x
	}
	p.alts = append(p.alts, PathItem{prefix: pre, model: m, nodes: append([]*schedNode(nil), p.nodes[:k+1]...)})
}

// pick chooses the next process at a schedule point.
func (p *Path) pick(en []*sleepEnt) *sleepEnt {
	pidOf := func(e *sleepEnt) int {
		if e.g != nil {
			return e.g.id
		}
		return -1 - e.t.id
	}
	asleepNow := map[int]bool{}
	for _, e := range en {
		for _, s := range p.sleep {
			if (s.g != nil && s.g == e.g || s.t != nil && s.t == e.t) && s.pend == e.pend {
				asleepNow[pidOf(e)] = true
			}
		}
	}
	var nd *schedNode
	k := len(p.nodes)
	replay := p.pos < len(p.prefix)
	if k < len(p.planNodes) {
		nd = p.planNodes[k]
	} else {
		nd = &schedNode{done: map[int]bool{}, asleep: asleepNow, decIdx: len(p.dec)}
		for _, e := range en {
			nd.enabled = append(nd.enabled, pidOf(e))
		}
	}
	p.nodes = append(p.nodes, nd)
	var pid int
	if replay {
		pid = int(p.prefix[p.pos])
		p.pos++
		if p.pos == len(p.prefix) {
			p.freshEv = len(p.events) + 1
		}
	} else {
		found := false
		for _, e := range en {
			if asleepNow[pidOf(e)] {
				continue
			}
			if !found || e.g != nil && e.g == p.cur {
				pid = pidOf(e)
				found = true
			}
		}
		if !found {
			panic(pathEnd{"sleep", ""})
		}
		nd.mu.Lock()
		nd.done[pid] = true
		nd.order = append(nd.order, pid)
		nd.mu.Unlock()
	}
	p.dec = append(p.dec, int32(pid))
	var ch *sleepEnt
	for _, e := range en {
		if pidOf(e) == pid {
			ch = e
		}
	}
	if ch == nil {
		panic(pathEnd{"engine", "replayed schedule is not enabled"})
	}
	// new sleep set: what slept or was explored before, and is independent of the choice
	var ns []*sleepEnt
	keep := func(e *sleepEnt) {
		if e != ch && !dependent(e.pend, ch.pend) {
			ns = append(ns, e)
		}
	}
	for _, s := range p.sleep {
		if !(s.g != nil && s.g == ch.g || s.t != nil && s.t == ch.t) {
			keep(s)
		}
	}
	nd.mu.Lock()
	for _, q := range nd.order {
		if q == pid {
			break
		}
		for _, e := range en {
			if pidOf(e) == q && !asleepNow[q] {
				keep(e)
			}
		}
	}
	nd.mu.Unlock()
	p.sleep = ns
	return ch
}
