package main

// One path of the symbolic exploration: decisions, path condition, scheduling.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"time"
)

type undoRec struct {
	a   *Value
	old Value
}

type Config struct {
	Name        string
	Entry       string
	QueryMs     int
	IntMode     bool
	MaxSteps    int
	MaxLoop     int
	MaxConc     int
	MaxFires    int // timer/ticker firings per path
	MapOrder    bool
	NoMerge     bool
	NoPOR       bool
	NoDPOR      bool
	Preempt     int // preemption bound, <0 none
	Deadline    time.Time
	MaxPaths    int
	RaceOn      bool
	Params      map[string]int
	Trace       bool
	KeepSamples int
	started     time.Time
}

type PathItem struct {
	prefix []int32
	model  Model
	unk    bool
	nodes  []*schedNode
}

type inputRec struct {
	Name string
	Kind string // int,bool,bytes
	term *Term
	str  []*Term
	n    int
}

type Violation struct {
	Label  string
	Detail string
	Model  Model
	Inputs []ReplayVal
	Sched  []SchedStep
	Stack  string
	Prefix []int32
	Kind   string
}

type ReplayVal struct {
	Name string
	Kind string
	V    int64
	B    []byte
}

type SchedStep struct {
	G    int
	What string
	Pos  string
	At   int64
	Case int
	now  *Term
}

type Path struct {
	nextRecvs []any

	w        *Worker
	cfg      *Config
	id       int
	prefix   []int32
	pos      int
	dec      []int32
	pc       []*Term
	vars     []*Term
	varSeen  map[int32]bool
	known    map[int32]bool
	model    Model
	ev       *evaluator
	alts     []PathItem
	okInputs []ReplayVal
	steps    int
	boot     int
	noYield  int
	nestStop bool
	undo     []undoRec
	undoFns  []func()
	addrs    map[Value]uint64
	nextVar  int
	inputs   []inputRec
	merges   int

	gors    []*Gor
	cur     *Gor
	multi   bool
	timers  []*Timer
	now     *Term
	autoClk bool
	lateOff bool
	fires   int
	sleep   []*sleepEnt
	sched   []SchedStep
	preempt int
	syncs   map[*Value]*SyncObj
	shadow  map[*Value]*shadowCell
	chanSeq int

	viols     []*Violation
	reached   map[string]bool
	asserts   int
	incon     []string
	nSched    int
	endKind   string
	endMsg    string
	allowPan  bool
	ghosts    map[string]*Value
	newUnk    int
	events    []*event
	nodes     []*schedNode
	planNodes []*schedNode
	freshEv   int
	extra     map[string]any
}

func (p *Path) ownerID() int {
	if p.boot > 0 {
		return 0
	}
	return p.id
}

// ---- decisions

func (p *Path) addPC(c *Term) {
	if c.IsConst() {
		return
	}
	p.pc = append(p.pc, c)
	p.learn(c, true)
	for _, v := range varsOf(c) {
		if !p.varSeen[v.ID] {
			p.varSeen[v.ID] = true
			p.vars = append(p.vars, v)
		}
	}
}

func (p *Path) learn(c *Term, v bool) {
	if c.Op == OpNot {
		p.learn(c.A[0], !v)
		return
	}
	p.known[c.ID] = v
	if v && c.Op == OpAnd || !v && c.Op == OpOr {
		p.learn(c.A[0], v)
		p.learn(c.A[1], v)
	}
	if n := p.w.ts.Not(c); n.Op != OpNot {
		p.known[n.ID] = !v
	}
}

func (p *Path) setModel(m Model) {
	p.model = m
	p.ev = newEval(m)
}

func (p *Path) evalB(c *Term) bool { return p.ev.eval(c) == 1 }

func (p *Path) guess(t *Term) uint64 { return p.ev.eval(t) }

// solve decides pc ∧ extra.
type cachedQuery struct {
	r Result
	m Model
}

func (p *Path) solve(extra *Term) (r0 Result, m0 Model) {
	if time.Now().After(p.cfg.Deadline) {
		panic(pathEnd{"deadline", ""})
	}
	vars := p.vars
	if extra != nil {
		for _, v := range varsOf(extra) {
			if !p.varSeen[v.ID] {
				vars = append(vars[:len(vars):len(vars)], v)
			}
		}
	}
	w := p.w
	ids := make([]int32, 0, len(p.pc)+1)
	for _, t := range p.pc {
		ids = append(ids, t.ID)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if extra != nil {
		ids = append(ids, -1, extra.ID)
	}
	kb := make([]byte, 0, len(ids)*4)
	for _, x := range ids {
		kb = append(kb, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	key := string(kb)
	if c, ok := w.qcache[key]; ok {
		w.stats.Cached++
		if c.m == nil {
			return c.r, nil
		}
		m := Model{}
		for k, v := range c.m {
			m[k] = v
		}
		return c.r, m
	}
	defer func() {
		if r0 != Unknown {
			if len(w.qcache) > 300000 {
				w.qcache = nil
			}
			if w.qcache == nil {
				w.qcache = map[string]cachedQuery{}
			}
			var cm Model
			if m0 != nil {
				cm = Model{}
				for k, v := range m0 {
					cm[k] = v
				}
			}
			w.qcache[key] = cachedQuery{r0, cm}
		}
	}()
	sup := func(s *Solver) bool {
		if !s.intMode {
			return true
		}
		if extra != nil && !s.supported(extra) {
			return false
		}
		for _, t := range p.pc {
			if !s.supported(t) {
				return false
			}
		}
		return true
	}
	res := Unknown
	var m Model
	for _, s := range w.sols {
		if !sup(s) {
			continue
		}
		res, m = s.Check(p.pc, extra, vars, true)
		if res != Unknown {
			break
		}
	}
	if res == Sat {
		// validate the model against the terms themselves
		e := newEval(m)
		ok := extra == nil || e.eval(extra) == 1
		for _, t := range p.pc {
			if !ok {
				break
			}
			ok = e.eval(t) == 1
		}
		if !ok {
			p.incon = append(p.incon, "model does not validate")
			return Unknown, nil
		}
	}
	return res, m
}

func (p *Path) pushAlt(d int32, m Model, unk bool) {
	pre := make([]int32, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = d
	p.alts = append(p.alts, PathItem{pre, m, unk, append([]*schedNode(nil), p.nodes...)})
}

func (p *Path) branch(c *Term) bool {
	if c.IsConst() {
		return c.C == 1
	}
	if v, ok := p.known[c.ID]; ok {
		return v
	}
	if c.Op == OpNot {
		if v, ok := p.known[c.A[0].ID]; ok {
			return !v
		}
	}
	if p.boot > 0 {
		unsup("symbolic branch during initialisation")
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if d == 2 { // only-true
			p.learn(c, true)
			return true
		}
		if d == 3 {
			p.learn(c, false)
			return false
		}
		if d == 1 {
			p.addPC(c)
		} else {
			p.addPC(p.w.ts.Not(c))
		}
		return d == 1
	}
	v := p.evalB(c)
	other := c
	if v {
		other = p.w.ts.Not(c)
	}
	res, m := p.solve(other)
	if res == Unsat {
		// implied: no need to extend the path condition
		p.learn(c, v)
		if v {
			p.dec = append(p.dec, 2)
		} else {
			p.dec = append(p.dec, 3)
		}
		return v
	}
	alt := int32(1)
	if v {
		alt = 0
	}
	if res == Unknown {
		p.newUnk++
		p.incon = append(p.incon, "branch feasibility unknown")
	} else {
		p.pushAlt(alt, m, false)
	}
	p.dec = append(p.dec, 1-alt)
	if v {
		p.addPC(c)
	} else {
		p.addPC(p.w.ts.Not(c))
	}
	return v
}

// choose picks one of n alternatives; every choice is explored. The choice is a
// fresh variable of the path condition.
func (p *Path) choose(what string, n int) int {
	if n <= 1 {
		return 0
	}
	v := p.w.ts.Var(fmt.Sprintf("%s!%d.%d", what, p.nextVar, n), sortBV(16), 0, int64(n-1))
	p.nextVar++
	var d int32
	if p.pos < len(p.prefix) {
		d = p.prefix[p.pos]
		p.pos++
	} else {
		d = 0
		for i := n - 1; i >= 1; i-- {
			m := Model{}
			for k, x := range p.model {
				m[k] = x
			}
			m[v.Name] = uint64(i)
			p.pushAlt(int32(i), m, false)
		}
		p.model[v.Name] = 0
	}
	p.dec = append(p.dec, d)
	c := p.w.ts.Eq(v, p.w.ts.BV(uint64(d), 16))
	p.addPC(c)
	if p.pos >= len(p.prefix) {
		// keep the evaluator consistent
		if _, ok := p.model[v.Name]; !ok || p.ev.eval(v) != uint64(d) {
			p.model[v.Name] = uint64(d)
			p.ev = newEval(p.model)
		}
	}
	return int(d)
}

func (p *Path) assume(c *Term) {
	if c.IsConst() {
		if c.C == 0 {
			panic(pathEnd{"infeasible", "assumption false"})
		}
		return
	}
	if v, ok := p.known[c.ID]; ok {
		if !v {
			panic(pathEnd{"infeasible", "assumption false"})
		}
		return
	}
	if p.pos < len(p.prefix) {
		p.addPC(c)
		return
	}
	if p.evalB(c) {
		p.addPC(c)
		return
	}
	res, m := p.solve(c)
	switch res {
	case Unsat:
		panic(pathEnd{"infeasible", "assumption false"})
	case Unknown:
		panic(pathEnd{"unknown", "assumption undecided"})
	}
	p.addPC(c)
	p.setModel(m)
}

// constrain adds a constraint that only restricts a fresh variable (always satisfiable).
func (p *Path) constrain(c *Term) {
	p.assume(c)
}

func (p *Path) assert(c *Term, label string, g *Gor) {
	if p.pos >= len(p.prefix) {
		p.asserts++
	}
	if p.pos < len(p.prefix) {
		// already decided on the parent path up to this point
		if c.IsConst() {
			if c.C == 0 {
				panic(pathEnd{"violation", label})
			}
			return
		}
		p.addPC(c)
		return
	}
	if c.IsConst() {
		if c.C == 0 {
			p.violate("assert", label, "", p.model, g)
			panic(pathEnd{"violation", label})
		}
		return
	}
	if v, ok := p.known[c.ID]; ok && v {
		return
	}
	res, m := p.solve(p.w.ts.Not(c))
	switch res {
	case Sat:
		p.violate("assert", label, "", m, g)
		// continue with the assertion assumed, if possible
		p.assume(c)
		return
	case Unknown:
		p.incon = append(p.incon, "assertion undecided: "+label)
	}
	if !p.evalB(c) { // model disagrees although unsat/unknown
		r2, m2 := p.solve(c)
		if r2 != Sat {
			panic(pathEnd{"unknown", "after assertion " + label})
		}
		p.setModel(m2)
	}
	p.addPC(c)
}

func (p *Path) violate(kind, label, detail string, m Model, g *Gor) {
	v := &Violation{Kind: kind, Label: label, Detail: detail, Model: m, Prefix: append([]int32(nil), p.dec...), Sched: append([]SchedStep(nil), p.sched...)}
	if g != nil {
		v.Stack = g.stack()
	}
	v.Inputs = p.inputsOf(m)
	if len(p.gors) == 1 && len(p.timers) == 0 {
		v.Sched = nil
	}
	e := newEval(m)
	for i := range v.Sched {
		if t := v.Sched[i].now; t != nil {
			v.Sched[i].At = int64(e.eval(t))
		}
	}
	p.viols = append(p.viols, v)
}

func (p *Path) inputsOf(m Model) []ReplayVal {
	var out []ReplayVal
	e := newEval(m)
	for _, in := range p.inputs {
		r := ReplayVal{Name: in.Name, Kind: in.Kind}
		switch in.Kind {
		case "bytes":
			for _, t := range in.str {
				r.B = append(r.B, byte(e.eval(t)))
			}
		default:
			if in.term != nil {
				if in.term.S.K == SBV {
					r.V = sx(e.eval(in.term), in.term.S.W)
				} else {
					r.V = int64(e.eval(in.term))
				}
			} else {
				r.V = int64(in.n)
			}
		}
		out = append(out, r)
	}
	return out
}

func (p *Path) fresh(name string, s Sort, lo, hi int64) *Term {
	n := fmt.Sprintf("%s!%d", name, p.nextVar)
	p.nextVar++
	if s.K == SBV && lo <= hi {
		n += fmt.Sprintf(".%d.%d", lo, hi)
	}
	n += fmt.Sprintf(".%d", s.W)
	return p.w.ts.Var(n, s, lo, hi)
}

func (p *Path) crash(g *Gor, rec *panicRec) {
	if p.pos < len(p.prefix) {
		panic(pathEnd{"panic", "replayed"})
	}
	p.violate("panic", "no goroutine panics", p.panicText(rec.val), p.model, g)
	p.viols[len(p.viols)-1].Stack = rec.trace
	panic(pathEnd{"panic", p.panicText(rec.val)})
}

func (p *Path) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return showVal(v)
	}
	if i.T == nil {
		return "nil"
	}
	if s, ok := i.V.(Str); ok {
		if s.sym == nil {
			return s.s
		}
		return "symbolic string"
	}
	return i.T.String() + " " + showVal(i.V)
}

// ---- goroutines

type pending struct {
	kind    string
	write   bool
	objs    []any
	ro      []any  // objects that are only read
	recvs   []any  // channels received from
	uni     bool   // dependent on everything
	strict  bool   // nothing but objs and ro may be touched
	comm    string // operations of one commuting class are independent of each other
	enabled func() bool
}

// has tells whether the operation counts as an access of o already.
func (p *pending) has(o any, write bool) bool {
	for _, x := range p.objs {
		if x == o && (p.write || !write) {
			return true
		}
	}
	if !write {
		for _, x := range p.ro {
			if x == o {
				return true
			}
		}
	}
	return false
}

func (p *pending) covers(o any) bool {
	for _, x := range p.objs {
		if x == o {
			return true
		}
	}
	for _, x := range p.ro {
		if x == o {
			return true
		}
	}
	return false
}

type Gor struct {
	id      int
	frames  []*Frame
	done    bool
	boot    bool
	pend    *pending
	granted bool
	parked  bool
	woken   *wake
	vc      []int32
	state   map[string]any
	why     string
	sleepT  *Timer
	name    string
	hbPre   []int
}

type wake struct {
	val  Value
	ok   bool
	sel  int
	vc   []int32
	kind string
}

type sleepEnt struct {
	g    *Gor
	t    *Timer
	pend *pending
}

type Timer struct {
	id       int
	when     *Term
	period   *Term
	ch       *Chan
	fn       func() // fires
	active   bool
	vc       []int32
	interval int
	pend     *pending
	obj      *Value
	tag      any
	gen      int
	hbPre    []int
}

func (p *Path) spawn(g *Gor, f *FuncVal, args []Value, pos token.Pos) *Gor {
	if p.boot > 0 {
		return nil
	}
	ng := &Gor{id: len(p.gors)}
	p.pushCall(ng, f, args, -1, pos)
	if g != nil {
		g.tick()
		ng.vc = vcCopy(g.vc)
	}
	ng.tickInit()
	p.wakeEdge(ng)
	p.gors = append(p.gors, ng)
	if len(p.gors) > 40 {
		panic(pathEnd{"limit", "goroutines"})
	}
	p.multi = p.cfg.RaceOn
	return ng
}

func vcCopy(a []int32) []int32 { return append([]int32(nil), a...) }

func (g *Gor) tickInit() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}
func (g *Gor) tick() {
	if g.id < 0 {
		return
	}
	g.tickInit()
}

func vcJoin(a []int32, b []int32) []int32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}

type shadowCell struct {
	wg  int
	wc  int32
	rd  map[int]int32
	wst string
}

func (p *Path) raceAccess(a *Value, write bool) {
	if p.noYield > 0 && p.extra["noRace"] != nil {
		return
	}
	if p.boot > 0 {
		return
	}
	switch x := (*a).(type) {
	case Struct:
		for i := range x {
			p.raceAccess(&x[i], write)
		}
		return
	case Array:
		for i := range x {
			p.raceAccess(&x[i], write)
		}
		return
	}
	g := p.cur
	if g == nil || g.id < 0 {
		return
	}
	s := p.shadow[a]
	if s == nil {
		s = &shadowCell{wg: -1}
		p.shadow[a] = s
	}
	hb := func(gid int, c int32) bool {
		return gid == g.id || (gid < len(g.vc) && g.vc[gid] >= c)
	}
	if s.wg >= 0 && !hb(s.wg, s.wc) {
		p.race(g, a, write, s)
		return
	}
	if write {
		for gid, c := range s.rd {
			if !hb(gid, c) {
				p.race(g, a, write, s)
				return
			}
		}
		s.wg = g.id
		s.wc = g.vc[g.id]
		s.rd = nil
	} else {
		if s.rd == nil {
			s.rd = map[int]int32{}
		}
		s.rd[g.id] = g.vc[g.id]
	}
}

func (p *Path) race(g *Gor, a *Value, write bool, s *shadowCell) {
	if p.extra["raceSeen"] != nil {
		return
	}
	p.extra["raceSeen"] = true
	if p.pos < len(p.prefix) {
		panic(pathEnd{"race", "replayed"})
	}
	p.violate("race", "no data race", g.where(), p.model, g)
	panic(pathEnd{"race", g.where()})
}

// acquire/release happens-before through a sync object
func (p *Path) hbAcquire(g *Gor, vc []int32) {
	if g.id >= 0 {
		g.vc = vcJoin(g.vc, vc)
	}
}

func (p *Path) hbRelease(g *Gor, vc *[]int32) {
	if g.id < 0 {
		return
	}
	*vc = vcJoin(*vc, g.vc)
	g.tick()
}

func (p *Path) alone() bool {
	if len(p.gors) > 1 {
		for _, g := range p.gors {
			if !g.done && g != p.cur {
				return false
			}
		}
	}
	for _, t := range p.timers {
		if t.active {
			return false
		}
	}
	return true
}

// visible gates a visible operation. It returns true when the operation may be
// performed now.
func (p *Path) visible(g *Gor, kind string, write bool, enabled func() bool, objs ...any) bool {
	return p.visibleRO(g, kind, write, enabled, nil, objs...)
}

// visibleRecv gates an operation that receives from some channels and writes others.
func (p *Path) visibleRecv(g *Gor, kind string, chs []*Chan, objs ...any) bool {
	var rs []any
	for _, c := range chs {
		rs = append(rs, c)
		if c.tag != nil {
			objs = append(objs, c.tag)
		}
	}
	if p.noYield > 0 && !g.boot && p.boot == 0 {
		return p.visible(g, kind, true, nil, append(rs, objs...)...)
	}
	p.nextRecvs = rs
	ok := p.visible(g, kind, true, nil, objs...)
	p.nextRecvs = nil
	return ok
}

func (p *Path) visibleRO(g *Gor, kind string, write bool, enabled func() bool, ro []any, objs ...any) bool {
	if g.boot || p.boot > 0 {
		return true
	}
	if p.noYield > 0 {
		if enabled != nil && !enabled() {
			unsup("operation %s would block inside an atomic section", kind)
		}
		if n := p.lastEvent(); n >= 0 && len(objs) > 0 {
			if e := p.events[n]; !e.pend.uni && e.pend.strict && len(p.gors) > 1 && !p.alone() {
				for _, o := range objs {
					if !e.pend.covers(o) {
						unsup("operation %s inside the atomic section %s", kind, e.pend.kind)
					}
				}
			}
			for _, o := range objs {
				if !p.events[n].pend.has(o, write) {
					p.events[n].extra = append(p.events[n].extra, o)
				}
			}
		}
		return true
	}
	if g.granted {
		g.granted = false
		g.pend = nil
		return true
	}
	if p.alone() && (enabled == nil || enabled()) {
		p.sched = append(p.sched, SchedStep{G: g.id, What: kind, Pos: p.userPos(g), now: p.now})
		if len(p.gors) > 1 || len(p.timers) > 0 {
			p.addEvent(g.id, &pending{kind: kind, write: write, objs: objs, ro: ro, recvs: p.nextRecvs, uni: len(objs)+len(ro)+len(p.nextRecvs) == 0, strict: kind == "ghost"}, -1, g.hbPre)
			g.hbPre = nil
		}
		return true
	}
	g.pend = &pending{kind: kind, write: write, objs: objs, ro: ro, recvs: p.nextRecvs, enabled: enabled, strict: kind == "ghost"}
	return false
}

func (p *Path) visibleUni(g *Gor, kind string, enabled func() bool) bool {
	if p.visible(g, kind, true, enabled) {
		return true
	}
	g.pend.uni = true
	return false
}

func dependent(a, b *pending) bool { return dependentIn(a, b, nil) }

func dependentIn(a, b *pending, sent map[any]bool) bool {
	if a.uni || b.uni {
		return true
	}
	if a.comm != "" && a.comm == b.comm {
		return false
	}
	meet := func(xs, ys []any) bool {
		for _, x := range xs {
			for _, y := range ys {
				if x == y {
					return true
				}
			}
		}
		return false
	}
	if (a.write || b.write) && meet(a.objs, b.objs) {
		return true
	}
	if len(a.recvs)+len(b.recvs) > 0 {
		if meet(a.recvs, b.objs) || meet(a.objs, b.recvs) {
			return true
		}
		for _, x := range a.recvs {
			for _, y := range b.recvs {
				// waiting receivers commute unless something is sent
				if x == y && (sent == nil || sent[x]) {
					return true
				}
			}
		}
	}
	return a.write && meet(a.objs, b.ro) || b.write && meet(b.objs, a.ro)
}

type timerPend struct{}

// run executes the whole path until the main goroutine ends.
func (p *Path) run(main *Gor) {
	p.cur = main
	for {
		// let every goroutine reach its next visible operation
		progress := true
		for progress {
			progress = false
			for i := 0; i < len(p.gors); i++ {
				g := p.gors[i]
				if g.done || g.parked || (g.pend != nil && !g.granted) {
					continue
				}
				p.cur = g
				for {
					st := p.stepSafe(g)
					if len(g.frames) == 0 {
						g.done = true
						break
					}
					if st == stBlocked {
						break
					}
				}
				progress = true
				if g.done && g == main {
					return
				}
			}
		}
		p.schedule(main)
	}
}

func (p *Path) enabledList() []*sleepEnt {
	var out []*sleepEnt
	for _, g := range p.gors {
		if g.done || g.parked || g.pend == nil {
			continue
		}
		if g.pend.enabled != nil && !g.pend.enabled() {
			continue
		}
		out = append(out, &sleepEnt{g: g, pend: g.pend})
	}
	if p.fires < p.cfg.MaxFires {
		for _, t := range p.timers {
			if t.active && p.canFire(t) {
				if t.pend == nil {
					t.pend = &pending{kind: "timer", write: true, objs: []any{t}}
					if p.autoClk {
						t.pend.objs = append(t.pend.objs, clockObj)
					} else {
						t.pend.ro = []any{clockObj}
					}
					if t.ch != nil {
						t.pend.objs = append(t.pend.objs, t.ch)
					}
					if t.tag != nil {
						t.pend.objs = append(t.pend.objs, t.tag)
					}
				}
				out = append(out, &sleepEnt{t: t, pend: t.pend})
			}
		}
	}
	return out
}

var clockObj = &struct{ x int }{1}

func (p *Path) schedule(main *Gor) {
	en := p.enabledList()
	if len(en) == 0 {
		// quiescence waiters run only when nothing else can
		for _, g := range p.gors {
			if !g.done && g.parked && g.why == "quiesce" {
				g.parked = false
				g.woken = &wake{kind: "quiesce"}
				p.sched = append(p.sched, SchedStep{G: g.id, What: "quiesce", now: p.now})
				p.sleep = nil
				n := p.addEvent(g.id, &pending{kind: "quiesce"}, -1, g.hbPre)
				p.events[n].all = true
				g.hbPre = nil
				return
			}
		}
		for _, t := range p.timers {
			if t.active && p.fires >= p.cfg.MaxFires {
				panic(pathEnd{"bound", "timer firings"})
			}
		}
		p.deadlock(main)
	}
	var ch *sleepEnt
	if p.cfg.NoDPOR {
		ch = p.pickAll(en)
	} else {
		ch = p.pick(en)
	}
	node := len(p.nodes) - 1
	if p.cfg.NoDPOR {
		node = -1
	}
	if ch.g != nil {
		p.sched = append(p.sched, SchedStep{G: ch.g.id, What: ch.pend.kind, Pos: p.userPos(ch.g), now: p.now})
		p.addEvent(ch.g.id, ch.pend, node, ch.g.hbPre)
		ch.g.hbPre = nil
		ch.g.granted = true
		p.cur = ch.g
		return
	}
	p.sched = append(p.sched, SchedStep{G: -1 - ch.t.id, What: "timer", now: p.now})
	p.addEvent(-1-ch.t.id, ch.pend, node, ch.t.hbPre)
	ch.t.hbPre = nil
	p.fireTimer(ch.t)
}

// pickAll explores every enabled process that is not asleep.
func (p *Path) pickAll(en []*sleepEnt) *sleepEnt {
	var cand []*sleepEnt
	for _, e := range en {
		asleep := false
		if !p.cfg.NoPOR {
			for _, s := range p.sleep {
				if (s.g != nil && s.g == e.g && s.pend == e.pend) || (s.t != nil && s.t == e.t && s.pend == e.pend) {
					asleep = true
					break
				}
			}
		}
		if !asleep {
			cand = append(cand, e)
		}
	}
	if len(cand) == 0 {
		panic(pathEnd{"sleep", ""})
	}
	// current goroutine first
	sort.SliceStable(cand, func(i, j int) bool {
		ci := cand[i].g != nil && cand[i].g == p.cur
		cj := cand[j].g != nil && cand[j].g == p.cur
		return ci && !cj
	})
	if p.cfg.Preempt >= 0 && p.preempt >= p.cfg.Preempt && len(cand) > 1 {
		if cand[0].g == p.cur && cand[0].g != nil {
			cand = cand[:1]
		}
	}
	k := 0
	if len(cand) > 1 {
		k = p.chooseSched(len(cand))
		p.nSched++
	}
	ch := cand[k]
	if k > 0 && cand[0].g == p.cur && cand[0].g != nil {
		p.preempt++
	}
	if !p.cfg.NoPOR {
		var ns []*sleepEnt
		for _, s := range append(append([]*sleepEnt(nil), p.sleep...), cand[:k]...) {
			if s.g != nil && s.g == ch.g || s.t != nil && s.t == ch.t {
				continue
			}
			if !dependent(s.pend, ch.pend) {
				ns = append(ns, s)
			}
		}
		p.sleep = ns
	}
	return ch
}

func (p *Path) chooseSched(n int) int {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		m := Model{}
		for k, x := range p.model {
			m[k] = x
		}
		p.pushAlt(int32(i), m, false)
	}
	p.dec = append(p.dec, 0)
	return 0
}

// userPos gives the innermost position in the repository or harness.
func (p *Path) userPos(g *Gor) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if fr.nat != nil || fr.info.pkg == nil {
			continue
		}
		if !strings.Contains(fr.info.pkg.Pkg.Path(), "chanjarster/gears") {
			continue
		}
		pc := fr.pc
		if i < len(g.frames)-1 && pc > 0 {
			pc--
		}
		if pc < len(fr.code) {
			c := &fr.code[pc]
			if c.pos == "" {
				c.pos = fr.info.fn.Prog.Fset.Position(c.in.Pos()).String()
			}
			return c.pos
		}
	}
	return ""
}

func (p *Path) deadlock(main *Gor) {
	if p.pos < len(p.prefix) {
		panic(pathEnd{"deadlock", "replayed"})
	}
	var d []string
	for _, g := range p.gors {
		if !g.done {
			k := g.why
			if g.pend != nil {
				k = g.pend.kind
			}
			d = append(d, fmt.Sprintf("g%d blocked (%s) at %s", g.id, k, p.userPos(g)))
		}
	}
	p.violate("deadlock", "no deadlock", strings.Join(d, "; "), p.model, nil)
	panic(pathEnd{"deadlock", strings.Join(d, "; ")})
}

// ---- clock and timers

func (p *Path) canFire(t *Timer) bool {
	if p.autoClk {
		return true
	}
	// manual clock: due timers only
	c := p.w.ts.Cmp(OpSLe, t.when, p.now)
	if c.IsConst() {
		return c.C == 1
	}
	if v, ok := p.known[c.ID]; ok {
		return v
	}
	return p.branch(c)
}

// tickClock lets an arbitrary amount of time pass (automatic clock).
func (p *Path) tickClock(atLeast *Term) {
	if !p.autoClk {
		return
	}
	ts := p.w.ts
	n := p.fresh("clk", sortBV(64), p.now.Lo, maxClock)
	p.inputs = append(p.inputs, inputRec{Name: "clk", Kind: "clk", term: n})
	c := ts.Cmp(OpSLe, p.now, n)
	if atLeast != nil {
		c = ts.And(c, ts.Cmp(OpSLe, atLeast, n))
	}
	p.assume(c)
	p.now = n
}

const maxClock = int64(8e18)

func (p *Path) newTimer(d *Term, period *Term, ch *Chan, fn func()) *Timer {
	t := &Timer{id: len(p.timers), ch: ch, fn: fn, period: period}
	p.timers = append(p.timers, t)
	p.armTimer(t, d)
	return t
}

func (p *Path) armTimer(t *Timer, d *Term) {
	p.tickClock(nil)
	ts := p.w.ts
	d = ts.Ite(ts.Cmp(OpSLt, d, ts.Int(0)), ts.Int(0), d)
	t.when = ts.Bin(OpAdd, p.now, d)
	t.active = true
	t.pend = nil
	t.hbPre = nil
	if n := p.lastEvent(); n >= 0 {
		t.hbPre = []int{n}
	}
	if p.cur != nil && p.cur.id >= 0 {
		t.vc = vcCopy(p.cur.vc)
		p.cur.tick()
	}
}

func (p *Path) fireTimer(t *Timer) {
	p.fires++
	ts := p.w.ts
	if p.autoClk {
		p.tickClock(t.when)
	}
	t.pend = nil
	if t.period != nil {
		// as the runtime does: when += period * (1 + delta/period)
		late := 0
		next := ts.Bin(OpAdd, t.when, t.period)
		for late < 3 && !p.branch(ts.Cmp(OpSLt, p.now, next)) {
			late++
			next = ts.Bin(OpAdd, next, t.period)
		}
		if late < 3 {
			t.when = next
		} else {
			m := p.fresh("ticks", sortBV(32), 0, 1<<20)
			nw := p.fresh("next", sortBV(64), 0, math.MaxInt64)
			if t.period.IsConst() {
				p.assume(ts.Eq(nw, ts.Bin(OpAdd, t.when, ts.Bin(OpMul, ts.Bin(OpAdd, ts.Conv(m, false, 64), ts.Int(1)), t.period))))
			}
			p.assume(ts.And(ts.Cmp(OpSLt, p.now, nw), ts.Cmp(OpSLe, nw, ts.Bin(OpAdd, p.now, t.period))))
			t.when = nw
		}
		if n := p.lastEvent(); n >= 0 {
			t.hbPre = []int{n}
		}
	} else {
		t.active = false
	}
	if t.ch != nil {
		if t.ch.recvq != nil || len(t.ch.buf) < t.ch.cap {
			p.rawSend(t.ch, p.timeValue(p.now), t.vc)
		}
	}
	if t.fn != nil {
		t.fn()
	}
}

func (p *Path) timeValue(ns *Term) Value {
	return Struct{p.w.ts.BV(timeMark, 64), ns, (*Value)(nil)}
}

const timeMark = 0x3FFFFFFF

// ---- channels

type sudog struct {
	g   *Gor
	val Value
	sel int // select case, -1 plain
	ch  *Chan
	grp *selGroup
}

type selGroup struct{ done bool }

type Chan struct {
	id     int
	cap    int
	buf    []Value
	bufVC  [][]int32
	closed bool
	vc     []int32
	recvq  []*sudog
	sendq  []*sudog
	elem   types.Type
	rvc    []int32
	pathN  int
	tag    any  // a further object every operation touches
	timer  bool // of a timer: since Go 1.23 such a channel never looks buffered
}

func (c *Chan) objs() []any {
	if c.tag != nil {
		return []any{c, c.tag}
	}
	return []any{c}
}

func (p *Path) newChan(n int, elem types.Type) *Chan {
	p.chanSeq++
	return &Chan{id: p.chanSeq, cap: n, elem: elem, pathN: p.ownerID()}
}

func (p *Path) ownChan(c *Chan) {
	if c.pathN != p.ownerID() && p.boot == 0 {
		old := *c
		old.buf = append([]Value(nil), c.buf...)
		id := c.pathN
		p.undoFns = append(p.undoFns, func() { *c = old; c.pathN = id })
		c.pathN = p.ownerID()
	}
}

func deq(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		s := (*q)[0]
		*q = (*q)[1:]
		if s.grp != nil {
			if s.grp.done {
				continue
			}
			s.grp.done = true
		}
		return s
	}
	return nil
}

func peek(q []*sudog) bool {
	for _, s := range q {
		if s.grp == nil || !s.grp.done {
			return true
		}
	}
	return false
}

func (p *Path) wakeG(s *sudog, v Value, ok bool, vc []int32) {
	g := s.g
	g.parked = false
	g.why = ""
	g.woken = &wake{val: v, ok: ok, sel: s.sel, vc: vc}
	p.wakeEdge(g)
}

// rawSend sends from the runtime (timers); there is room or a receiver.
func (p *Path) rawSend(c *Chan, v Value, vc []int32) {
	if r := deq(&c.recvq); r != nil {
		p.wakeG(r, v, true, vc)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.bufVC = append(c.bufVC, vc)
	}
}

func (p *Path) chanVal(x Value) *Chan {
	c, ok := x.(*Chan)
	if !ok {
		if x == nil {
			return nil
		}
		if po, ok := x.(Poison); ok {
			unsup("poison: %s", po.why)
		}
		unsup("channel op on %T", x)
	}
	return c
}

func (p *Path) park(g *Gor, why string) {
	g.parked = true
	g.why = why
	g.woken = nil
}

// trySend attempts a send without parking.
func (p *Path) trySend(g *Gor, c *Chan, v Value) bool {
	if c.closed {
		panic(goPanic{p.plainErr("send on closed channel")})
	}
	p.ownChan(c)
	if r := deq(&c.recvq); r != nil {
		vc := vcCopy(g.vc)
		p.hbAcquire(g, r.g.vc)
		g.tick()
		p.wakeG(r, copyVal(v), true, vc)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, copyVal(v))
		c.bufVC = append(c.bufVC, vcCopy(g.vc))
		p.hbAcquire(g, c.rvc)
		g.tick()
		return true
	}
	return false
}

func (p *Path) plainErr(msg string) Value {
	if t := p.w.typeByName("runtime", "plainError"); t != nil {
		return Iface{T: t, V: Str{s: msg}}
	}
	return Iface{T: p.w.canon(types.Typ[types.String]), V: Str{s: msg}}
}

func (p *Path) tryRecv(g *Gor, c *Chan) (Value, bool, bool) {
	p.ownChan(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		vc := c.bufVC[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		c.bufVC = append([][]int32(nil), c.bufVC[1:]...)
		c.rvc = vcJoin(c.rvc, g.vc)
		if s := deq(&c.sendq); s != nil {
			c.buf = append(c.buf, s.val)
			c.bufVC = append(c.bufVC, vcCopy(s.g.vc))
			p.wakeG(s, nil, true, vcCopy(g.vc))
		}
		p.hbAcquire(g, vc)
		g.tick()
		return v, true, true
	}
	if s := deq(&c.sendq); s != nil {
		svc := vcCopy(s.g.vc)
		p.wakeG(s, nil, true, vcCopy(g.vc))
		p.hbAcquire(g, svc)
		g.tick()
		return s.val, true, true
	}
	if c.closed {
		p.hbAcquire(g, c.vc)
		return p.w.zero(c.elem), false, true
	}
	return nil, false, false
}

func (p *Path) chanSend(g *Gor, x Value, v Value) bool {
	c := p.chanVal(x)
	if g.woken != nil {
		w := g.woken
		g.woken = nil
		p.hbAcquire(g, w.vc)
		if !w.ok {
			panic(goPanic{p.plainErr("send on closed channel")})
		}
		return true
	}
	if c == nil {
		p.park(g, "send on nil channel")
		return false
	}
	if !p.visible(g, "send", true, nil, c.objs()...) {
		return false
	}
	if p.trySend(g, c, v) {
		return true
	}
	c.sendq = append(c.sendq, &sudog{g: g, val: copyVal(v), sel: -1, ch: c})
	p.park(g, "send")
	return false
}

func (p *Path) chanRecv(g *Gor, x Value, t types.Type) (Value, bool) {
	c := p.chanVal(x)
	ts := p.w.ts
	if g.woken != nil {
		w := g.woken
		g.woken = nil
		p.hbAcquire(g, w.vc)
		v := w.val
		if v == nil {
			v = p.w.zero(c.elem)
		}
		return Tuple{v, ts.Bool(w.ok)}, true
	}
	if c == nil {
		p.park(g, "receive from nil channel")
		return nil, false
	}
	if !p.visibleRecv(g, "recv", []*Chan{c}) {
		return nil, false
	}
	v, ok, done := p.tryRecv(g, c)
	if done {
		return Tuple{v, ts.Bool(ok)}, true
	}
	p.ownChan(c)
	c.recvq = append(c.recvq, &sudog{g: g, sel: -1, ch: c})
	p.park(g, "recv")
	return nil, false
}

func (p *Path) chanClose(g *Gor, c *Chan) bool {
	if c == nil {
		panic(goPanic{p.plainErr("close of nil channel")})
	}
	if !p.visible(g, "close", true, nil, c.objs()...) {
		return false
	}
	if c.closed {
		panic(goPanic{p.plainErr("close of closed channel")})
	}
	p.closeChan(c, g)
	return true
}

func (p *Path) closeChan(c *Chan, g *Gor) {
	p.ownChan(c)
	c.closed = true
	if g != nil && g.id >= 0 {
		c.vc = vcCopy(g.vc)
		g.tick()
	}
	for {
		r := deq(&c.recvq)
		if r == nil {
			break
		}
		p.wakeG(r, nil, false, vcCopy(c.vc))
	}
	for {
		s := deq(&c.sendq)
		if s == nil {
			break
		}
		p.wakeG(s, nil, false, vcCopy(c.vc))
	}
}
