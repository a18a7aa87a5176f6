package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Worker struct {
	shims      map[string]*ssa.Function
	qcache     map[string]cachedQuery
	prog       *Program
	ts         *TermStore
	tinfos     map[types.Type]tinfo
	canonMap   typeutil.Map
	canonCache map[types.Type]types.Type
	infos      map[*ssa.Function]*fnInfo
	globals    map[*ssa.Global]*Value
	pkgState   map[*ssa.Package]int
	sols       []*Solver
	stats      SolverStats
	methods    map[methodKey]*ssa.Function
	implCache  map[implKey]bool
	cfg        *Config
	pathSeq    int
	funcsSeen  map[*ssa.Function]int
	unsupSeen  map[string]int
	named      map[string]types.Type
	raw        map[*ssa.Function]*fnInfo
	skipIntr   string
}

type methodKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}
type implKey struct{ a, b types.Type }

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks [][]cinstr
	params []int
	name   string
	intr   intrinsic
	pkg    *ssa.Package
	isInit bool
}

type opnd struct {
	kind uint8 // 0 reg 1 const 2 global 3 freevar 4 absent
	i    int32
	v    Value
	g    *ssa.Global
}

type cinstr struct {
	pos string
	in  ssa.Instruction
	dst int32
	ops []opnd
}

type deferred struct {
	fn   *FuncVal
	args []Value
	pos  token.Pos
}

type panicRec struct {
	val       Value
	recovered bool
	pos       string
	trace     string
}

type Frame struct {
	info      *fnInfo
	regs      []Value
	env       []Value
	blk       *ssa.BasicBlock
	code      []cinstr
	pc        int
	prev      *ssa.BasicBlock
	defers    []*deferred
	dst       int32
	onRet     func(Value)
	deferOf   *Frame
	panicking *panicRec
	recovered bool // recovered, finishing remaining defers
	nat       *natCall
	visits    map[int]int
	isGoRoot  bool
	stopAt    bool // nested synchronous call boundary
	callPos   token.Pos
}

type natCall struct {
	fn   intrinsic
	name string
	args []Value
	sfn  *ssa.Function
}

type goPanic struct {
	val Value
}

type pathEnd struct {
	kind string
	msg  string
}

var buildMu sync.Mutex

func newWorker(prog *Program, cfg *Config) *Worker {
	w := &Worker{prog: prog, ts: NewTermStore(), tinfos: map[types.Type]tinfo{}, canonCache: map[types.Type]types.Type{},
		infos: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*Value{}, pkgState: map[*ssa.Package]int{},
		methods: map[methodKey]*ssa.Function{}, implCache: map[implKey]bool{}, cfg: cfg,
		shims:     prog.shimsOf(cfg.Entry[:strings.LastIndex(cfg.Entry, ".")]),
		funcsSeen: map[*ssa.Function]int{}, unsupSeen: map[string]int{}, named: map[string]types.Type{}}
	short := cfg.QueryMs / 4
	add := func(intMode bool, bin string, ms int) {
		w.sols = append(w.sols, NewSolver(intMode, bin, ms, &w.stats))
	}
	// a portfolio: tried in order until one decides
	if cfg.IntMode {
		add(true, "z3", short)
		add(true, "cvc5", cfg.QueryMs)
		add(true, "z3-new", cfg.QueryMs)
		add(false, "z3", cfg.QueryMs)
	} else {
		add(false, "z3", short)
		add(true, "cvc5", short)
		add(false, "z3-new", cfg.QueryMs)
		add(true, "z3", cfg.QueryMs)
		add(false, "cvc5", cfg.QueryMs)
	}
	return w
}

func (w *Worker) close() {
	for _, s := range w.sols {
		s.Close()
	}
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.infos[fn]; ok {
		return fi
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		if p := w.prog.ssa.Package(fn.Object().Pkg()); p != nil {
			p.Build()
		}
	}
	fi := &fnInfo{fn: fn, name: fn.String(), pkg: fn.Pkg}
	w.infos[fn] = fi
	if w.skipIntr != fi.name {
		fi.intr = findIntrinsic(fn)
	}
	fi.isInit = fn.Name() == "init" && fn.Synthetic != ""
	if fi.intr == nil || fi.name == "os.Exit" {
		if sh := w.shims[fi.name]; sh != nil {
			sfi := w.info(sh)
			w.infos[fn] = sfi
			return sfi
		}
	}
	slots := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		slots[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slots[v] = n
				n++
			}
		}
	}
	fvs := map[ssa.Value]int32{}
	for i, fv := range fn.FreeVars {
		fvs[fv] = int32(i)
	}
	fi.nregs = int(n)
	if fi.intr != nil {
		return fi
	}
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	var buf [16]*ssa.Value
	for bi, b := range fn.Blocks {
		cs := make([]cinstr, len(b.Instrs))
		for i, in := range b.Instrs {
			c := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = slots[v]
			}
			for _, op := range in.Operands(buf[:0]) {
				var o opnd
				if *op == nil {
					o.kind = 4
				} else {
					switch v := (*op).(type) {
					case *ssa.Const:
						o.kind = 1
						o.v = w.constVal(v)
					case *ssa.Global:
						o.kind = 2
						o.g = v
					case *ssa.Function:
						o.kind = 1
						o.v = &FuncVal{fn: v}
					case *ssa.Builtin:
						o.kind = 1
						o.v = &FuncVal{bi: v}
					case *ssa.FreeVar:
						o.kind = 3
						o.i = fvs[v]
					default:
						o.i = slots[v]
					}
				}
				c.ops = append(c.ops, o)
			}
			cs[i] = c
		}
		fi.blocks[bi] = cs
	}
	return fi
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	i := w.ti(c.Type())
	switch i.kind {
	case kBool:
		return w.ts.Bool(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if x, ok := constant.Int64Val(v); ok {
			return w.ts.BV(uint64(x), i.w)
		}
		x, _ := constant.Uint64Val(v)
		return w.ts.BV(x, i.w)
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if i.w == 32 {
			f = float64(float32(f))
		}
		return w.ts.FP(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		r, _ := constant.Int64Val(c.Value)
		return Str{s: string(rune(r))}
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	return Poison{"const " + c.String()}
}

func (p *Path) get(fr *Frame, o *opnd) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	case 2:
		return p.global(o.g)
	case 3:
		return fr.env[o.i]
	}
	return nil
}

func (p *Path) global(g *ssa.Global) *Value {
	w := p.w
	c, ok := w.globals[g]
	if !ok {
		c = new(Value)
		*c = w.zero(g.Type().(*types.Pointer).Elem())
		w.globals[g] = c
	}
	p.ensureInit(g.Pkg)
	return c
}

// ensureInit runs a package's initialisers (only its own) once per worker, concretely.
func (p *Path) ensureInit(pkg *ssa.Package) {
	w := p.w
	if pkg == nil || w.pkgState[pkg] != 0 {
		return
	}
	w.pkgState[pkg] = 1
	pkg.Build()
	fn := pkg.Func("init")
	if fn == nil || skipInit(pkg.Pkg.Path()) {
		w.pkgState[pkg] = 2
		return
	}
	p.bootCall(fn)
	w.pkgState[pkg] = 2
}

func (p *Path) bootCall(fn *ssa.Function) {
	p.boot++
	saveSteps := p.steps
	g := &Gor{id: -1, boot: true}
	saved := p.cur
	p.cur = g
	defer func() {
		p.boot--
		p.cur = saved
		p.steps = saveSteps
	}()
	p.callSync(g, &FuncVal{fn: fn}, nil)
}

func (p *Path) goPanicStr(msg string) {
	var v Value
	if t := p.w.rtErrType(); t != nil {
		v = Iface{T: t, V: Str{s: msg}}
	} else {
		v = Iface{T: p.w.canon(types.Typ[types.String]), V: Str{s: "runtime error: " + msg}}
	}
	panic(goPanic{v})
}

func (w *Worker) rtErrType() types.Type {
	if t, ok := w.named["runtime.errorString"]; ok {
		return t
	}
	t := w.typeByName("runtime", "errorString")
	w.named["runtime.errorString"] = t
	return t
}

func (w *Worker) typeByName(pkg, name string) types.Type {
	k := pkg + "." + name
	if t, ok := w.named[k]; ok {
		return t
	}
	var t types.Type
	if pk := w.prog.byPath[pkg]; pk != nil {
		if o := pk.Pkg.Scope().Lookup(name); o != nil {
			t = w.canon(o.Type())
		}
	}
	w.named[k] = t
	return t
}

func (fr *Frame) set(c *cinstr, v Value) { fr.regs[c.dst] = v }

// ---- memory

func (p *Path) load(addr Value, t types.Type) Value {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			p.goPanicStr("invalid memory address or nil pointer dereference")
		}
		if p.multi {
			p.raceAccess(a, false)
		}
		v := *a
		switch x := v.(type) {
		case Struct, Array:
			return copyVal(v)
		case Poison:
			if p.boot == 0 {
				unsup("read of uninitialised (poisoned) value: %s", x.why)
			}
		}
		return v
	case *SymPtr:
		return p.loadSym(a)
	case *CastPtr:
		return p.loadCast(a)
	case Poison:
		unsup("load through poison: %s", a.why)
	case UnsafePtr:
		if isNilPtr(a.p) {
			p.goPanicStr("invalid memory address or nil pointer dereference")
		}
		return p.load(a.p, t)
	}
	unsup("load through %T", addr)
	return nil
}

func (p *Path) loadSym(a *SymPtr) Value {
	r := a.arr[len(a.arr)-1]
	if p.multi {
		for i := range a.arr {
			p.raceAccess(&a.arr[i], false)
		}
	}
	if t := p.w.ts.table(len(a.arr), a.idx, func(i int) *Term { t, _ := a.arr[i].(*Term); return t }); t != nil {
		return t
	}
	for i := len(a.arr) - 2; i >= 0; i-- {
		r = p.w.ts.Ite(p.w.ts.Eq(a.idx, p.w.ts.BV(uint64(i), int(a.idx.S.W))), a.arr[i].(*Term), r.(*Term))
	}
	return r
}

// table is an element of a table at a symbolic index, which is in range: runs
// of equal and of consecutive elements become one comparison each. It is nil
// if that does not pay.
func (ts *TermStore) table(n int, idx *Term, at func(int) *Term) *Term {
	if n <= 8 {
		return nil
	}
	lo, hi := 0, n-1
	if idx.Lo > 0 && idx.Lo <= int64(hi) {
		lo = int(idx.Lo)
	}
	if idx.Lo >= 0 && idx.Hi >= int64(lo) && idx.Hi < int64(hi) {
		hi = int(idx.Hi)
	}
	type run struct {
		start int
		step  uint64 // 0 or 1
		n     int
	}
	var runs []run
	var prev *Term
	for i := lo; i <= hi; i++ {
		t := at(i)
		if t == nil || t.S.K == SFP {
			return nil
		}
		if len(runs) > 0 {
			r := &runs[len(runs)-1]
			if t == prev && (r.n == 1 || r.step == 0) {
				r.step, r.n, prev = 0, r.n+1, t
				continue
			}
			if t.IsConst() && prev.IsConst() && t.S.K == SBV && t.C == prev.C+1 && (r.n == 1 || r.step == 1) {
				r.step, r.n, prev = 1, r.n+1, t
				continue
			}
		}
		runs = append(runs, run{i, 0, 1})
		prev = t
	}
	if len(runs)*2 >= hi-lo {
		return nil
	}
	val := func(r run) *Term {
		t := at(r.start)
		if r.step == 0 {
			return t
		}
		w := int(t.S.W)
		return ts.Bin(OpAdd, ts.Conv(idx, false, w), ts.BV(t.C-uint64(r.start), w))
	}
	var build func(l, h int) *Term
	build = func(l, h int) *Term {
		if l == h {
			return val(runs[l])
		}
		m := (l + h + 1) / 2
		return ts.Ite(ts.Cmp(OpULt, idx, ts.BV(uint64(runs[m].start), int(idx.S.W))), build(l, m-1), build(m, h))
	}
	return build(0, len(runs)-1)
}

func (p *Path) loadCast(a *CastPtr) Value {
	v := *a.p
	if p.multi {
		p.raceAccess(a.p, false)
	}
	switch x := v.(type) {
	case Slice:
		if b, ok := a.to.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return p.bytesToStr(x)
		}
		return x
	case Str:
		if _, ok := a.to.Underlying().(*types.Slice); ok {
			return p.strToBytes(x)
		}
		return x
	case Struct:
		if isStringHeaderish(a.to) {
			return copyVal(x)
		}
	case *Term:
		ti := p.w.ti(a.to)
		if ti.kind == kFloat && x.S.K == SBV && x.IsConst() {
			return p.w.ts.FP(math.Float64frombits(x.C))
		}
		if ti.kind == kInt && x.S.K == SFP && x.IsConst() && ti.w == 64 {
			return p.w.ts.BV(x.C, 64)
		}
		if ti.kind == kInt && x.S.K == SBV && int(x.S.W) == ti.w {
			return x
		}
	}
	if _, ok := a.to.Underlying().(*types.Pointer); ok {
		return v
	}
	unsup("reinterpreting load of %T as %v", v, a.to)
	return nil
}

func isStringHeaderish(t types.Type) bool { return false }

func (p *Path) store(addr Value, v Value) {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			p.goPanicStr("invalid memory address or nil pointer dereference")
		}
		if p.multi {
			p.raceAccess(a, true)
		}
		p.storeCell(a, v)
	case *SymPtr:
		nv, ok := v.(*Term)
		if !ok {
			unsup("symbolic-index store of %T", v)
		}
		for i := range a.arr {
			old := a.arr[i].(*Term)
			p.storeCell(&a.arr[i], p.w.ts.Ite(p.w.ts.Eq(a.idx, p.w.ts.BV(uint64(i), int(a.idx.S.W))), nv, old))
		}
	case *CastPtr:
		if p.multi {
			p.raceAccess(a.p, true)
		}
		p.storeCell(a.p, v)
	case Poison:
		unsup("store through poison: %s", a.why)
	default:
		unsup("store through %T", addr)
	}
}

func (p *Path) storeCell(a *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*a).(Struct); ok && len(old) == len(x) {
			for i := range x {
				p.storeCell(&old[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if old, ok := (*a).(Array); ok && len(old) == len(x) {
			for i := range x {
				p.storeCell(&old[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	if p.boot == 0 {
		p.undo = append(p.undo, undoRec{a, *a})
	}
	*a = v
}

// ---- calls

func (p *Path) pushCall(g *Gor, f *FuncVal, args []Value, dst int32, pos token.Pos) *Frame {
	if len(g.frames) > 2000 {
		panic(pathEnd{"limit", "call depth"})
	}
	if f == nil {
		p.goPanicStr("invalid memory address or nil pointer dereference")
	}
	if f.native != nil {
		nf := f.native
		fr := &Frame{nat: &natCall{fn: func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) { return nf(p, g, a), true }, name: "native", args: args}, dst: dst, callPos: pos}
		g.frames = append(g.frames, fr)
		return fr
	}
	if f.bi != nil {
		bi := f.bi
		fr := &Frame{nat: &natCall{fn: func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
			return p.builtin(g, bi, a, nil)
		}, name: bi.Name(), args: args}, dst: dst, callPos: pos}
		g.frames = append(g.frames, fr)
		return fr
	}
	fi := p.w.info(f.fn)
	p.w.funcsSeen[fi.fn]++
	if fi.intr != nil {
		fr := &Frame{nat: &natCall{fn: fi.intr, name: fi.name, args: args, sfn: fi.fn}, dst: dst, callPos: pos}
		g.frames = append(g.frames, fr)
		return fr
	}
	if len(fi.fn.Blocks) == 0 {
		unsup("call of external function %s", fi.name)
	}
	if fi.pkg != nil && !fi.isInit {
		p.ensureInit(fi.pkg)
	}
	fr := &Frame{info: fi, regs: make([]Value, fi.nregs), env: f.env, dst: dst, callPos: pos}
	copy(fr.regs, args)
	fr.enter(fi.fn.Blocks[0])
	g.frames = append(g.frames, fr)
	return fr
}

func (fr *Frame) enter(b *ssa.BasicBlock) {
	fr.prev = fr.blk
	fr.blk = b
	fr.code = fr.info.blocks[b.Index]
	fr.pc = 0
}

// callSync runs a call to completion without scheduling.
func (p *Path) callSync(g *Gor, f *FuncVal, args []Value) Value {
	p.noYield++
	defer func() { p.noYield-- }()
	var res Value
	fr := p.pushCall(g, f, args, -1, token.NoPos)
	fr.stopAt = true
	done := false
	fr.onRet = func(v Value) { res = v; done = true }
	depth := len(g.frames)
	granted, pend := g.granted, g.pend
	g.granted, g.pend = false, nil
	p.runNested(g, func() bool { return done || len(g.frames) < depth })
	g.granted, g.pend = granted, pend
	return res
}

func (p *Path) runNested(g *Gor, stop func() bool) {
	for !stop() {
		st := p.stepSafe(g)
		if st == stBlocked {
			unsup("blocking operation inside an atomic section (%s)", g.where())
		}
	}
}

type stepStatus int

const (
	stCont stepStatus = iota
	stBlocked
	stDone
)

// stepSafe executes one instruction, turning interpreted panics into unwinding.
func (p *Path) stepSafe(g *Gor) (st stepStatus) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				p.startPanic(g, x.val)
				st = stCont
			case unsupported:
				if p.boot > 0 {
					p.poisonInit(g, x)
					st = stCont
					return
				}
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	for i := 0; i < 4096; i++ {
		if st := p.step(g); st != stCont {
			return st
		}
		if len(g.frames) == 0 || p.nestStop {
			p.nestStop = false
			return stCont
		}
	}
	return stCont
}

// poisonInit abandons the current initialiser expression and marks its result unusable.
func (p *Path) poisonInit(g *Gor, u unsupported) {
	// unwind to the innermost package init frame that belongs to boot
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if fr.info != nil && fr.info.isInit {
			if i == len(g.frames)-1 {
				// instruction of init itself
				c := &fr.code[fr.pc]
				if c.dst >= 0 {
					fr.regs[c.dst] = Poison{u.msg}
				} else if st, ok := c.in.(*ssa.Store); ok {
					if gl, ok := st.Addr.(*ssa.Global); ok {
						*p.global(gl) = Poison{u.msg}
					}
				} else if _, ok := c.in.(*ssa.If); ok {
					fr.enter(fr.blk.Succs[1])
					return
				} else if _, ok := c.in.(*ssa.Return); ok {
					panic(u)
				}
				fr.pc++
				return
			}
			// a callee failed: drop frames above
			top := g.frames[i+1]
			g.frames = g.frames[:i+1]
			if top.dst >= 0 {
				fr.regs[top.dst] = Poison{u.msg}
			}
			return
		}
		if fr.stopAt && i < len(g.frames) && i > 0 {
			continue
		}
	}
	panic(u)
}

func (p *Path) startPanic(g *Gor, v Value) {
	rec := &panicRec{val: v}
	rec.trace = g.stack()
	p.unwind(g, rec)
}

func (p *Path) unwind(g *Gor, rec *panicRec) {
	for len(g.frames) > 0 {
		fr := g.frames[len(g.frames)-1]
		if fr.nat != nil {
			g.frames = g.frames[:len(g.frames)-1]
			if fr.stopAt {
				panic(goPanic{rec.val})
			}
			continue
		}
		fr.panicking = rec
		fr.recovered = false
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			p.pushDefer(g, fr, d)
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
		if fr.stopAt {
			// leave the nested call: propagate as an engine-level panic
			panic(goPanic{rec.val})
		}
	}
	if g.boot {
		unsup("panic during package initialisation: %s", p.panicText(rec.val))
	}
	g.done = true
	p.crash(g, rec)
}

func (p *Path) pushDefer(g *Gor, owner *Frame, d *deferred) {
	n := len(g.frames)
	fr := func() (fr *Frame) {
		defer func() {
			if r := recover(); r != nil {
				if gp, ok := r.(goPanic); ok { // e.g. deferred nil func
					g.frames = g.frames[:n]
					fr = &Frame{nat: &natCall{fn: func(*Path, *Gor, *ssa.Function, []Value) (Value, bool) { panic(gp) }, name: "nilfunc"}}
					g.frames = append(g.frames, fr)
					return
				}
				panic(r)
			}
		}()
		return p.pushCall(g, d.fn, d.args, -1, d.pos)
	}()
	fr.deferOf = owner
}

// finish pops the top frame delivering its result.
func (p *Path) finish(g *Gor, v Value) {
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onRet != nil {
		fr.onRet(v)
	}
	if fr.stopAt {
		p.nestStop = true
	}
	if fr.deferOf != nil {
		o := fr.deferOf
		if o.panicking != nil {
			rec := o.panicking
			if rec.recovered {
				o.panicking = nil
				o.recovered = true
			} else {
				p.unwind(g, rec)
				return
			}
		}
		if o.recovered {
			if len(o.defers) > 0 {
				d := o.defers[len(o.defers)-1]
				o.defers = o.defers[:len(o.defers)-1]
				p.pushDefer(g, o, d)
				return
			}
			o.recovered = false
			if o.info.fn.Recover != nil {
				o.enter(o.info.fn.Recover)
				return
			}
			// no named results: return zero values
			p.finish(g, p.zeroResult(o.info.fn))
			return
		}
		return
	}
	if len(g.frames) > 0 && fr.dst >= 0 {
		caller := g.frames[len(g.frames)-1]
		if caller.regs != nil {
			caller.regs[fr.dst] = v
		}
	}
}

func (p *Path) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return p.w.zero(res.At(0).Type())
	}
	return p.w.zero(res)
}

func (g *Gor) where() string {
	if len(g.frames) == 0 {
		return "?"
	}
	fr := g.frames[len(g.frames)-1]
	if fr.nat != nil {
		return fr.nat.name
	}
	s := fr.info.name
	if fr.pc < len(fr.code) {
		s += " at " + fr.info.fn.Prog.Fset.Position(fr.code[fr.pc].in.Pos()).String()
	}
	return s
}

func (g *Gor) stack() string {
	var b strings.Builder
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-12; i-- {
		fr := g.frames[i]
		if fr.nat != nil {
			b.WriteString(fr.nat.name + "\n")
			continue
		}
		pc := fr.pc
		if i < len(g.frames)-1 && pc > 0 {
			pc--
		}
		pos := ""
		if pc < len(fr.code) {
			pos = fr.info.fn.Prog.Fset.Position(fr.code[pc].in.Pos()).String()
		}
		b.WriteString(fr.info.name + " " + pos + "\n")
	}
	return b.String()
}

// step executes one instruction (or one native frame).
func (p *Path) step(g *Gor) stepStatus {
	fr := g.frames[len(g.frames)-1]
	p.steps++
	if p.steps > p.cfg.MaxSteps && p.boot == 0 {
		panic(pathEnd{"limit", "step limit at " + g.where()})
	}
	if fr.nat != nil {
		v, ok := fr.nat.fn(p, g, fr.nat.sfn, fr.nat.args)
		if !ok {
			return stBlocked
		}
		if len(g.frames) == 0 || g.frames[len(g.frames)-1] != fr {
			// intrinsic pushed or replaced frames itself
			return stCont
		}
		p.finish(g, v)
		return stCont
	}
	c := &fr.code[fr.pc]
	switch in := c.in.(type) {
	case *ssa.DebugRef:
	case *ssa.BinOp:
		fr.set(c, p.binop(in.Op, in.X.Type(), in.Y.Type(), p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1])))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			fr.set(c, p.load(p.get(fr, &c.ops[0]), in.Type()))
		case token.ARROW:
			v, ok := p.chanRecv(g, p.get(fr, &c.ops[0]), in.X.Type())
			if !ok {
				return stBlocked
			}
			if in.CommaOk {
				fr.set(c, v)
			} else {
				fr.set(c, v.(Tuple)[0])
			}
		default:
			fr.set(c, p.unop(in, p.get(fr, &c.ops[0])))
		}
	case *ssa.Alloc:
		cell := new(Value)
		*cell = p.w.zero(in.Type().(*types.Pointer).Elem())
		fr.set(c, cell)
	case *ssa.Store:
		p.store(p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1]))
	case *ssa.FieldAddr:
		fr.set(c, p.fieldAddr(p.get(fr, &c.ops[0]), in.Field))
	case *ssa.Field:
		st, ok := p.get(fr, &c.ops[0]).(Struct)
		if !ok {
			unsup("field of %T", p.get(fr, &c.ops[0]))
		}
		fr.set(c, st[in.Field])
	case *ssa.IndexAddr:
		fr.set(c, p.indexAddr(p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1]), in.Index.Type()))
	case *ssa.Index:
		fr.set(c, p.index(p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1]), in.Index.Type()))
	case *ssa.Call:
		return p.doCall(g, fr, c, &in.Call)
	case *ssa.Go:
		f, args := p.prepareCall(fr, c, &in.Call)
		fr.pc++
		p.spawn(g, f, args, in.Pos())
		return stCont
	case *ssa.Defer:
		f, args := p.prepareCall(fr, c, &in.Call)
		target := fr
		if in.DeferStack != nil {
			if dp, ok := p.get(fr, &c.ops[len(c.ops)-1]).(*Native); ok {
				target = dp.v.(*Frame)
			}
		}
		target.defers = append(target.defers, &deferred{fn: f, args: args, pos: in.Pos()})
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			p.pushDefer(g, fr, d)
			return stCont
		}
	case *ssa.Return:
		var v Value
		switch len(c.ops) {
		case 0:
		case 1:
			v = p.get(fr, &c.ops[0])
		default:
			t := make(Tuple, len(c.ops))
			for i := range c.ops {
				t[i] = p.get(fr, &c.ops[i])
			}
			v = t
		}
		p.finish(g, v)
		return stCont
	case *ssa.Jump:
		p.gotoBlock(fr, fr.blk.Succs[0])
		return stCont
	case *ssa.If:
		cond := p.get(fr, &c.ops[0])
		t, ok := cond.(*Term)
		if !ok {
			unsup("branch on %T", cond)
		}
		if !t.IsConst() && p.boot == 0 && p.tryMerge(g, fr, t) {
			return stCont
		}
		if p.branch(t) {
			p.gotoBlock(fr, fr.blk.Succs[0])
		} else {
			p.gotoBlock(fr, fr.blk.Succs[1])
		}
		return stCont
	case *ssa.Phi:
		p.doPhis(fr)
		return stCont
	case *ssa.Panic:
		panic(goPanic{p.get(fr, &c.ops[0])})
	case *ssa.MakeClosure:
		env := make([]Value, len(c.ops)-1)
		for i := range env {
			env[i] = p.get(fr, &c.ops[i+1])
		}
		fr.set(c, &FuncVal{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.MakeInterface:
		fr.set(c, p.mkIface(in.X.Type(), p.get(fr, &c.ops[0])))
	case *ssa.ChangeInterface:
		fr.set(c, p.get(fr, &c.ops[0]))
	case *ssa.ChangeType:
		fr.set(c, p.get(fr, &c.ops[0]))
	case *ssa.Convert:
		fr.set(c, p.convert(in.X.Type(), in.Type(), p.get(fr, &c.ops[0])))
	case *ssa.MultiConvert:
		fr.set(c, p.convert(in.X.Type(), in.Type(), p.get(fr, &c.ops[0])))
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.MakeSlice:
		n := p.concInt(p.get(fr, &c.ops[0]), "makeslice len")
		cp := p.concInt(p.get(fr, &c.ops[1]), "makeslice cap")
		if n < 0 || n > 1<<40 {
			p.goPanicStr("makeslice: len out of range")
		}
		if cp < n {
			p.goPanicStr("makeslice: cap out of range")
		}
		if cp > 1<<22 {
			unsup("huge slice %d", cp)
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, cp)
		for i := range s {
			s[i] = p.w.zero(et)
		}
		fr.set(c, s[:n])
	case *ssa.MakeMap:
		fr.set(c, p.newMap(in.Type().Underlying().(*types.Map).Key()))
	case *ssa.MakeChan:
		n := p.concInt(p.get(fr, &c.ops[0]), "makechan size")
		if n < 0 {
			p.goPanicStr("makechan: size out of range")
		}
		fr.set(c, p.newChan(n, in.Type().Underlying().(*types.Chan).Elem()))
	case *ssa.Slice:
		fr.set(c, p.slice(fr, c, in))
	case *ssa.Lookup:
		fr.set(c, p.lookup(p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1]), in))
	case *ssa.MapUpdate:
		mv := p.get(fr, &c.ops[0])
		m, ok := mv.(*Map)
		if !ok {
			unsup("map update on %T", mv)
		}
		if m == nil {
			p.goPanicPlain("assignment to entry in nil map")
		}
		if p.multi {
			p.raceAccess(m.sh, true)
		}
		p.mapSet(m, p.get(fr, &c.ops[1]), copyVal(p.get(fr, &c.ops[2])))
	case *ssa.Range:
		x := p.get(fr, &c.ops[0])
		switch y := x.(type) {
		case *Map:
			if p.multi && y != nil {
				p.raceAccess(y.sh, false)
			}
			fr.set(c, p.mapIter(y))
		case Str:
			fr.set(c, &StrIter{s: y})
		default:
			unsup("range over %T", x)
		}
	case *ssa.Next:
		fr.set(c, p.next(p.get(fr, &c.ops[0]), in))
	case *ssa.TypeAssert:
		fr.set(c, p.typeAssert(in, p.get(fr, &c.ops[0])))
	case *ssa.Extract:
		t := p.get(fr, &c.ops[0])
		tt, ok := t.(Tuple)
		if !ok {
			if po, ok := t.(Poison); ok {
				unsup("poison: %s", po.why)
			}
			unsup("extract from %T", t)
		}
		fr.set(c, tt[in.Index])
	case *ssa.Send:
		if !p.chanSend(g, p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1])) {
			return stBlocked
		}
	case *ssa.Select:
		v, ok := p.doSelect(g, fr, c, in)
		if !ok {
			return stBlocked
		}
		fr.set(c, v)
	default:
		unsup("instruction %T", in)
	}
	fr.pc++
	return stCont
}

func (p *Path) goPanicPlain(msg string) {
	if t := p.w.typeByName("runtime", "plainError"); t != nil {
		panic(goPanic{Iface{T: t, V: Str{s: msg}}})
	}
	p.goPanicStr(msg)
}

func (p *Path) gotoBlock(fr *Frame, b *ssa.BasicBlock) {
	if b.Index <= fr.blk.Index && p.boot == 0 {
		if fr.visits == nil {
			fr.visits = map[int]int{}
		}
		fr.visits[b.Index]++
		if fr.visits[b.Index] > p.cfg.MaxLoop {
			if p.pos >= len(p.prefix) && fr.info.pkg != nil && strings.HasPrefix(fr.info.pkg.Pkg.Path(), modPath) && !strings.Contains(fr.info.pkg.Pkg.Path(), "/zzverif/") {
				p.violate("hang", "every call returns", "loop in "+fr.info.name+" iterates without end", p.model, p.cur)
				panic(pathEnd{"violation", "hang"})
			}
			panic(pathEnd{"limit", "loop bound at " + fr.info.name + " " + fr.info.fn.Prog.Fset.Position(b.Instrs[0].Pos()).String()})
		}
	}
	fr.enter(b)
	if len(fr.code) > 0 {
		if _, ok := fr.code[0].in.(*ssa.Phi); ok {
			p.doPhis(fr)
		}
	}
}

func (p *Path) doPhis(fr *Frame) {
	// parallel assignment
	pi := -1
	for i, pr := range fr.blk.Preds {
		if pr == fr.prev {
			pi = i
			break
		}
	}
	var vals [8]Value
	vs := vals[:0]
	n := 0
	for n < len(fr.code) {
		if _, ok := fr.code[n].in.(*ssa.Phi); !ok {
			break
		}
		vs = append(vs, p.get(fr, &fr.code[n].ops[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.regs[fr.code[i].dst] = vs[i]
	}
	fr.pc = n
}

// tryMerge if-converts small side-effect free diamonds/triangles.
func (p *Path) tryMerge(g *Gor, fr *Frame, cond *Term) bool {
	if p.cfg.NoMerge {
		return false
	}
	if _, ok := p.known[cond.ID]; ok {
		return false
	}
	B := fr.blk
	T, F := B.Succs[0], B.Succs[1]
	var J *ssa.BasicBlock
	single := func(x *ssa.BasicBlock) bool { return len(x.Preds) == 1 && len(x.Succs) == 1 && len(x.Instrs) <= 12 }
	switch {
	case single(T) && T.Succs[0] == F:
		J = F
	case single(F) && F.Succs[0] == T:
		J = T
	case single(T) && single(F) && T.Succs[0] == F.Succs[0]:
		J = T.Succs[0]
	default:
		return false
	}
	if J == B {
		return false
	}
	// J must start with phis (otherwise merging brings only pure dead code, also fine)
	predT, predF := B, B
	if T != J {
		predT = T
	}
	if F != J {
		predF = F
	}
	if predT == predF {
		return false
	}
	run := func(x *ssa.BasicBlock) bool {
		if x == J {
			return true
		}
		code := fr.info.blocks[x.Index]
		for i := range code {
			c := &code[i]
			switch in := c.in.(type) {
			case *ssa.Jump:
				return true
			case *ssa.DebugRef:
			case *ssa.BinOp:
				if in.Op == token.QUO || in.Op == token.REM || in.Op == token.SHL || in.Op == token.SHR {
					return false
				}
				a, ok1 := p.get(fr, &c.ops[0]).(*Term)
				b, ok2 := p.get(fr, &c.ops[1]).(*Term)
				if !ok1 || !ok2 {
					return false
				}
				fr.regs[c.dst] = p.binop(in.Op, in.X.Type(), in.Y.Type(), a, b)
			case *ssa.UnOp:
				if in.Op == token.MUL {
					a, ok := p.get(fr, &c.ops[0]).(*Value)
					if !ok || a == nil {
						return false
					}
					t, ok := (*a).(*Term)
					if !ok || p.multi {
						return false
					}
					fr.regs[c.dst] = t
					break
				}
				if in.Op == token.ARROW {
					return false
				}
				a, ok := p.get(fr, &c.ops[0]).(*Term)
				if !ok {
					return false
				}
				fr.regs[c.dst] = p.unop(in, a)
			case *ssa.FieldAddr:
				a, ok := p.get(fr, &c.ops[0]).(*Value)
				if !ok || a == nil {
					return false
				}
				s, ok := (*a).(Struct)
				if !ok {
					return false
				}
				fr.regs[c.dst] = &s[in.Field]
			case *ssa.Field:
				fr.regs[c.dst] = p.get(fr, &c.ops[0]).(Struct)[in.Field]
			case *ssa.Convert:
				a, ok := p.get(fr, &c.ops[0]).(*Term)
				if !ok || p.w.ti(in.Type()).kind != kInt || p.w.ti(in.X.Type()).kind != kInt {
					return false
				}
				fr.regs[c.dst] = p.convert(in.X.Type(), in.Type(), a)
			case *ssa.ChangeType:
				fr.regs[c.dst] = p.get(fr, &c.ops[0])
			default:
				return false
			}
		}
		return false
	}
	if !run(T) || !run(F) {
		return false
	}
	ti, fi := -1, -1
	for i, pr := range J.Preds {
		if pr == predT {
			ti = i
		}
		if pr == predF {
			fi = i
		}
	}
	code := fr.info.blocks[J.Index]
	var vs []Value
	n := 0
	for n < len(code) {
		if _, ok := code[n].in.(*ssa.Phi); !ok {
			break
		}
		a := p.get(fr, &code[n].ops[ti])
		b := p.get(fr, &code[n].ops[fi])
		var v Value
		at, ok1 := a.(*Term)
		bt, ok2 := b.(*Term)
		if ok1 && ok2 && at.S == bt.S {
			v = p.w.ts.Ite(cond, at, bt)
		} else {
			as, ok1 := a.(Str)
			bs, ok2 := b.(Str)
			if !ok1 || !ok2 || as.Len() != bs.Len() || as.Len() > 64 {
				return false
			}
			x, y := p.w.strBytes(as), p.w.strBytes(bs)
			r := make([]*Term, len(x))
			for i := range r {
				r[i] = p.w.ts.Ite(cond, x[i], y[i])
			}
			v = p.w.symStr(r)
		}
		vs = append(vs, v)
		n++
	}
	if n == 0 && (T != J && F != J) {
		return false
	}
	p.merges++
	fr.enter(J)
	for i := 0; i < n; i++ {
		fr.regs[code[i].dst] = vs[i]
	}
	fr.pc = n
	return true
}

func (p *Path) mkIface(t types.Type, v Value) Value {
	if types.IsInterface(t) {
		return v
	}
	return Iface{T: p.w.canon(t), V: copyVal(v)}
}

func (p *Path) fieldAddr(x Value, i int) Value {
	switch a := x.(type) {
	case *Value:
		if a == nil {
			p.goPanicStr("invalid memory address or nil pointer dereference")
		}
		s, ok := (*a).(Struct)
		if !ok {
			if po, ok := (*a).(Poison); ok {
				unsup("poison: %s", po.why)
			}
			unsup("field address in %T", *a)
		}
		return &s[i]
	case *CastPtr:
		s, ok := (*a.p).(Struct)
		if ok && i < len(s) {
			return &s[i]
		}
		unsup("field of reinterpreted pointer to %T", *a.p)
	case Poison:
		unsup("poison: %s", a.why)
	}
	unsup("fieldaddr of %T", x)
	return nil
}

// normIdx gives a 64-bit index term.
func (p *Path) normIdx(idx Value, t types.Type) *Term {
	x, ok := idx.(*Term)
	if !ok {
		unsup("index %T", idx)
	}
	return p.w.ts.Conv(x, p.w.ti(t).signed, 64)
}

func (p *Path) checkIdx(i *Term, n int) {
	ok := p.w.ts.Cmp(OpULt, i, p.w.ts.Int(n))
	if !p.branch(ok) {
		p.goPanicStr(fmt.Sprintf("index out of range [%s] with length %d", showTerm(i, 1), n))
	}
}

func (p *Path) elemPtr(arr []Value, i *Term) Value {
	p.checkIdx(i, len(arr))
	if i.IsConst() {
		return &arr[i.C]
	}
	allTerm := len(arr) <= 512
	for k := 0; allTerm && k < len(arr); k++ {
		if _, ok := arr[k].(*Term); !ok {
			allTerm = false
		}
	}
	if allTerm {
		return &SymPtr{arr, i}
	}
	n := p.concTerm(i)
	return &arr[n]
}

func (p *Path) indexAddr(x, idx Value, it types.Type) Value {
	i := p.normIdx(idx, it)
	switch a := x.(type) {
	case Slice:
		return p.elemPtr(a, i)
	case *Value:
		if a == nil {
			p.goPanicStr("invalid memory address or nil pointer dereference")
		}
		arr, ok := (*a).(Array)
		if !ok {
			unsup("index of pointer to %T", *a)
		}
		return p.elemPtr(arr, i)
	case Poison:
		unsup("poison: %s", a.why)
	}
	unsup("indexaddr of %T", x)
	return nil
}

func (p *Path) index(x, idx Value, it types.Type) Value {
	i := p.normIdx(idx, it)
	switch a := x.(type) {
	case Array:
		ptr := p.elemPtr(a, i)
		if sp, ok := ptr.(*SymPtr); ok {
			return p.loadSym(sp)
		}
		return copyVal(*ptr.(*Value))
	case Str:
		return p.strIndex(a, i)
	}
	unsup("index of %T", x)
	return nil
}

func (p *Path) strIndex(a Str, i *Term) Value {
	p.checkIdx(i, a.Len())
	if i.IsConst() {
		return p.w.strByte(a, int(i.C))
	}
	n := a.Len()
	if t := p.w.ts.table(n, i, func(k int) *Term { return p.w.strByte(a, k) }); t != nil {
		return t
	}
	r := p.w.strByte(a, n-1)
	for k := n - 2; k >= 0; k-- {
		r = p.w.ts.Ite(p.w.ts.Eq(i, p.w.ts.Int(k)), p.w.strByte(a, k), r)
	}
	return r
}

func (p *Path) lookup(x, k Value, in *ssa.Lookup) Value {
	switch m := x.(type) {
	case Str:
		return p.strIndex(m, p.normIdx(k, in.Index.Type()))
	case *Map:
		if p.multi && m != nil {
			p.raceAccess(m.sh, false)
		}
		e := p.mapFind(m, k)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			t := in.Type()
			if in.CommaOk {
				t = in.Type().(*types.Tuple).At(0).Type()
			}
			v = p.w.zero(t)
		}
		if in.CommaOk {
			return Tuple{v, p.w.ts.Bool(e != nil)}
		}
		return v
	case Poison:
		unsup("poison: %s", m.why)
	}
	unsup("lookup in %T", x)
	return nil
}

func (p *Path) next(x Value, in *ssa.Next) Value {
	ts := p.w.ts
	switch it := x.(type) {
	case *MapIter:
		if p.multi && it.m != nil {
			p.raceAccess(it.m.sh, false)
		}
		e, ok := it.next()
		if !ok {
			tt := in.Type().(*types.Tuple)
			z := func(t types.Type) Value {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return p.w.zero(t)
			}
			return Tuple{ts.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
		}
		return Tuple{ts.True, copyVal(e.k), copyVal(e.v)}
	case *StrIter:
		if it.pos >= it.s.Len() {
			return Tuple{ts.False, ts.Int(0), ts.BV(0, 32)}
		}
		start := it.pos
		r, n := p.decodeRune(it.s, start)
		// iterators live in registers; progress must be local to the path
		it.pos += n
		return Tuple{ts.True, ts.Int(start), r}
	}
	unsup("next on %T", x)
	return nil
}

// decodeRune decodes one rune at i, forking on the byte classes.
func (p *Path) decodeRune(s Str, i int) (*Term, int) {
	ts := p.w.ts
	b0 := p.w.strByte(s, i)
	if b0.IsConst() && b0.C < 0x80 {
		return ts.BV(b0.C, 32), 1
	}
	if p.branch(ts.Cmp(OpULt, b0, ts.BV(0x80, 8))) {
		return ts.Conv(b0, false, 32), 1
	}
	bad := ts.BV(0xFFFD, 32)
	cont := func(k int, lo, hi uint64) bool {
		if i+k >= s.Len() {
			return false
		}
		b := p.w.strByte(s, i+k)
		return p.branch(ts.And(ts.Cmp(OpULe, ts.BV(lo, 8), b), ts.Cmp(OpULe, b, ts.BV(hi, 8))))
	}
	low := func(k int, m uint64) *Term {
		return ts.Bin(OpBAnd, ts.Conv(p.w.strByte(s, i+k), false, 32), ts.BV(m, 32))
	}
	sh := func(t *Term, n uint64) *Term { return ts.Bin(OpMul, t, ts.BV(1<<n, 32)) }
	in := func(lo, hi uint64) bool {
		return p.branch(ts.And(ts.Cmp(OpULe, ts.BV(lo, 8), b0), ts.Cmp(OpULe, b0, ts.BV(hi, 8))))
	}
	if in(0xC2, 0xDF) {
		if cont(1, 0x80, 0xBF) {
			return ts.Bin(OpAdd, sh(low(0, 0x1F), 6), low(1, 0x3F)), 2
		}
		return bad, 1
	}
	three := func(lo, hi uint64) (*Term, int) {
		if cont(1, lo, hi) && cont(2, 0x80, 0xBF) {
			return ts.Bin(OpAdd, ts.Bin(OpAdd, sh(low(0, 0x0F), 12), sh(low(1, 0x3F), 6)), low(2, 0x3F)), 3
		}
		return bad, 1
	}
	four := func(lo, hi uint64) (*Term, int) {
		if cont(1, lo, hi) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) {
			return ts.Bin(OpAdd, ts.Bin(OpAdd, sh(low(0, 0x07), 18), sh(low(1, 0x3F), 12)), ts.Bin(OpAdd, sh(low(2, 0x3F), 6), low(3, 0x3F))), 4
		}
		return bad, 1
	}
	switch {
	case in(0xE0, 0xE0):
		return three(0xA0, 0xBF)
	case in(0xED, 0xED):
		return three(0x80, 0x9F)
	case in(0xE1, 0xEF):
		return three(0x80, 0xBF)
	case in(0xF0, 0xF0):
		return four(0x90, 0xBF)
	case in(0xF1, 0xF3):
		return four(0x80, 0xBF)
	case in(0xF4, 0xF4):
		return four(0x80, 0x8F)
	}
	return bad, 1
}

// encodeRune gives the UTF-8 bytes of a rune term.
func (p *Path) encodeRune(r *Term) []*Term {
	ts := p.w.ts
	if r.IsConst() {
		var out []*Term
		for _, b := range []byte(string(rune(int32(r.C)))) {
			out = append(out, ts.small8[b])
		}
		return out
	}
	r = ts.Conv(r, true, 32)
	if p.branch(ts.Cmp(OpULt, r, ts.BV(0x80, 32))) {
		return []*Term{ts.Conv(r, false, 8)}
	}
	b := func(shift uint64, m, or uint64) *Term {
		x := ts.Bin(OpLShr, r, ts.BV(shift, 32))
		x = ts.Bin(OpBAnd, x, ts.BV(m, 32))
		return ts.Conv(ts.Bin(OpBOr, x, ts.BV(or, 32)), false, 8)
	}
	if p.branch(ts.Cmp(OpULt, r, ts.BV(0x800, 32))) {
		return []*Term{b(6, 0x1F, 0xC0), b(0, 0x3F, 0x80)}
	}
	bad := []*Term{ts.small8[0xEF], ts.small8[0xBF], ts.small8[0xBD]}
	if p.branch(ts.Cmp(OpULt, r, ts.BV(0x10000, 32))) {
		if p.branch(ts.And(ts.Cmp(OpULe, ts.BV(0xD800, 32), r), ts.Cmp(OpULe, r, ts.BV(0xDFFF, 32)))) {
			return bad
		}
		return []*Term{b(12, 0x0F, 0xE0), b(6, 0x3F, 0x80), b(0, 0x3F, 0x80)}
	}
	if p.branch(ts.Cmp(OpULe, r, ts.BV(0x10FFFF, 32))) {
		return []*Term{b(18, 0x07, 0xF0), b(12, 0x3F, 0x80), b(6, 0x3F, 0x80), b(0, 0x3F, 0x80)}
	}
	return bad
}

func (p *Path) bytesToStr(x Slice) Str {
	b := make([]*Term, len(x))
	for i, e := range x {
		t, ok := e.(*Term)
		if !ok {
			unsup("byte slice element %T", e)
		}
		if p.multi {
			p.raceAccess(&x[i], false)
		}
		b[i] = t
	}
	return p.w.symStr(b)
}

func (p *Path) strToBytes(s Str) Slice {
	r := make(Slice, s.Len())
	for i := range r {
		r[i] = p.w.strByte(s, i)
	}
	return r
}

func (p *Path) convert(from, to types.Type, v Value) Value {
	w := p.w
	ts := w.ts
	if po, ok := v.(Poison); ok {
		unsup("poison: %s", po.why)
	}
	// type parameters' core types are instantiated already
	fi, ti := w.ti(from), w.ti(to)
	switch {
	case fi.kind == kInt && ti.kind == kInt:
		if u, ok := v.(UnsafePtr); ok {
			_ = u
			unsup("uintptr from pointer")
		}
		return ts.Conv(v.(*Term), fi.signed, ti.w)
	case fi.kind == kInt && ti.kind == kFloat:
		r := ts.FFrom(v.(*Term), fi.signed)
		if ti.w == 32 {
			if !r.IsConst() {
				unsup("symbolic float32")
			}
			return ts.FP(float64(float32(r.Float())))
		}
		return r
	case fi.kind == kFloat && ti.kind == kInt:
		x := v.(*Term)
		if x.IsConst() {
			f := x.Float()
			if !ti.signed && ti.w == 64 {
				return ts.BV(uint64(f), 64)
			}
			return ts.BV(uint64(int64(f)), ti.w)
		}
		if !ti.signed && ti.w == 64 {
			if f, ok := p.concFloat(x); ok {
				return ts.BV(uint64(f), 64)
			}
			zero, lim := ts.FP(0), ts.FP(1<<63)
			if !p.branch(ts.And(ts.FBin(OpFLe, zero, x), ts.FBin(OpFLt, x, lim))) {
				unsup("symbolic float to uint64")
			}
		}
		return ts.Conv(ts.FTo(x, 64), true, ti.w)
	case fi.kind == kFloat && ti.kind == kFloat:
		if ti.w == 32 && fi.w == 64 {
			x := v.(*Term)
			if !x.IsConst() {
				unsup("symbolic float32")
			}
			return ts.FP(float64(float32(x.Float())))
		}
		return v
	case fi.kind == kString && ti.kind == kString:
		return v
	case fi.kind == kInt && ti.kind == kString:
		t := v.(*Term)
		return w.symStr(p.encodeRune(ts.Conv(t, fi.signed, 32)))
	case fi.kind == kComplex && ti.kind == kComplex:
		return v
	}
	switch tu := to.Underlying().(type) {
	case *types.Slice:
		if fi.kind == kString {
			s := v.(Str)
			if w.ti(tu.Elem()).w == 8 {
				return p.strToBytes(s)
			}
			r := Slice{}
			for i := 0; i < s.Len(); {
				c, n := p.decodeRune(s, i)
				r = append(r, c)
				i += n
			}
			return r
		}
		return v
	case *types.Basic:
		if tu.Kind() == types.UnsafePointer {
			switch x := v.(type) {
			case UnsafePtr:
				return x
			case *Term:
				if x.IsConst() && x.C == 0 {
					return UnsafePtr{}
				}
				unsup("uintptr to unsafe.Pointer")
			}
			var et types.Type
			if pt, ok := from.Underlying().(*types.Pointer); ok {
				et = pt.Elem()
			}
			return UnsafePtr{p: v, t: et}
		}
		if ti.kind == kString {
			if s, ok := v.(Slice); ok {
				st := from.Underlying().(*types.Slice)
				if w.ti(st.Elem()).w == 8 {
					return p.bytesToStr(s)
				}
				var b []*Term
				for _, e := range s {
					b = append(b, p.encodeRune(e.(*Term))...)
				}
				return w.symStr(b)
			}
		}
		if ti.kind == kInt && fi.kind == kUnsafe {
			u := v.(UnsafePtr)
			if isNilPtr(u.p) && u.data == nil {
				return ts.Int(0)
			}
			// an address: only usable as an identity
			return ts.BV(p.addrOf(u.p), 64)
		}
	case *types.Pointer:
		if fi.kind == kUnsafe {
			u := v.(UnsafePtr)
			if isNilPtr(u.p) {
				if len(u.data) > u.off {
					return &u.data[u.off]
				}
				return (*Value)(nil)
			}
			if u.t != nil && types.Identical(u.t, tu.Elem()) {
				return u.p
			}
			if pv, ok := u.p.(*Value); ok {
				if u.t != nil && types.Identical(u.t.Underlying(), tu.Elem().Underlying()) {
					return pv
				}
				return &CastPtr{p: pv, from: u.t, to: tu.Elem()}
			}
			if cp, ok := u.p.(*CastPtr); ok {
				if cp.from != nil && types.Identical(cp.from, tu.Elem()) {
					return cp.p
				}
				return &CastPtr{p: cp.p, from: cp.from, to: tu.Elem()}
			}
			unsup("unsafe pointer conversion of %T", u.p)
		}
		return v
	case *types.Signature, *types.Map, *types.Chan, *types.Interface, *types.Struct, *types.Array:
		return v
	}
	unsup("convert %v to %v", from, to)
	return nil
}

func (p *Path) addrOf(v Value) uint64 {
	if p.addrs == nil {
		p.addrs = map[Value]uint64{}
	}
	if a, ok := p.addrs[v]; ok {
		return a
	}
	a := uint64(0xc000000000 + 64*len(p.addrs))
	p.addrs[v] = a
	return a
}

// concTerm forks until the term has one value on this path.
func (p *Path) concTerm(t *Term) int64 {
	for n := 0; ; n++ {
		if t.IsConst() {
			return sx(t.C, t.S.W)
		}
		if p.boot > 0 {
			unsup("symbolic value in init")
		}
		// the value tried is part of the decisions, so that a replayed prefix asks the same question
		var v uint64
		if p.pos+1 < len(p.prefix) {
			v = uint64(uint32(p.prefix[p.pos])) | uint64(uint32(p.prefix[p.pos+1]))<<32
			p.pos += 2
		} else {
			v = p.guess(t)
		}
		p.dec = append(p.dec, int32(uint32(v)), int32(uint32(v>>32)))
		c := p.w.ts.BV(v, int(t.S.W))
		if k, ok := p.known[p.w.ts.Eq(t, c).ID]; ok && !k {
			unsup("concretised value contradicts the path")
		}
		if p.branch(p.w.ts.Eq(t, c)) {
			return sx(c.C, c.S.W)
		}
		if n > p.cfg.MaxConc {
			panic(pathEnd{"limit", "too many values for a concretised term"})
		}
	}
}

func (p *Path) concInt(v Value, what string) int {
	t, ok := v.(*Term)
	if !ok {
		unsup("%s: %T", what, v)
	}
	return int(p.concTerm(t))
}

func (p *Path) slice(fr *Frame, c *cinstr, in *ssa.Slice) Value {
	x := p.get(fr, &c.ops[0])
	opt := func(k int) (int, bool) {
		if c.ops[k].kind == 4 {
			return 0, false
		}
		t := p.get(fr, &c.ops[k])
		var st ssa.Value
		switch k {
		case 1:
			st = in.Low
		case 2:
			st = in.High
		case 3:
			st = in.Max
		}
		i := p.normIdx(t, st.Type())
		return int(p.concTerm(i)), true
	}
	lo, _ := opt(1)
	hi, hasHi := opt(2)
	mx, hasMx := opt(3)
	switch a := x.(type) {
	case Str:
		n := a.Len()
		if !hasHi {
			hi = n
		}
		if hi < 0 || hi > n {
			p.goPanicStr(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			p.goPanicStr(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return a.slice(lo, hi)
	case Slice, *Value:
		var s Slice
		if pv, ok := a.(*Value); ok {
			if pv == nil {
				p.goPanicStr("invalid memory address or nil pointer dereference")
			}
			arr, ok := (*pv).(Array)
			if !ok {
				unsup("slice of pointer to %T", *pv)
			}
			s = Slice(arr)
			if s == nil {
				s = Slice{}
			}
		} else {
			s = a.(Slice)
		}
		n, cp := len(s), cap(s)
		if !hasHi {
			hi = n
		}
		if !hasMx {
			mx = cp
		}
		if mx < 0 || mx > cp || hi < 0 || hi > mx {
			p.goPanicStr(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cp))
		}
		if lo < 0 || lo > hi {
			p.goPanicStr(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case Poison:
		unsup("poison: %s", a.why)
	}
	unsup("slice of %T", x)
	return nil
}

func (p *Path) typeAssert(in *ssa.TypeAssert, x Value) Value {
	i, ok := x.(Iface)
	if !ok {
		if po, ok := x.(Poison); ok {
			unsup("poison: %s", po.why)
		}
		unsup("type assert on %T", x)
	}
	var good bool
	var v Value
	at := in.AssertedType
	if types.IsInterface(at) {
		good = i.T != nil && p.w.implements(i.T, at)
		v = i
	} else {
		good = i.T != nil && i.T == p.w.canon(at)
		v = i.V
	}
	if in.CommaOk {
		if !good {
			return Tuple{p.w.zero(at), p.w.ts.False}
		}
		return Tuple{copyVal(v), p.w.ts.True}
	}
	if !good {
		msg := "interface conversion: "
		if i.T == nil {
			msg += fmt.Sprintf("interface is nil, not %s", at)
		} else {
			msg += fmt.Sprintf("%s is not %s", i.T, at)
		}
		p.goPanicStr(msg)
	}
	return copyVal(v)
}

func (w *Worker) implements(t, iface types.Type) bool {
	k := implKey{t, iface}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	w.implCache[k] = r
	return r
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if f, ok := w.methods[k]; ok {
		return f
	}
	buildMu.Lock()
	sel := w.prog.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = w.prog.ssa.MethodValue(sel)
	}
	buildMu.Unlock()
	w.methods[k] = f
	return f
}

func (w *Worker) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	sel := w.prog.ssa.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return w.prog.ssa.MethodValue(sel)
}

// prepareCall resolves callee and arguments.
func (p *Path) prepareCall(fr *Frame, c *cinstr, call *ssa.CallCommon) (*FuncVal, []Value) {
	// operand order of CallCommon.Operands: Value, then Args
	v := p.get(fr, &c.ops[0])
	nargs := len(call.Args)
	if call.IsInvoke() {
		i, ok := v.(Iface)
		if !ok {
			if po, ok := v.(Poison); ok {
				unsup("poison: %s", po.why)
			}
			unsup("invoke on %T", v)
		}
		if i.T == nil {
			p.goPanicStr("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, nargs+1)
		args[0] = copyVal(i.V)
		for k := 0; k < nargs; k++ {
			args[k+1] = p.get(fr, &c.ops[k+1])
		}
		if nv, ok := i.V.(*Native); ok {
			if f := nativeMethod(nv, call.Method.Name()); f != nil {
				return &FuncVal{native: f}, args
			}
		}
		if _, ok := i.V.(RTypeV); ok {
			name := call.Method.Name()
			return &FuncVal{native: func(p *Path, g *Gor, a []Value) Value { return p.rtypeMethod(g, name, a) }}, args
		}
		f := p.w.method(i.T, call.Method)
		if f == nil {
			unsup("no method %s on %v", call.Method.Name(), i.T)
		}
		return &FuncVal{fn: f}, args
	}
	args := make([]Value, nargs)
	for k := 0; k < nargs; k++ {
		args[k] = p.get(fr, &c.ops[k+1])
	}
	f, ok := v.(*FuncVal)
	if !ok {
		if po, ok := v.(Poison); ok {
			unsup("poison: %s", po.why)
		}
		unsup("call of %T", v)
	}
	return f, args
}

func (p *Path) doCall(g *Gor, fr *Frame, c *cinstr, call *ssa.CallCommon) stepStatus {
	f, args := p.prepareCall(fr, c, call)
	if f == nil {
		p.goPanicStr("invalid memory address or nil pointer dereference")
	}
	if f.bi != nil {
		v, ok := p.builtin(g, f.bi, args, call)
		if !ok {
			return stBlocked
		}
		fr.regs[c.dst] = v
		fr.pc++
		return stCont
	}
	if f.native != nil {
		fr.regs[c.dst] = f.native(p, g, args)
		fr.pc++
		return stCont
	}
	fi := p.w.info(f.fn)
	if fi.intr != nil {
		p.w.funcsSeen[fi.fn]++
		n := len(g.frames)
		v, ok := fi.intr(p, g, fi.fn, args)
		if !ok {
			return stBlocked
		}
		if len(g.frames) > n {
			// intrinsic pushed a frame whose result is ours
			g.frames[n].dst = c.dst
			fr.pc++
			return stCont
		}
		fr.regs[c.dst] = v
		fr.pc++
		return stCont
	}
	if fr.info.isInit && fi.isInit && p.boot > 0 {
		// imported package initialisers run on demand
		fr.pc++
		return stCont
	}
	nf := p.pushCall(g, f, args, c.dst, c.in.Pos())
	_ = nf
	fr.pc++
	return stCont
}

func (p *Path) unop(in *ssa.UnOp, x Value) Value {
	ts := p.w.ts
	if po, ok := x.(Poison); ok {
		unsup("poison: %s", po.why)
	}
	switch in.Op {
	case token.NOT:
		return ts.Not(x.(*Term))
	case token.SUB:
		switch t := x.(type) {
		case *Term:
			if t.S.K == SFP {
				return ts.FUn(OpFNeg, t, 0)
			}
			return ts.Neg(t)
		case complex128:
			return -t
		}
	case token.XOR:
		return ts.BNot(x.(*Term))
	}
	unsup("unop %v on %T", in.Op, x)
	return nil
}

func (p *Path) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	w := p.w
	ts := w.ts
	switch op {
	case token.EQL:
		return p.eqT(xt, yt, x, y)
	case token.NEQ:
		return ts.Not(p.eqT(xt, yt, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			unsup("binop %v %T", op, y)
		}
		if a.S.K == SFP {
			r := p.fbin(op, a, b)
			if w.ti(xt).w == 32 && r.S.K == SFP {
				if !r.IsConst() {
					unsup("symbolic float32")
				}
				r = ts.FP(float64(float32(r.Float())))
			}
			return r
		}
		if a.S.K == SBool {
			switch op {
			case token.AND, token.LAND:
				return ts.And(a, b)
			case token.OR, token.LOR:
				return ts.Or(a, b)
			}
			unsup("bool binop %v", op)
		}
		i := w.ti(xt)
		switch op {
		case token.ADD:
			return ts.Bin(OpAdd, a, b)
		case token.SUB:
			return ts.Bin(OpSub, a, b)
		case token.MUL:
			return ts.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if !b.IsConst() || b.C == 0 {
				if p.branch(ts.Eq(b, ts.BV(0, int(b.S.W)))) {
					p.goPanicStr("integer divide by zero")
				}
			}
			o := OpUDiv
			if op == token.QUO && i.signed {
				o = OpSDiv
			} else if op == token.REM && i.signed {
				o = OpSRem
			} else if op == token.REM {
				o = OpURem
			}
			return ts.Bin(o, a, b)
		case token.AND:
			return ts.Bin(OpBAnd, a, b)
		case token.OR:
			return ts.Bin(OpBOr, a, b)
		case token.XOR:
			return ts.Bin(OpBXor, a, b)
		case token.AND_NOT:
			return ts.Bin(OpBAnd, a, ts.BNot(b))
		case token.SHL, token.SHR:
			return p.shift(op, a, b, i.signed, w.ti(yt).signed)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, le := OpULt, OpULe
			if i.signed {
				lt, le = OpSLt, OpSLe
			}
			switch op {
			case token.LSS:
				return ts.Cmp(lt, a, b)
			case token.LEQ:
				return ts.Cmp(le, a, b)
			case token.GTR:
				return ts.Cmp(lt, b, a)
			default:
				return ts.Cmp(le, b, a)
			}
		}
	case Str:
		b, ok := y.(Str)
		if !ok {
			unsup("string binop with %T", y)
		}
		switch op {
		case token.ADD:
			return w.strCat(a, b)
		case token.LSS:
			return w.strLess(a, b, false)
		case token.LEQ:
			return w.strLess(a, b, true)
		case token.GTR:
			return w.strLess(b, a, false)
		case token.GEQ:
			return w.strLess(b, a, true)
		}
	case complex128:
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	case Poison:
		unsup("poison: %s", a.why)
	}
	unsup("binop %v on %T", op, x)
	return nil
}

func (p *Path) eqT(xt, yt types.Type, x, y Value) *Term {
	xi, yi := types.IsInterface(xt), types.IsInterface(yt)
	if xi != yi {
		if xi {
			y = p.mkIface(yt, y)
		} else {
			x = p.mkIface(xt, x)
		}
	}
	return p.eq(x, y)
}

func (p *Path) shift(op token.Token, a, b *Term, signed, ysigned bool) *Term {
	ts := p.w.ts
	w := int(a.S.W)
	if ysigned {
		neg := ts.Cmp(OpSLt, b, ts.BV(0, int(b.S.W)))
		if p.branch(neg) {
			p.goPanicStr("negative shift amount")
		}
	}
	// normalise the amount to a's width, saturating
	var amt *Term
	bw := int(b.S.W)
	if bw == w {
		amt = b
	} else if bw < w {
		amt = ts.Conv(b, false, w)
	} else {
		big := ts.Cmp(OpULe, ts.BV(uint64(w), bw), b)
		amt = ts.Ite(big, ts.BV(uint64(w), w), ts.Conv(b, false, w))
	}
	o := OpShl
	if op == token.SHR {
		o = OpLShr
		if signed {
			o = OpAShr
		}
	}
	return ts.Bin(o, a, amt)
}

func (p *Path) fbin(op token.Token, a, b *Term) *Term {
	ts := p.w.ts
	switch op {
	case token.ADD:
		return ts.FBin(OpFAdd, a, b)
	case token.SUB:
		return ts.FBin(OpFSub, a, b)
	case token.MUL:
		return ts.FBin(OpFMul, a, b)
	case token.QUO:
		return ts.FBin(OpFDiv, a, b)
	case token.LSS:
		return ts.FBin(OpFLt, a, b)
	case token.LEQ:
		return ts.FBin(OpFLe, a, b)
	case token.GTR:
		return ts.FBin(OpFLt, b, a)
	case token.GEQ:
		return ts.FBin(OpFLe, b, a)
	}
	unsup("float op %v", op)
	return nil
}

// ---- builtins

func (p *Path) builtin(g *Gor, b *ssa.Builtin, args []Value, call *ssa.CallCommon) (Value, bool) {
	ts := p.w.ts
	for _, a := range args {
		if po, ok := a.(Poison); ok {
			unsup("poison: %s", po.why)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return ts.Int(x.Len()), true
		case Slice:
			return ts.Int(len(x)), true
		case Array:
			return ts.Int(len(x)), true
		case *Value:
			return ts.Int(len((*x).(Array))), true
		case *Map:
			if x == nil {
				return ts.Int(0), true
			}
			if p.multi {
				p.raceAccess(x.sh, false)
			}
			return ts.Int(x.n), true
		case *Chan:
			if x == nil {
				return ts.Int(0), true
			}
			if !p.visible(g, "len", false, nil, x) {
				return nil, false
			}
			if x.timer {
				return ts.Int(0), true
			}
			return ts.Int(len(x.buf)), true
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return ts.Int(cap(x)), true
		case Array:
			return ts.Int(len(x)), true
		case *Value:
			return ts.Int(len((*x).(Array))), true
		case *Chan:
			if x == nil {
				return ts.Int(0), true
			}
			if x.timer {
				return ts.Int(0), true
			}
			return ts.Int(x.cap), true
		}
	case "append":
		a := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case Str:
			add = p.strToBytes(y)
		}
		if p.multi {
			for i := range add {
				p.raceAccess(&add[i], false)
			}
		}
		if len(add) == 0 {
			return a, true
		}
		if len(a)+len(add) <= cap(a) {
			n := len(a)
			r := a[:n+len(add)]
			vals := make([]Value, len(add))
			for i := range add {
				vals[i] = copyVal(add[i])
			}
			for i := range vals {
				if p.multi {
					p.raceAccess(&r[n+i], true)
				}
				p.storeCell(&r[n+i], vals[i])
			}
			return r, true
		}
		need := len(a) + len(add)
		nc := cap(a) * 2
		if nc < need {
			nc = need
		}
		if cap(a) >= 256 {
			nc = cap(a) + (cap(a)+3*256)/4
			if nc < need {
				nc = need
			}
		}
		if len(a) > 1<<20 {
			panic(pathEnd{"limit", "slice growth"})
		}
		r := make(Slice, need, nc)
		for i := range a {
			if p.multi {
				p.raceAccess(&a[i], false)
			}
			r[i] = copyVal(a[i])
		}
		for i := range add {
			r[len(a)+i] = copyVal(add[i])
		}
		var z Value
		if nc > need {
			if call != nil {
				z = p.w.zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			} else if len(r) > 0 {
				z = r[0]
			}
			full := r[:nc]
			for i := need; i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r, true
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case Str:
			src = p.strToBytes(y)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			if p.multi {
				p.raceAccess(&src[i], false)
			}
			vals[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if p.multi {
				p.raceAccess(&dst[i], true)
			}
			p.storeCell(&dst[i], vals[i])
		}
		return ts.Int(n), true
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			if p.multi {
				p.raceAccess(m.sh, true)
			}
			p.mapDel(m, args[1])
		}
		return nil, true
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				if p.multi {
					p.raceAccess(x.sh, true)
				}
				p.mapOwn(x)
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents = nil
				x.idx = map[any]*mapEntry{}
				x.n = 0
				x.symK = false
			}
		case Slice:
			if call != nil {
				et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					p.storeCell(&x[i], p.w.zero(et))
				}
			} else {
				unsup("clear")
			}
		}
		return nil, true
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		return p.doRecover(g), true
	case "close":
		c, ok := args[0].(*Chan)
		if !ok {
			unsup("close of %T", args[0])
		}
		return nil, p.chanClose(g, c)
	case "print", "println":
		return nil, true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				if x.S.K == SFP {
					if !x.IsConst() || !y.IsConst() {
						unsup("float min/max")
					}
					if b.Name() == "min" {
						r = ts.FP(math.Min(x.Float(), y.Float()))
					} else {
						r = ts.FP(math.Max(x.Float(), y.Float()))
					}
					continue
				}
				signed := true
				if call != nil {
					signed = p.w.ti(call.Args[0].Type()).signed
				}
				op := OpULt
				if signed {
					op = OpSLt
				}
				lt := ts.Cmp(op, x, y)
				if b.Name() == "min" {
					r = ts.Ite(lt, x, y)
				} else {
					r = ts.Ite(lt, y, x)
				}
			case Str:
				y := a.(Str)
				lt := p.branch(p.w.strLess(x, y, false))
				if lt != (b.Name() == "min") {
					r = y
				}
			}
		}
		return r, true
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			p.goPanicStr("value method called using nil pointer")
		}
		return args[0], true
	case "ssa:deferstack":
		return &Native{kind: "deferstack", v: g.frames[len(g.frames)-1]}, true
	case "String": // unsafe.String
		n := p.concInt(args[1], "unsafe.String")
		switch x := args[0].(type) {
		case *Value:
			if n == 0 {
				return Str{}, true
			}
			_ = x
		case UnsafePtr:
			if n == 0 {
				return Str{}, true
			}
		case *DataPtr:
			return p.bytesToStr(Slice(x.data[:n])), true
		}
		unsup("unsafe.String of %T", args[0])
	case "SliceData":
		s := args[0].(Slice)
		if s == nil {
			return (*Value)(nil), true
		}
		return &DataPtr{data: s[:cap(s)]}, true
	case "StringData":
		s := args[0].(Str)
		return &DataPtr{data: p.strToBytes(s)}, true
	case "Slice":
		n := p.concInt(args[1], "unsafe.Slice")
		switch x := args[0].(type) {
		case *DataPtr:
			return Slice(x.data[:n]), true
		case *Value:
			if n == 0 {
				return Slice{}, true
			}
			if n == 1 {
				unsup("unsafe.Slice of a cell")
			}
		}
		unsup("unsafe.Slice of %T", args[0])
	case "Sizeof":
		return p.w.ts.Int(int(types.SizesFor("gc", "amd64").Sizeof(call.Args[0].Type()))), true
	case "real", "imag", "complex":
		unsup("complex numbers")
	}
	unsup("builtin %s(%T)", b.Name(), args[0])
	return nil, true
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct{ data []Value }

func (p *Path) doRecover(g *Gor) Value {
	fr := g.frames[len(g.frames)-1]
	if fr.nat != nil && len(g.frames) > 1 { // "defer recover()" is a no-op in effect
		return Iface{}
	}
	o := fr.deferOf
	if o == nil || o.panicking == nil || o.panicking.recovered {
		return Iface{}
	}
	o.panicking.recovered = true
	v := o.panicking.val
	if _, ok := v.(Iface); !ok {
		unsup("recovered %T", v)
	}
	return v
}
