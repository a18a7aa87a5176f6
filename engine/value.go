package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value kinds:
//
//	*Term   bool, integer, float64
//	Str     string (concrete length; bytes concrete or symbolic)
//	*Value  pointer to a cell; *SymPtr pointer to an element with symbolic index; *CastPtr
//	Struct, Array, Slice, *Map, *Chan, Iface, *FuncVal, Tuple, UnsafePtr, RVal ...
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Str struct {
	s   string
	sym []*Term // non-nil: symbolic bytes (s unused)
}

type Iface struct {
	T types.Type // canonical; nil for nil interface
	V Value
}

type FuncVal struct {
	fn     *ssa.Function
	env    []Value
	native func(p *Path, g *Gor, args []Value) Value
	bi     *ssa.Builtin
}

type SymPtr struct {
	arr []Value
	idx *Term
}

// CastPtr is an unsafe reinterpretation of a pointer.
type CastPtr struct {
	p    *Value
	from types.Type // type of *p, may be nil if unknown
	to   types.Type
}

type UnsafePtr struct {
	p Value
	t types.Type // element type of the original pointer
	// for StringData / SliceData
	data []Value
	off  int
}

type Poison struct{ why string }

type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	ents  []*mapEntry
	idx   map[any]*mapEntry // concrete scalar/string keys
	n     int
	kt    types.Type
	symK  bool // some key is symbolic
	pathN int  // path that owns it (0 boot)
	sh    *Value
}

type MapIter struct {
	m    *Map
	keys []*mapEntry
	pos  int
}

type StrIter struct {
	s   Str
	pos int
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func (s Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

func mkStr(s string) Str { return Str{s: s} }

func (w *Worker) strByte(s Str, i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return w.ts.small8[s.s[i]]
}

func (w *Worker) symStr(b []*Term) Str {
	conc := true
	for _, t := range b {
		if !t.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		x := make([]byte, len(b))
		for i, t := range b {
			x[i] = byte(t.C)
		}
		return Str{s: string(x)}
	}
	return Str{sym: b}
}

func (w *Worker) strBytes(s Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	b := make([]*Term, len(s.s))
	for i := range b {
		b[i] = w.ts.small8[s.s[i]]
	}
	return b
}

func (s Str) slice(i, j int) Str {
	if s.sym != nil {
		allc := true
		sub := s.sym[i:j]
		for _, t := range sub {
			if !t.IsConst() {
				allc = false
				break
			}
		}
		if allc {
			x := make([]byte, len(sub))
			for i, t := range sub {
				x[i] = byte(t.C)
			}
			return Str{s: string(x)}
		}
		return Str{sym: sub}
	}
	return Str{s: s.s[i:j]}
}

func (w *Worker) strCat(a, b Str) Str {
	if a.sym == nil && b.sym == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, w.strBytes(a)...)
	r = append(r, w.strBytes(b)...)
	return Str{sym: r}
}

func (w *Worker) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return w.ts.False
	}
	if a.sym == nil && b.sym == nil {
		return w.ts.Bool(a.s == b.s)
	}
	r := w.ts.True
	for i := a.Len() - 1; i >= 0; i-- {
		e := w.ts.Eq(w.strByte(a, i), w.strByte(b, i))
		if e == w.ts.False {
			return e
		}
		r = w.ts.And(e, r)
	}
	return r
}

// strLess gives a < b (or <= when orEq).
func (w *Worker) strLess(a, b Str, orEq bool) *Term {
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	var r *Term
	if a.Len() < b.Len() {
		r = w.ts.True
	} else if a.Len() == b.Len() {
		r = w.ts.Bool(orEq)
	} else {
		r = w.ts.False
	}
	for i := n - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = w.ts.Ite(w.ts.Eq(x, y), r, w.ts.Cmp(OpULt, x, y))
	}
	return r
}

// ---- type information

type tinfo struct {
	kind   uint8 // basicKind
	w      int
	signed bool
}

const (
	kOther = iota
	kBool
	kInt
	kFloat
	kString
	kUnsafe
	kComplex
)

func (w *Worker) ti(t types.Type) tinfo {
	if i, ok := w.tinfos[t]; ok {
		return i
	}
	var i tinfo
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			i = tinfo{kBool, 0, false}
		case types.Int, types.Int64, types.UntypedInt:
			i = tinfo{kInt, 64, true}
		case types.Int8:
			i = tinfo{kInt, 8, true}
		case types.Int16:
			i = tinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			i = tinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			i = tinfo{kInt, 64, false}
		case types.Uint8:
			i = tinfo{kInt, 8, false}
		case types.Uint16:
			i = tinfo{kInt, 16, false}
		case types.Uint32:
			i = tinfo{kInt, 32, false}
		case types.Float64, types.UntypedFloat:
			i = tinfo{kFloat, 64, true}
		case types.Float32:
			i = tinfo{kFloat, 32, true}
		case types.String, types.UntypedString:
			i = tinfo{kString, 0, false}
		case types.UnsafePointer:
			i = tinfo{kUnsafe, 0, false}
		case types.Complex128, types.Complex64, types.UntypedComplex:
			i = tinfo{kComplex, 0, false}
		}
	}
	w.tinfos[t] = i
	return i
}

// canon returns the representative of a type under identity.
func (w *Worker) canon(t types.Type) types.Type {
	if c, ok := w.canonCache[t]; ok {
		return c
	}
	t0 := t
	t = types.Unalias(t)
	if c := w.canonMap.At(t); c != nil {
		w.canonCache[t0] = c.(types.Type)
		return c.(types.Type)
	}
	w.canonMap.Set(t, t)
	w.canonCache[t0] = t
	return t
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := w.ti(t)
		switch i.kind {
		case kBool:
			return w.ts.False
		case kInt:
			return w.ts.BV(0, i.w)
		case kFloat:
			return w.ts.FP(0)
		case kString:
			return Str{}
		case kUnsafe:
			return UnsafePtr{}
		case kComplex:
			return complex(0, 0)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncVal)(nil)
	case *types.Struct:
		if isReflectValue(t) {
			return RVal{}
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = w.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = w.zero(u.At(i).Type())
		}
		return s
	}
	unsup("zero of %v", t)
	return nil
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

// eq builds the equality of two values of the same static type.
func (p *Path) eq(a, b Value) *Term {
	ts := p.w.ts
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("eq term vs %T", b)
		}
		if x.S.K == SFP {
			return ts.FBin(OpFEq, x, y)
		}
		return ts.Eq(x, y)
	case Str:
		return p.w.strEq(x, b.(Str))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("eq iface vs %T", b)
		}
		if x.T == nil || y.T == nil {
			return ts.Bool(x.T == nil && y.T == nil)
		}
		if x.T != y.T {
			return ts.False
		}
		if !types.Comparable(x.T) {
			p.goPanicStr("comparing uncomparable type " + x.T.String())
		}
		return p.eq(x.V, y.V)
	case Struct:
		y := b.(Struct)
		r := ts.True
		for i := range x {
			r = ts.And(r, p.eq(x[i], y[i]))
			if r == ts.False {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := ts.True
		for i := range x {
			r = ts.And(r, p.eq(x[i], y[i]))
			if r == ts.False {
				return r
			}
		}
		return r
	case *Value:
		switch y := b.(type) {
		case *Value:
			return ts.Bool(x == y)
		case nil:
			return ts.Bool(x == nil)
		}
		if y, ok := b.(*CastPtr); ok {
			return ts.Bool(x != nil && y.p == x)
		}
		return ts.Bool(false)
	case *Map:
		y, _ := b.(*Map)
		return ts.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return ts.Bool(x == y)
	case *FuncVal:
		y, _ := b.(*FuncVal)
		if x != nil && y != nil {
			unsup("comparing funcs")
		}
		return ts.Bool(x == nil && y == nil)
	case Slice:
		y, _ := b.(Slice)
		if x != nil && y != nil {
			unsup("comparing slices")
		}
		return ts.Bool(x == nil && y == nil)
	case UnsafePtr:
		y, ok := b.(UnsafePtr)
		if !ok {
			return ts.Bool(x.p == nil && x.data == nil)
		}
		if x.data != nil || y.data != nil {
			return ts.Bool(len(x.data) > 0 && len(y.data) > 0 && &x.data[0] == &y.data[0] && x.off == y.off)
		}
		if isNilPtr(x.p) || isNilPtr(y.p) {
			return ts.Bool(isNilPtr(x.p) && isNilPtr(y.p))
		}
		return ts.Bool(x.p == y.p)
	case *CastPtr:
		if y, ok := b.(*CastPtr); ok {
			return ts.Bool(x.p == y.p)
		}
		if y, ok := b.(*Value); ok {
			return ts.Bool(x.p == y)
		}
	case complex128:
		return ts.Bool(x == b.(complex128))
	case RTypeV:
		y, ok := b.(RTypeV)
		return ts.Bool(ok && x.t == y.t)
	case RVal:
		unsup("comparing reflect.Value")
	case *Native:
		y, _ := b.(*Native)
		return ts.Bool(x == y)
	case Poison:
		unsup("poison: %s", x.why)
	case nil:
		switch y := b.(type) {
		case nil:
			return ts.True
		default:
			return p.eq(y, a)
		}
	}
	if _, ok := b.(Poison); ok {
		unsup("poison value compared")
	}
	unsup("eq of %T", a)
	return nil
}

func isNilPtr(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Value:
		return x == nil
	case *Map:
		return x == nil
	case *Chan:
		return x == nil
	case *FuncVal:
		return x == nil
	}
	return false
}

// Native is an opaque engine object.
type Native struct {
	kind string
	v    any
}

// ---- maps

// concKey gives a Go-comparable key for concrete values, ok=false if symbolic or aggregate with symbolic parts.
func concKey(v Value) (any, bool) {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() {
			if x.S.K == SFP {
				f := x.Float()
				if f != f {
					return nil, false
				}
				return f, true
			}
			return x, true
		}
		return nil, false
	case Str:
		if x.sym == nil {
			return x.s, true
		}
		return nil, false
	case *Value:
		return x, true
	case *Chan:
		return x, true
	case Iface:
		if x.T == nil {
			return "iface-nil", true
		}
		k, ok := concKey(x.V)
		if !ok {
			return nil, false
		}
		return ifaceKey{x.T, k}, true
	case Struct:
		return aggKey([]Value(x))
	case Array:
		return aggKey([]Value(x))
	case RTypeV:
		return x.t, true
	case *Native:
		return x, true
	case UnsafePtr:
		return nil, false
	}
	return nil, false
}

type ifaceKey struct {
	t types.Type
	k any
}
type pairKey struct{ a, b any }

func aggKey(x []Value) (any, bool) {
	var r any = len(x)
	for _, e := range x {
		k, ok := concKey(e)
		if !ok {
			return nil, false
		}
		r = pairKey{r, k}
	}
	return r, true
}

func (p *Path) newMap(kt types.Type) *Map {
	m := &Map{idx: map[any]*mapEntry{}, kt: kt, pathN: p.ownerID(), sh: new(Value)}
	return m
}

func (p *Path) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	p.checkHashable(k)
	ck, ok := concKey(k)
	if ok && !m.symK {
		return m.idx[ck]
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		c := p.eq(k, e.k)
		if p.branch(c) {
			return e
		}
	}
	return nil
}

func (p *Path) checkHashable(k Value) {
	if i, ok := k.(Iface); ok && i.T != nil {
		if !types.Comparable(i.T) {
			p.goPanicStr("hash of unhashable type " + i.T.String())
		}
	}
}

func (p *Path) mapOwn(m *Map) {
	id := p.ownerID()
	if m.pathN == id {
		return
	}
	// created outside this path: snapshot for undo
	old := *m
	oldEnts := make([]*mapEntry, len(m.ents))
	for i, e := range m.ents {
		c := *e
		oldEnts[i] = &c
	}
	old.ents = oldEnts
	old.idx = map[any]*mapEntry{}
	for _, e := range oldEnts {
		if k, ok := concKey(e.k); ok && !e.deleted {
			old.idx[k] = e
		}
	}
	p.undoFns = append(p.undoFns, func() { *m = old })
	m.pathN = id
}

func (p *Path) mapSet(m *Map, k, v Value) {
	p.mapOwn(m)
	e := p.mapFind(m, k)
	if e != nil {
		e.v = v
		return
	}
	e = &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := concKey(k); ok {
		m.idx[ck] = e
	} else {
		m.symK = true
	}
}

func (p *Path) mapDel(m *Map, k Value) {
	if m == nil {
		return
	}
	p.mapOwn(m)
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if ck, ok := concKey(e.k); ok {
		delete(m.idx, ck)
	}
	// compact
	out := m.ents[:0:0]
	for _, x := range m.ents {
		if !x.deleted {
			out = append(out, x)
		}
	}
	m.ents = out
}

func (p *Path) mapIter(m *Map) *MapIter {
	it := &MapIter{m: m}
	if m == nil {
		return it
	}
	it.keys = append(it.keys, m.ents...)
	if p.cfg.MapOrder && len(it.keys) > 1 && p.boot == 0 {
		// any iteration order
		n := len(it.keys)
		for i := 0; i < n-1; i++ {
			j := i + p.choose("maporder", n-i)
			if j != i {
				x := it.keys[j]
				copy(it.keys[i+1:j+1], it.keys[i:j])
				it.keys[i] = x
			}
		}
	}
	return it
}

func (it *MapIter) next() (*mapEntry, bool) {
	for it.pos < len(it.keys) {
		e := it.keys[it.pos]
		it.pos++
		if e.deleted {
			continue
		}
		return e, true
	}
	return nil, false
}

// ---- debugging

func showVal(v Value) string {
	switch x := v.(type) {
	case *Term:
		return showTerm(x, 3)
	case Str:
		if x.sym == nil {
			return fmt.Sprintf("%q", x.s)
		}
		return fmt.Sprintf("symstr(%d)", len(x.sym))
	case Struct:
		var b strings.Builder
		b.WriteString("{")
		for _, e := range x {
			b.WriteString(showVal(e) + " ")
		}
		return b.String() + "}"
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return "(" + x.T.String() + ")" + showVal(x.V)
	case Tuple:
		var b strings.Builder
		for _, e := range x {
			b.WriteString(showVal(e) + ", ")
		}
		return "(" + b.String() + ")"
	case Slice:
		return fmt.Sprintf("slice(%d)", len(x))
	case *FuncVal:
		if x == nil {
			return "nilfunc"
		}
		if x.fn != nil {
			return x.fn.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

func showTerm(t *Term, depth int) string {
	if t.Op == OpConst {
		switch t.S.K {
		case SBool:
			return fmt.Sprint(t.C == 1)
		case SBV:
			return fmt.Sprint(sx(t.C, t.S.W))
		}
		return fmt.Sprint(t.Float())
	}
	if t.Op == OpVar {
		return t.Name
	}
	if depth == 0 {
		return "…"
	}
	s := "(" + bvNames[t.Op]
	if bvNames[t.Op] == "" {
		s = fmt.Sprintf("(op%d", t.Op)
	}
	for i := 0; i < int(t.N); i++ {
		s += " " + showTerm(t.A[i], depth-1)
	}
	return s + ")"
}
