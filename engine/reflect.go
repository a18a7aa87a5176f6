package main

// A model of package reflect over interpreter values.

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// RVal is a reflect.Value.
type RVal struct {
	t    types.Type // nil: invalid
	v    Value      // value when not addressable
	cell *Value     // addressable storage
	ro   bool
}

// RTypeV is the dynamic value behind a reflect.Type.
type RTypeV struct{ t types.Type }

func (p *Path) rtypeIface(t types.Type) Value {
	rt := p.w.typeByName("reflect", "rtype")
	if rt == nil {
		unsup("reflect not loaded")
	}
	return Iface{T: p.w.canon(types.NewPointer(rt)), V: RTypeV{p.w.canon(t)}}
}

func (p *Path) rvGet(r RVal) Value {
	if r.cell != nil {
		return p.load(r.cell, r.t)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func (p *Path) rvPanic(what string, r RVal) {
	p.goPanicStr("reflect: call of reflect.Value." + what + " on " + func() string {
		if r.t == nil {
			return "zero Value"
		}
		return kindOf(r.t).String() + " Value"
	}())
}

func (p *Path) rval(v Value) RVal {
	r, ok := v.(RVal)
	if !ok {
		if c, ok := v.(*Value); ok && c != nil {
			if r, ok := (*c).(RVal); ok {
				return r
			}
		}
		unsup("reflect.Value representation %T", v)
	}
	return r
}

func (p *Path) rvIface(r RVal) Value {
	if r.t == nil {
		p.rvPanic("Interface", r)
	}
	v := p.rvGet(r)
	if types.IsInterface(r.t) {
		return v
	}
	return Iface{T: p.w.canon(r.t), V: v}
}

func (p *Path) rvMust(r RVal, what string, ks ...reflect.Kind) {
	if r.t != nil {
		k := kindOf(r.t)
		for _, x := range ks {
			if x == k {
				return
			}
		}
	}
	p.rvPanic(what, r)
}

func (p *Path) rvSettable(r RVal, what string) {
	if r.cell == nil || r.ro {
		p.goPanicStr("reflect: reflect.Value." + what + " using unaddressable value or unexported field")
	}
}

func (p *Path) structField(t types.Type, i int) Value {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	pk := ""
	if !f.Exported() && f.Pkg() != nil {
		pk = f.Pkg().Path()
	}
	ts := p.w.ts
	return Struct{Str{s: f.Name()}, Str{s: pk}, p.rtypeIface(f.Type()), Str{s: st.Tag(i)}, ts.BV(0, 64), Slice{ts.Int(i)}, ts.Bool(f.Anonymous())}
}

func (p *Path) rtypeMethod(g *Gor, name string, a []Value) Value {
	ts := p.w.ts
	t := a[0].(RTypeV).t
	switch name {
	case "Kind":
		return ts.BV(uint64(kindOf(t)), 64)
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return p.rtypeIface(u.Elem())
		case *types.Slice:
			return p.rtypeIface(u.Elem())
		case *types.Array:
			return p.rtypeIface(u.Elem())
		case *types.Map:
			return p.rtypeIface(u.Elem())
		case *types.Chan:
			return p.rtypeIface(u.Elem())
		}
		p.goPanicStr("reflect: Elem of invalid type " + p.typeName(t))
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return p.rtypeIface(u.Key())
		}
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return Str{s: n.Obj().Name()}
		}
		if b, ok := t.(*types.Basic); ok {
			return Str{s: b.Name()}
		}
		return Str{}
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	case "String":
		return Str{s: p.typeName(t)}
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return ts.Int(u.NumFields())
		}
		p.goPanicStr("reflect: NumField of non-struct type " + p.typeName(t))
	case "Field":
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			p.goPanicStr("reflect: Field of non-struct type " + p.typeName(t))
		}
		i := p.concInt(a[1], "reflect field")
		if i < 0 || i >= u.NumFields() {
			p.goPanicStr("reflect: Field index out of bounds")
		}
		return p.structField(t, i)
	case "NumMethod":
		return ts.Int(p.w.prog.ssa.MethodSets.MethodSet(t).Len())
	case "Comparable":
		return ts.Bool(types.Comparable(t))
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return ts.Int(int(u.Len()))
		}
	case "Implements":
		o, ok := a[1].(Iface).V.(RTypeV)
		if ok && types.IsInterface(o.t) {
			return ts.Bool(p.w.implements(t, o.t))
		}
	case "AssignableTo":
		return ts.Bool(types.AssignableTo(t, a[1].(Iface).V.(RTypeV).t))
	case "ConvertibleTo":
		return ts.Bool(types.ConvertibleTo(t, a[1].(Iface).V.(RTypeV).t))
	case "Bits":
		return ts.Int(p.w.ti(t).w)
	case "Size":
		return ts.Int(int(types.SizesFor("gc", "amd64").Sizeof(t)))
	}
	unsup("reflect.Type.%s", name)
	return nil
}

func initReflect() {
	pure("reflect.TypeOf internal/reflectlite.TypeOf reflect.toType", func(p *Path, g *Gor, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return Iface{}
		}
		return p.rtypeIface(i.T)
	})
	reg("reflect.TypeFor", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		return p.rtypeIface(p.w.canon(fn.TypeArgs()[0])), true
	})
	reg("reflect.TypeAssert", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		r := p.rval(a[0])
		if r.ro {
			p.goPanicStr("reflect.TypeAssert: cannot return value obtained from unexported field or method")
		}
		i, ok := p.rvIface(r).(Iface)
		if !ok {
			unsup("TypeAssert")
		}
		at := fn.TypeArgs()[0]
		if types.IsInterface(at) {
			if i.T != nil && p.w.implements(i.T, at) {
				return Tuple{i, p.w.ts.True}, true
			}
		} else if i.T != nil && i.T == p.w.canon(at) {
			return Tuple{copyVal(i.V), p.w.ts.True}, true
		}
		return Tuple{p.w.zero(at), p.w.ts.False}, true
	})
	pure("github.com/modern-go/reflect2.IsNil", func(p *Path, g *Gor, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return p.w.ts.True
		}
		switch i.T.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return p.w.ts.Bool(isNilPtr(i.V))
		}
		return p.w.ts.False
	})
	pure("reflect.ValueOf", func(p *Path, g *Gor, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return RVal{}
		}
		return RVal{t: i.T, v: i.V}
	})
	pure("reflect.New", func(p *Path, g *Gor, a []Value) Value {
		t := a[0].(Iface).V.(RTypeV).t
		c := new(Value)
		*c = p.w.zero(t)
		return RVal{t: p.w.canon(types.NewPointer(t)), v: c}
	})
	pure("reflect.Zero", func(p *Path, g *Gor, a []Value) Value {
		t := a[0].(Iface).V.(RTypeV).t
		return RVal{t: t, v: p.w.zero(t)}
	})
	pure("reflect.PtrTo reflect.PointerTo", func(p *Path, g *Gor, a []Value) Value {
		return p.rtypeIface(types.NewPointer(a[0].(Iface).V.(RTypeV).t))
	})
	m := func(name string, f func(p *Path, r RVal, a []Value) Value) {
		pure("(reflect.Value)."+name, func(p *Path, g *Gor, a []Value) Value { return f(p, p.rval(a[0]), a[1:]) })
	}
	elem := func(p *Path, r RVal) RVal {
		if r.t != nil {
			switch u := r.t.Underlying().(type) {
			case *types.Pointer:
				v := p.rvGet(r)
				c, ok := v.(*Value)
				if !ok {
					unsup("reflect Elem of %T", v)
				}
				if c == nil {
					return RVal{}
				}
				return RVal{t: p.w.canon(u.Elem()), cell: c, ro: r.ro}
			case *types.Interface:
				i := p.rvGet(r).(Iface)
				if i.T == nil {
					return RVal{}
				}
				return RVal{t: i.T, v: i.V, ro: r.ro}
			}
		}
		p.rvPanic("Elem", r)
		return RVal{}
	}
	m("Elem", func(p *Path, r RVal, a []Value) Value { return elem(p, r) })
	pure("reflect.Indirect", func(p *Path, g *Gor, a []Value) Value {
		r := p.rval(a[0])
		if r.t != nil && kindOf(r.t) == reflect.Ptr {
			return elem(p, r)
		}
		return r
	})
	m("Kind", func(p *Path, r RVal, a []Value) Value {
		if r.t == nil {
			return p.w.ts.BV(0, 64)
		}
		return p.w.ts.BV(uint64(kindOf(r.t)), 64)
	})
	m("Type", func(p *Path, r RVal, a []Value) Value {
		if r.t == nil {
			p.rvPanic("Type", r)
		}
		return p.rtypeIface(r.t)
	})
	m("IsValid", func(p *Path, r RVal, a []Value) Value { return p.w.ts.Bool(r.t != nil) })
	m("CanSet", func(p *Path, r RVal, a []Value) Value { return p.w.ts.Bool(r.cell != nil && !r.ro) })
	m("CanAddr", func(p *Path, r RVal, a []Value) Value { return p.w.ts.Bool(r.cell != nil) })
	m("CanInterface", func(p *Path, r RVal, a []Value) Value { return p.w.ts.Bool(r.t != nil && !r.ro) })
	m("IsNil", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "IsNil", reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Interface)
		v := p.rvGet(r)
		switch x := v.(type) {
		case Slice:
			return p.w.ts.Bool(x == nil)
		case Iface:
			return p.w.ts.Bool(x.T == nil)
		}
		return p.w.ts.Bool(isNilPtr(v))
	})
	m("IsZero", func(p *Path, r RVal, a []Value) Value {
		if r.t == nil {
			p.rvPanic("IsZero", r)
		}
		v := p.rvGet(r)
		if s, ok := v.(Slice); ok {
			return p.w.ts.Bool(s == nil)
		}
		return p.eq(v, p.w.zero(r.t))
	})
	m("NumField", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "NumField", reflect.Struct)
		return p.w.ts.Int(r.t.Underlying().(*types.Struct).NumFields())
	})
	m("Field", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "Field", reflect.Struct)
		st := r.t.Underlying().(*types.Struct)
		i := p.concInt(a[0], "field")
		if i < 0 || i >= st.NumFields() {
			p.goPanicStr("reflect: Field index out of range")
		}
		f := st.Field(i)
		n := RVal{t: p.w.canon(f.Type()), ro: r.ro || !f.Exported()}
		if r.cell != nil {
			n.cell = &(*r.cell).(Struct)[i]
		} else {
			n.v = r.v.(Struct)[i]
		}
		return n
	})
	m("FieldByName", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "FieldByName", reflect.Struct)
		st := r.t.Underlying().(*types.Struct)
		name := cstr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == name {
				n := RVal{t: p.w.canon(f.Type()), ro: r.ro || !f.Exported()}
				if r.cell != nil {
					n.cell = &(*r.cell).(Struct)[i]
				} else {
					n.v = r.v.(Struct)[i]
				}
				return n
			}
		}
		return RVal{}
	})
	m("Addr", func(p *Path, r RVal, a []Value) Value {
		if r.cell == nil {
			p.goPanicStr("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: p.w.canon(types.NewPointer(r.t)), v: r.cell, ro: r.ro}
	})
	m("Interface", func(p *Path, r RVal, a []Value) Value {
		if r.ro {
			p.goPanicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return p.rvIface(r)
	})
	m("Set", func(p *Path, r RVal, a []Value) Value {
		p.rvSettable(r, "Set")
		x := p.rval(a[0])
		if x.t == nil {
			p.goPanicStr("reflect: call of reflect.Value.Set on zero Value")
		}
		v := p.rvGet(x)
		if types.IsInterface(r.t) && !types.IsInterface(x.t) {
			v = Iface{T: p.w.canon(x.t), V: v}
		} else if !types.AssignableTo(x.t, r.t) {
			p.goPanicStr("reflect.Set: value of type " + p.typeName(x.t) + " is not assignable to type " + p.typeName(r.t))
		}
		p.store(r.cell, v)
		return nil
	})
	ints := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	m("Bool", func(p *Path, r RVal, a []Value) Value { p.rvMust(r, "Bool", reflect.Bool); return p.rvGet(r) })
	m("Int", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "Int", ints...)
		return p.w.ts.Conv(p.rvGet(r).(*Term), true, 64)
	})
	m("Uint", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "Uint", uints...)
		return p.w.ts.Conv(p.rvGet(r).(*Term), false, 64)
	})
	m("Float", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "Float", reflect.Float32, reflect.Float64)
		return p.rvGet(r)
	})
	m("String", func(p *Path, r RVal, a []Value) Value {
		if r.t == nil {
			return Str{s: "<invalid Value>"}
		}
		if kindOf(r.t) != reflect.String {
			return Str{s: "<" + p.typeName(r.t) + " Value>"}
		}
		return p.rvGet(r)
	})
	m("OverflowInt", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "OverflowInt", ints...)
		ts, x := p.w.ts, a[0].(*Term)
		return ts.Not(ts.Eq(ts.Conv(ts.Conv(x, true, p.w.ti(r.t).w), true, 64), x))
	})
	m("OverflowUint", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "OverflowUint", uints...)
		ts, x := p.w.ts, a[0].(*Term)
		return ts.Not(ts.Eq(ts.Conv(ts.Conv(x, false, p.w.ti(r.t).w), false, 64), x))
	})
	m("OverflowFloat", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "OverflowFloat", reflect.Float64)
		return p.w.ts.False
	})
	set := func(name string, conv bool, ks ...reflect.Kind) {
		m(name, func(p *Path, r RVal, a []Value) Value {
			p.rvSettable(r, name)
			p.rvMust(r, name, ks...)
			v := a[0]
			if t, ok := v.(*Term); ok && conv {
				v = p.w.ts.Conv(t, true, p.w.ti(r.t).w)
			}
			p.store(r.cell, v)
			return nil
		})
	}
	set("SetBool", false, reflect.Bool)
	set("SetInt", true, ints...)
	set("SetUint", true, uints...)
	set("SetFloat", false, reflect.Float64)
	set("SetString", false, reflect.String)
	m("Len", func(p *Path, r RVal, a []Value) Value {
		switch x := p.rvGet(r).(type) {
		case Slice:
			return p.w.ts.Int(len(x))
		case Array:
			return p.w.ts.Int(len(x))
		case Str:
			return p.w.ts.Int(x.Len())
		case *Map:
			if x == nil {
				return p.w.ts.Int(0)
			}
			return p.w.ts.Int(x.n)
		}
		p.rvPanic("Len", r)
		return nil
	})
	m("Index", func(p *Path, r RVal, a []Value) Value {
		i := p.concInt(a[0], "reflect index")
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := p.rvGet(r).(Slice)
			if i < 0 || i >= len(s) {
				p.goPanicStr("reflect: slice index out of range")
			}
			return RVal{t: p.w.canon(u.Elem()), cell: &s[i], ro: r.ro}
		case *types.Array:
			if i < 0 || i >= int(u.Len()) {
				p.goPanicStr("reflect: array index out of range")
			}
			if r.cell != nil {
				return RVal{t: p.w.canon(u.Elem()), cell: &(*r.cell).(Array)[i], ro: r.ro}
			}
			return RVal{t: p.w.canon(u.Elem()), v: r.v.(Array)[i], ro: r.ro}
		}
		p.rvPanic("Index", r)
		return nil
	})
	m("Pointer", func(p *Path, r RVal, a []Value) Value { return p.w.ts.BV(p.addrOf(p.rvGet(r)), 64) })
	m("Convert", func(p *Path, r RVal, a []Value) Value {
		t := a[0].(Iface).V.(RTypeV).t
		return RVal{t: t, v: p.convert(r.t, t, p.rvGet(r))}
	})
	reg("reflect.DeepEqual", func(p *Path, g *Gor, fn *ssa.Function, a []Value) (Value, bool) {
		return p.deepEq(a[0], a[1], 0), true
	})
}

func (p *Path) deepEq(a, b Value, d int) *Term {
	ts := p.w.ts
	if d > 20 {
		unsup("DeepEqual depth")
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("DeepEqual %T", b)
		}
		if x.T == nil || y.T == nil {
			return ts.Bool(x.T == nil && y.T == nil)
		}
		if x.T != y.T {
			return ts.False
		}
		return p.deepEq(x.V, y.V, d+1)
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return ts.False
		}
		r := ts.True
		for i := range x {
			r = ts.And(r, p.deepEq(x[i], y[i], d+1))
		}
		return r
	case Struct:
		y := b.(Struct)
		r := ts.True
		for i := range x {
			r = ts.And(r, p.deepEq(x[i], y[i], d+1))
		}
		return r
	case Array:
		y := b.(Array)
		r := ts.True
		for i := range x {
			r = ts.And(r, p.deepEq(x[i], y[i], d+1))
		}
		return r
	case *Value:
		y, _ := b.(*Value)
		if x == y {
			return ts.True
		}
		if x == nil || y == nil {
			return ts.False
		}
		return p.deepEq(*x, *y, d+1)
	case *Map:
		y, _ := b.(*Map)
		if x == y {
			return ts.True
		}
		if x == nil || y == nil || x.n != y.n {
			return ts.False
		}
		r := ts.True
		for _, e := range x.ents {
			f := p.mapFind(y, e.k)
			if f == nil {
				return ts.False
			}
			r = ts.And(r, p.deepEq(e.v, f.v, d+1))
		}
		return r
	case *FuncVal:
		y, _ := b.(*FuncVal)
		return ts.Bool(x == nil && y == nil)
	}
	return p.eq(a, b)
}
