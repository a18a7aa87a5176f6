package main

import (
	"go/types"
	"reflect"
)

// The parts of package reflect that deal with maps and slices.

func rtype(v Value) types.Type {
	i, ok := v.(Iface)
	if !ok {
		unsup("reflect.Type representation %T", v)
	}
	t, ok := i.V.(RTypeV)
	if !ok {
		unsup("reflect.Type representation %T", i.V)
	}
	return t.t
}

// rvAs is the value of x as one of type t.
func (p *Path) rvAs(x RVal, t types.Type, what string) Value {
	if x.t == nil {
		p.goPanicStr("reflect: call of " + what + " on zero Value")
	}
	v := p.rvGet(x)
	if types.IsInterface(t) && !types.IsInterface(x.t) {
		return Iface{T: p.w.canon(x.t), V: v}
	}
	if !types.AssignableTo(x.t, t) {
		p.goPanicStr(what + ": value of type " + p.typeName(x.t) + " is not assignable to type " + p.typeName(t))
	}
	return v
}

type rmapIter struct {
	t    types.Type // of the map
	ro   bool
	it   *MapIter
	cur  *mapEntry
	done bool
}

func (p *Path) rmapIter(v Value) *rmapIter {
	c, ok := v.(*Value)
	if !ok || c == nil {
		unsup("reflect.MapIter representation %T", v)
	}
	its, _ := p.extra["reflect.MapIter"].(map[*Value]*rmapIter)
	it := its[c]
	if it == nil {
		unsup("reflect.MapIter not made by MapRange")
	}
	if it.cur == nil {
		p.goPanicStr("MapIter used before Next or after the end")
	}
	return it
}

func initReflectMaps() {
	m := func(name string, f func(p *Path, r RVal, a []Value) Value) {
		pure("(reflect.Value)."+name, func(p *Path, g *Gor, a []Value) Value { return f(p, p.rval(a[0]), a[1:]) })
	}
	theMap := func(p *Path, r RVal, what string) (*Map, *types.Map) {
		p.rvMust(r, what, reflect.Map)
		x, ok := p.rvGet(r).(*Map)
		if !ok {
			unsup("reflect map %T", p.rvGet(r))
		}
		if p.multi && x != nil {
			p.raceAccess(x.sh, what == "SetMapIndex")
		}
		return x, r.t.Underlying().(*types.Map)
	}
	pure("reflect.MakeMap reflect.MakeMapWithSize", func(p *Path, g *Gor, a []Value) Value {
		t := rtype(a[0])
		u, ok := t.Underlying().(*types.Map)
		if !ok {
			p.goPanicStr("reflect.MakeMapWithSize of non-map type")
		}
		return RVal{t: t, v: p.newMap(u.Key())}
	})
	m("MapIndex", func(p *Path, r RVal, a []Value) Value {
		x, u := theMap(p, r, "MapIndex")
		k := p.rvAs(p.rval(a[0]), u.Key(), "reflect.Value.MapIndex")
		e := p.mapFind(x, k)
		if e == nil {
			return RVal{}
		}
		return RVal{t: p.w.canon(u.Elem()), v: copyVal(e.v), ro: r.ro}
	})
	m("SetMapIndex", func(p *Path, r RVal, a []Value) Value {
		x, u := theMap(p, r, "SetMapIndex")
		k := copyVal(p.rvAs(p.rval(a[0]), u.Key(), "reflect.Value.SetMapIndex"))
		v := p.rval(a[1])
		if v.t == nil {
			p.mapDel(x, k)
			return nil
		}
		if x == nil {
			p.goPanicPlain("assignment to entry in nil map")
		}
		p.mapSet(x, k, copyVal(p.rvAs(v, u.Elem(), "reflect.Value.SetMapIndex")))
		return nil
	})
	m("MapKeys", func(p *Path, r RVal, a []Value) Value {
		x, u := theMap(p, r, "MapKeys")
		var out Slice
		for it := p.mapIter(x); ; {
			e, ok := it.next()
			if !ok {
				return out
			}
			out = append(out, RVal{t: p.w.canon(u.Key()), v: copyVal(e.k), ro: r.ro})
		}
	})
	m("MapRange", func(p *Path, r RVal, a []Value) Value {
		x, _ := theMap(p, r, "MapRange")
		t := p.w.typeByName("reflect", "MapIter")
		if t == nil {
			unsup("reflect not loaded")
		}
		c := new(Value)
		*c = p.w.zero(t)
		its, _ := p.extra["reflect.MapIter"].(map[*Value]*rmapIter)
		if its == nil {
			its = map[*Value]*rmapIter{}
			p.extra["reflect.MapIter"] = its
		}
		its[c] = &rmapIter{t: r.t, ro: r.ro, it: p.mapIter(x)}
		return c
	})
	pure("(*reflect.MapIter).Next", func(p *Path, g *Gor, a []Value) Value {
		its, _ := p.extra["reflect.MapIter"].(map[*Value]*rmapIter)
		c, _ := a[0].(*Value)
		it := its[c]
		if it == nil {
			unsup("reflect.MapIter not made by MapRange")
		}
		if it.done {
			p.goPanicStr("MapIter.Next called on exhausted iterator")
		}
		e, ok := it.it.next()
		it.cur, it.done = e, !ok
		if !ok {
			it.cur = nil
		}
		return p.w.ts.Bool(ok)
	})
	key := func(p *Path, v Value) RVal {
		it := p.rmapIter(v)
		return RVal{t: p.w.canon(it.t.Underlying().(*types.Map).Key()), v: copyVal(it.cur.k), ro: it.ro}
	}
	value := func(p *Path, v Value) RVal {
		it := p.rmapIter(v)
		return RVal{t: p.w.canon(it.t.Underlying().(*types.Map).Elem()), v: copyVal(it.cur.v), ro: it.ro}
	}
	pure("(*reflect.MapIter).Key", func(p *Path, g *Gor, a []Value) Value { return key(p, a[0]) })
	pure("(*reflect.MapIter).Value", func(p *Path, g *Gor, a []Value) Value { return value(p, a[0]) })
	m("SetIterKey", func(p *Path, r RVal, a []Value) Value {
		p.rvSettable(r, "SetIterKey")
		p.store(r.cell, copyVal(p.rvAs(key(p, a[0]), r.t, "reflect.MapIter.SetKey")))
		return nil
	})
	m("SetIterValue", func(p *Path, r RVal, a []Value) Value {
		p.rvSettable(r, "SetIterValue")
		p.store(r.cell, copyVal(p.rvAs(value(p, a[0]), r.t, "reflect.MapIter.SetValue")))
		return nil
	})

	pure("reflect.SliceOf", func(p *Path, g *Gor, a []Value) Value {
		return p.rtypeIface(p.w.canon(types.NewSlice(rtype(a[0]))))
	})
	pure("reflect.MapOf", func(p *Path, g *Gor, a []Value) Value {
		return p.rtypeIface(p.w.canon(types.NewMap(rtype(a[0]), rtype(a[1]))))
	})
	grown := func(p *Path, s Slice, et types.Type, n int) Slice {
		if n <= cap(s) {
			return s
		}
		c := 2 * cap(s)
		if c < n {
			c = n
		}
		if c < 4 {
			c = 4
		}
		out := make(Slice, c)
		copy(out, s)
		for i := len(s); i < c; i++ {
			out[i] = p.w.zero(et)
		}
		return out[:len(s)]
	}
	pure("reflect.MakeSlice", func(p *Path, g *Gor, a []Value) Value {
		t := rtype(a[0])
		u, ok := t.Underlying().(*types.Slice)
		n, c := p.concInt(a[1], "MakeSlice"), p.concInt(a[2], "MakeSlice")
		if !ok || n < 0 || c < n {
			p.goPanicStr("reflect.MakeSlice")
		}
		s := make(Slice, c)
		for i := range s {
			s[i] = p.w.zero(u.Elem())
		}
		return RVal{t: t, v: s[:n]}
	})
	theSlice := func(p *Path, r RVal, what string) (Slice, types.Type) {
		p.rvMust(r, what, reflect.Slice)
		s, ok := p.rvGet(r).(Slice)
		if !ok {
			unsup("reflect slice %T", p.rvGet(r))
		}
		return s, r.t.Underlying().(*types.Slice).Elem()
	}
	m("Cap", func(p *Path, r RVal, a []Value) Value {
		if u, ok := r.t.Underlying().(*types.Array); ok {
			return p.w.ts.Int(int(u.Len()))
		}
		s, _ := theSlice(p, r, "Cap")
		return p.w.ts.Int(cap(s))
	})
	m("Grow", func(p *Path, r RVal, a []Value) Value {
		p.rvSettable(r, "Grow")
		s, et := theSlice(p, r, "Grow")
		n := p.concInt(a[0], "Grow")
		if n < 0 {
			p.goPanicStr("reflect.Value.Grow: negative len")
		}
		p.store(r.cell, grown(p, s, et, len(s)+n))
		return nil
	})
	m("SetLen", func(p *Path, r RVal, a []Value) Value {
		p.rvSettable(r, "SetLen")
		s, _ := theSlice(p, r, "SetLen")
		n := p.concInt(a[0], "SetLen")
		if n < 0 || n > cap(s) {
			p.goPanicStr("reflect: slice length out of range in SetLen")
		}
		p.store(r.cell, s[:n])
		return nil
	})
	m("SetZero", func(p *Path, r RVal, a []Value) Value {
		p.rvSettable(r, "SetZero")
		p.store(r.cell, p.w.zero(r.t))
		return nil
	})
	m("Clear", func(p *Path, r RVal, a []Value) Value {
		p.rvMust(r, "Clear", reflect.Map, reflect.Slice)
		if kindOf(r.t) == reflect.Map {
			x, _ := theMap(p, r, "SetMapIndex")
			for it := p.mapIter(x); x != nil; {
				e, ok := it.next()
				if !ok {
					break
				}
				p.mapDel(x, e.k)
			}
			return nil
		}
		s, et := theSlice(p, r, "Clear")
		for i := range s {
			p.store(&s[i], p.w.zero(et))
		}
		return nil
	})
	pure("reflect.Append", func(p *Path, g *Gor, a []Value) Value {
		r := p.rval(a[0])
		s, et := theSlice(p, r, "Append")
		xs := a[1].(Slice)
		n := len(s)
		s = grown(p, s, et, n+len(xs))[:n+len(xs)]
		for i, x := range xs {
			p.store(&s[n+i], copyVal(p.rvAs(p.rval(x), et, "reflect.Append")))
		}
		return RVal{t: r.t, v: s}
	})
}
