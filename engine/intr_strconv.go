package main

import "strconv"

// symItoa writes an integer in decimal: one case per sign and number of digits.
func (p *Path) symItoa(x *Term) Str {
	ts := p.w.ts
	neg := p.branch(ts.Cmp(OpSLt, x, ts.Int(0)))
	v := x
	if neg {
		if p.branch(ts.Eq(x, ts.BV(1<<63, 64))) {
			return Str{s: "-9223372036854775808"}
		}
		v = ts.Bin(OpSub, ts.Int(0), x)
	}
	n, pow := 1, 1
	for n < 19 && p.branch(ts.Cmp(OpSLe, ts.Int(pow*10), v)) {
		n++
		pow *= 10
	}
	var b []*Term
	if neg {
		b = append(b, ts.BV('-', 8))
	}
	for ; pow > 0; pow /= 10 {
		d := ts.Bin(OpSRem, ts.Bin(OpSDiv, v, ts.Int(pow)), ts.Int(10))
		b = append(b, ts.Conv(ts.Bin(OpAdd, d, ts.Int('0')), false, 8))
	}
	return p.w.symStr(b)
}

func initStrconv() {
	pure("strconv.FormatInt", func(p *Path, g *Gor, args []Value) Value {
		x := p.termI(args[0])
		base := p.concInt(args[1], "base")
		if x.IsConst() {
			return Str{s: strconv.FormatInt(sx(x.C, 64), base)}
		}
		if base != 10 {
			unsup("FormatInt of a symbolic number in base %d", base)
		}
		return p.symItoa(x)
	})
	pure("strconv.Itoa", func(p *Path, g *Gor, args []Value) Value {
		x := p.termI(args[0])
		if x.IsConst() {
			return Str{s: strconv.Itoa(int(sx(x.C, 64)))}
		}
		return p.symItoa(x)
	})
	// text is only quoted in messages: whether a non-ASCII rune is printable is left open
	pure("strconv.IsPrint", func(p *Path, g *Gor, a []Value) Value {
		ts := p.w.ts
		r := a[0].(*Term)
		if r.IsConst() {
			return ts.Bool(strconv.IsPrint(rune(sx(r.C, 32))))
		}
		if p.branch(ts.Cmp(OpULt, r, ts.BV(0x80, 32))) {
			return ts.And(ts.Cmp(OpULe, ts.BV(0x20, 32), r), ts.Cmp(OpULe, r, ts.BV(0x7e, 32)))
		}
		return p.fresh("print", sBool, 0, 1)
	})
}

// concFloat splits on the integers a float is computed from, which are few
// where a solver takes long over floating-point arithmetic.
func (p *Path) concFloat(t *Term) (float64, bool) {
	if t.IsConst() {
		return t.Float(), true
	}
	switch t.Op {
	case OpFFromU, OpFFromS:
		n := p.concTerm(t.A[0])
		if t.Op == OpFFromU {
			return float64(uint64(n)), true
		}
		return float64(n), true
	case OpIte:
		if p.branch(t.A[0]) {
			return p.concFloat(t.A[1])
		}
		return p.concFloat(t.A[2])
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		a, ok := p.concFloat(t.A[0])
		if !ok {
			return 0, false
		}
		b, ok := p.concFloat(t.A[1])
		if !ok {
			return 0, false
		}
		switch t.Op {
		case OpFAdd:
			return a + b, true
		case OpFSub:
			return a - b, true
		case OpFMul:
			return a * b, true
		}
		return a / b, true
	}
	return 0, false
}
