package main

// Hash-consed SMT terms: booleans, bit-vectors of 1..64 bits and float64.

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpNeg
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpConcat  // args hi, lo
	OpExtract // C = hi<<8|lo
	OpZExt
	OpSExt
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFLt
	OpFLe
	OpFEq
	OpFFromS // signed bv -> float
	OpFFromU
	OpFToS   // float -> signed bv (RTZ)
	OpFRound // C: 0 ceil 1 floor 2 trunc 3 nearest-even 4 nearest-away
	OpFAbs
	OpFIsNaN
)

const (
	SBool = 0
	SBV   = 1
	SFP   = 2
)

type Sort struct {
	K uint8
	W uint8
}

type Term struct {
	Op     Op
	S      Sort
	C      uint64
	A      [3]*Term
	N      int8
	ID     int32
	Name   string
	Lo, Hi int64 // signed interval for BV terms
}

type tkey struct {
	op      Op
	s       Sort
	c       uint64
	a, b, d int32
}

type TermStore struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	next   int32
	True   *Term
	False  *Term
	small8 [256]*Term
	small  [1024]*Term // 64-bit consts -256..767
}

func sortBV(w int) Sort { return Sort{SBV, uint8(w)} }

var sBool = Sort{SBool, 0}
var sFP = Sort{SFP, 64}

func NewTermStore() *TermStore {
	ts := &TermStore{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	ts.False = ts.mk(OpConst, sBool, 0)
	ts.True = ts.mk(OpConst, sBool, 1)
	for i := range ts.small8 {
		ts.small8[i] = ts.mk(OpConst, sortBV(8), uint64(i))
	}
	for i := range ts.small {
		ts.small[i] = ts.mk(OpConst, sortBV(64), uint64(int64(i-256)))
	}
	return ts
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.ID
}

func (ts *TermStore) mk(op Op, s Sort, c uint64, args ...*Term) *Term {
	var a [3]*Term
	copy(a[:], args)
	k := tkey{op, s, c, tid(a[0]), tid(a[1]), tid(a[2])}
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, S: s, C: c, A: a, N: int8(len(args)), ID: ts.next}
	ts.next++
	if s.K == SBV {
		t.Lo, t.Hi = interval(t)
	}
	ts.tab[k] = t
	return t
}

func minS(w uint8) int64 {
	if w == 64 {
		return math.MinInt64
	}
	return -(int64(1) << (w - 1))
}
func maxS(w uint8) int64 {
	if w == 64 {
		return math.MaxInt64
	}
	return int64(1)<<(w-1) - 1
}
func mask(w uint8) uint64 {
	if w == 64 {
		return ^uint64(0)
	}
	return uint64(1)<<w - 1
}

func sx(v uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (a > 0 && b > 0 && c <= 0) || (a < 0 && b < 0 && c >= 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, true
	}
	return c, false
}

// rawRange gives the mathematical range of an add/sub/mul, ok=false if it may overflow the width.
func rawRange(op Op, a, b *Term, w uint8) (int64, int64, bool) {
	fit := func(l, h int64) bool { return l >= minS(w) && h <= maxS(w) }
	switch op {
	case OpAdd:
		l, o1 := addOv(a.Lo, b.Lo)
		h, o2 := addOv(a.Hi, b.Hi)
		if o1 || o2 || !fit(l, h) {
			return 0, 0, false
		}
		return l, h, true
	case OpSub:
		if b.Lo == math.MinInt64 {
			return 0, 0, false
		}
		l, o1 := addOv(a.Lo, -b.Hi)
		h, o2 := addOv(a.Hi, -b.Lo)
		if b.Hi == math.MinInt64 || o1 || o2 || !fit(l, h) {
			return 0, 0, false
		}
		return l, h, true
	case OpMul:
		l, h := int64(math.MaxInt64), int64(math.MinInt64)
		for _, x := range []int64{a.Lo, a.Hi} {
			for _, y := range []int64{b.Lo, b.Hi} {
				m, o := mulOv(x, y)
				if o {
					return 0, 0, false
				}
				if m < l {
					l = m
				}
				if m > h {
					h = m
				}
			}
		}
		if !fit(l, h) {
			return 0, 0, false
		}
		return l, h, true
	}
	return 0, 0, false
}

func interval(t *Term) (int64, int64) {
	w := t.S.W
	lo, hi := minS(w), maxS(w)
	switch t.Op {
	case OpConst:
		v := sx(t.C, w)
		return v, v
	case OpAdd, OpSub, OpMul:
		if l, h, ok := rawRange(t.Op, t.A[0], t.A[1], w); ok {
			return l, h
		}
	case OpNeg:
		a := t.A[0]
		if a.Lo > minS(w) {
			return -a.Hi, -a.Lo
		}
	case OpIte:
		l, h := t.A[1].Lo, t.A[1].Hi
		if t.A[2].Lo < l {
			l = t.A[2].Lo
		}
		if t.A[2].Hi > h {
			h = t.A[2].Hi
		}
		return l, h
	case OpZExt:
		a := t.A[0]
		if a.Lo >= 0 {
			return a.Lo, a.Hi
		}
		if a.S.W < w {
			return 0, int64(mask(a.S.W))
		}
	case OpSExt:
		return t.A[0].Lo, t.A[0].Hi
	case OpExtract:
		if t.C&0xff == 0 { // truncation
			a := t.A[0]
			if a.Lo >= lo && a.Hi <= hi {
				return a.Lo, a.Hi
			}
		}
	case OpSDiv:
		a, b := t.A[0], t.A[1]
		if b.Lo > 0 { // positive divisor
			l, h := a.Lo/b.Lo, a.Hi/b.Lo
			if a.Lo >= 0 {
				l = a.Lo / b.Hi
			}
			if a.Hi < 0 {
				h = a.Hi / b.Hi
			}
			return l, h
		}
	case OpSRem:
		a, b := t.A[0], t.A[1]
		if b.Lo > 0 {
			l, h := -(b.Hi - 1), b.Hi-1
			if a.Lo >= 0 {
				l = 0
				if a.Hi < h {
					h = a.Hi
				}
			}
			if a.Hi <= 0 {
				h = 0
			}
			return l, h
		}
	case OpUDiv:
		a, b := t.A[0], t.A[1]
		if a.Lo >= 0 && b.Lo > 0 {
			return a.Lo / b.Hi, a.Hi / b.Lo
		}
	case OpURem:
		b := t.A[1]
		if b.Lo > 0 {
			return 0, b.Hi - 1
		}
	case OpBAnd:
		a, b := t.A[0], t.A[1]
		if a.Lo >= 0 && b.Lo >= 0 {
			h := a.Hi
			if b.Hi < h {
				h = b.Hi
			}
			return 0, h
		}
		if a.Lo >= 0 {
			return 0, a.Hi
		}
		if b.Lo >= 0 {
			return 0, b.Hi
		}
	case OpLShr:
		if t.A[1].Op == OpConst && t.A[1].C > 0 && t.A[1].C < uint64(w) {
			if t.A[0].Lo >= 0 {
				return t.A[0].Lo >> t.A[1].C, t.A[0].Hi >> t.A[1].C
			}
			return 0, int64(mask(w) >> t.A[1].C)
		}
	case OpAShr:
		if t.A[1].Op == OpConst && t.A[1].C < uint64(w) {
			return t.A[0].Lo >> t.A[1].C, t.A[0].Hi >> t.A[1].C
		}
	case OpBOr, OpBXor:
		a, b := t.A[0], t.A[1]
		if a.Lo >= 0 && b.Lo >= 0 {
			n := bits.Len64(uint64(a.Hi | b.Hi))
			return 0, int64(mask64(n))
		}
	}
	return lo, hi
}

func mask64(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<uint(n) - 1
}

func (t *Term) IsConst() bool { return t.Op == OpConst }

func (ts *TermStore) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func (ts *TermStore) BV(v uint64, w int) *Term {
	if w == 8 {
		return ts.small8[uint8(v)]
	}
	if w == 64 {
		if i := int64(v) + 256; i >= 0 && i < 1024 {
			return ts.small[i]
		}
	}
	return ts.mk(OpConst, sortBV(w), v&mask(uint8(w)))
}

func (ts *TermStore) Int(v int) *Term { return ts.BV(uint64(int64(v)), 64) }

func (ts *TermStore) FP(f float64) *Term { return ts.mk(OpConst, sFP, math.Float64bits(f)) }

// Var declares (or finds) a variable. lo/hi bound BV variables (signed).
func (ts *TermStore) Var(name string, s Sort, lo, hi int64) *Term {
	if t, ok := ts.vars[name]; ok {
		return t
	}
	t := &Term{Op: OpVar, S: s, Name: name, ID: ts.next}
	ts.next++
	if s.K == SBV {
		t.Lo, t.Hi = minS(s.W), maxS(s.W)
		if lo <= hi {
			if lo > t.Lo {
				t.Lo = lo
			}
			if hi < t.Hi {
				t.Hi = hi
			}
		}
	}
	ts.vars[name] = t
	return t
}

func (t *Term) Float() float64 { return math.Float64frombits(t.C) }

func (ts *TermStore) Not(a *Term) *Term {
	switch a.Op {
	case OpConst:
		return ts.Bool(a.C == 0)
	case OpNot:
		return a.A[0]
	case OpULt:
		return ts.Cmp(OpULe, a.A[1], a.A[0])
	case OpULe:
		return ts.Cmp(OpULt, a.A[1], a.A[0])
	case OpSLt:
		return ts.Cmp(OpSLe, a.A[1], a.A[0])
	case OpSLe:
		return ts.Cmp(OpSLt, a.A[1], a.A[0])
	}
	return ts.mk(OpNot, sBool, 0, a)
}

func (ts *TermStore) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.C == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.C == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == OpNot && a.A[0] == b) || (b.Op == OpNot && b.A[0] == a) {
		return ts.False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return ts.mk(OpAnd, sBool, 0, a, b)
}

func (ts *TermStore) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.C == 1 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.C == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == OpNot && a.A[0] == b) || (b.Op == OpNot && b.A[0] == a) {
		return ts.True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return ts.mk(OpOr, sBool, 0, a, b)
}

func (ts *TermStore) Implies(a, b *Term) *Term { return ts.Or(ts.Not(a), b) }

func (ts *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		if a.S.K == SFP {
			return ts.mk(OpEq, sBool, 0, a, b)
		}
		return ts.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sorts differ: %v %v", a.S, b.S))
	}
	if a.IsConst() && b.IsConst() {
		return ts.Bool(a.C == b.C)
	}
	if a.S.K == SBool {
		if b.IsConst() {
			a, b = b, a
		}
		if a.IsConst() {
			if a.C == 1 {
				return b
			}
			return ts.Not(b)
		}
	}
	if a.S.K == SBV {
		if a.Hi < b.Lo || b.Hi < a.Lo {
			return ts.False
		}
		if b.IsConst() {
			a, b = b, a
		}
		if a.IsConst() { // a const
			switch b.Op {
			case OpIte:
				x, y := b.A[1], b.A[2]
				if x.IsConst() || y.IsConst() || x.Op == OpIte || y.Op == OpIte {
					ex, ey := ts.Eq(a, x), ts.Eq(a, y)
					if ex.IsConst() || ey.IsConst() {
						return ts.Ite(b.A[0], ex, ey)
					}
				}
			case OpZExt:
				if a.C > mask(b.A[0].S.W) {
					return ts.False
				}
				return ts.Eq(ts.BV(a.C, int(b.A[0].S.W)), b.A[0])
			case OpSExt:
				n := b.A[0].S.W
				if uint64(sx(a.C, n))&mask(a.S.W) != a.C {
					return ts.False
				}
				return ts.Eq(ts.BV(a.C, int(n)), b.A[0])
			case OpAdd:
				if b.A[1].IsConst() {
					return ts.Eq(ts.BV(a.C-b.A[1].C, int(a.S.W)), b.A[0])
				}
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return ts.mk(OpEq, sBool, 0, a, b)
}

func (ts *TermStore) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.Op == OpNot {
		return ts.Ite(c.A[0], b, a)
	}
	if a.S.K == SBool {
		if a.IsConst() && b.IsConst() {
			if a.C == 1 {
				return c
			}
			return ts.Not(c)
		}
		if a.IsConst() {
			if a.C == 1 {
				return ts.Or(c, b)
			}
			return ts.And(ts.Not(c), b)
		}
		if b.IsConst() {
			if b.C == 1 {
				return ts.Or(ts.Not(c), a)
			}
			return ts.And(c, a)
		}
	}
	if a.Op == OpIte && a.A[0] == c {
		return ts.Ite(c, a.A[1], b)
	}
	if b.Op == OpIte && b.A[0] == c {
		return ts.Ite(c, a, b.A[2])
	}
	return ts.mk(OpIte, a.S, 0, c, a, b)
}

func (ts *TermStore) Cmp(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic("Cmp sorts differ")
	}
	w := a.S.W
	if a.IsConst() && b.IsConst() {
		switch op {
		case OpULt:
			return ts.Bool(a.C < b.C)
		case OpULe:
			return ts.Bool(a.C <= b.C)
		case OpSLt:
			return ts.Bool(sx(a.C, w) < sx(b.C, w))
		case OpSLe:
			return ts.Bool(sx(a.C, w) <= sx(b.C, w))
		}
	}
	if a == b {
		return ts.Bool(op == OpULe || op == OpSLe)
	}
	if op == OpULt || op == OpULe {
		if a.Lo >= 0 && b.Lo >= 0 {
			if op == OpULt {
				op = OpSLt
			} else {
				op = OpSLe
			}
		} else {
			// zero-extended operand against large constants etc.
			if a.Op == OpZExt && b.IsConst() {
				m := mask(a.A[0].S.W)
				if b.C > m {
					return ts.True
				}
			}
		}
	}
	switch op {
	case OpSLt:
		if a.Hi < b.Lo {
			return ts.True
		}
		if a.Lo >= b.Hi {
			return ts.False
		}
	case OpSLe:
		if a.Hi <= b.Lo {
			return ts.True
		}
		if a.Lo > b.Hi {
			return ts.False
		}
	}
	if (op == OpSLt || op == OpSLe) && a.S.W > 8 {
		// push constant comparisons through ite with constant leaves
		if a.Op == OpIte && b.IsConst() && (a.A[1].IsConst() || a.A[2].IsConst()) {
			x, y := ts.Cmp(op, a.A[1], b), ts.Cmp(op, a.A[2], b)
			if x.IsConst() || y.IsConst() {
				return ts.Ite(a.A[0], x, y)
			}
		}
		if b.Op == OpIte && a.IsConst() && (b.A[1].IsConst() || b.A[2].IsConst()) {
			x, y := ts.Cmp(op, a, b.A[1]), ts.Cmp(op, a, b.A[2])
			if x.IsConst() || y.IsConst() {
				return ts.Ite(b.A[0], x, y)
			}
		}
	}
	return ts.mk(op, sBool, 0, a, b)
}

func (ts *TermStore) Bin(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("Bin sorts differ %v %v", a.S, b.S))
	}
	w := a.S.W
	if a.IsConst() && b.IsConst() {
		if v, ok := evalBin(op, a.C, b.C, w); ok {
			return ts.BV(v, int(w))
		}
	}
	switch op {
	case OpAdd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.C == 0 {
				return a
			}
			if a.Op == OpAdd && a.A[1].IsConst() {
				return ts.Bin(OpAdd, a.A[0], ts.BV(a.A[1].C+b.C, int(w)))
			}
		} else {
			if a.Op == OpSub && a.A[1] == b { // (x-b)+b
				return a.A[0]
			}
			if b.Op == OpSub && b.A[1] == a {
				return b.A[0]
			}
			if a.ID > b.ID {
				a, b = b, a
			}
		}
	case OpSub:
		if a == b {
			return ts.BV(0, int(w))
		}
		if b.IsConst() {
			return ts.Bin(OpAdd, a, ts.BV(-b.C, int(w)))
		}
		if a.Op == OpAdd {
			if a.A[0] == b {
				return a.A[1]
			}
			if a.A[1] == b {
				return a.A[0]
			}
		}
		if b.Op == OpAdd && b.A[0] == a && b.A[1].IsConst() {
			return ts.BV(-b.A[1].C, int(w))
		}
		if a.IsConst() && a.C == 0 {
			return ts.mk(OpNeg, a.S, 0, b)
		}
	case OpMul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.C == 0 {
				return b
			}
			if b.C == 1 {
				return a
			}
			if a.Op == OpMul && a.A[1].IsConst() {
				return ts.Bin(OpMul, a.A[0], ts.BV(a.A[1].C*b.C, int(w)))
			}
		} else if a.ID > b.ID {
			a, b = b, a
		}
	case OpSDiv, OpUDiv:
		if b.IsConst() && b.C == 1 {
			return a
		}
		if op == OpSDiv && b.IsConst() && sx(b.C, w) > 0 {
			c := sx(b.C, w)
			if a.Lo >= 0 && a.Hi < c {
				return ts.BV(0, int(w))
			}
			if a.Op == OpMul && a.A[1].IsConst() {
				k := sx(a.A[1].C, w)
				if _, _, ok := rawRange(OpMul, a.A[0], a.A[1], w); ok && k%c == 0 {
					return ts.Bin(OpMul, a.A[0], ts.BV(uint64(k/c), int(w)))
				}
			}
		}
		if op == OpUDiv && a.Lo >= 0 && b.Lo > 0 {
			return ts.Bin(OpSDiv, a, b)
		}
	case OpSRem, OpURem:
		if b.IsConst() && b.C == 1 {
			return ts.BV(0, int(w))
		}
		if op == OpURem && a.Lo >= 0 && b.Lo > 0 {
			return ts.Bin(OpSRem, a, b)
		}
		if op == OpSRem && b.IsConst() && a.Lo >= 0 && sx(b.C, w) > 0 {
			if a.Hi < sx(b.C, w) {
				return a
			}
			if a.Op == OpMul && a.A[1].IsConst() {
				k := sx(a.A[1].C, w)
				if _, _, ok := rawRange(OpMul, a.A[0], a.A[1], w); ok && k%sx(b.C, w) == 0 {
					return ts.BV(0, int(w))
				}
			}
		}
	case OpBAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.IsConst() {
			if b.C == 0 {
				return b
			}
			if b.C == mask(w) {
				return a
			}
			if a.Lo >= 0 && bits.OnesCount64(b.C+1) == 1 && uint64(a.Hi) <= b.C {
				return a
			}
		} else if a.ID > b.ID {
			a, b = b, a
		}
	case OpBOr:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.IsConst() {
			if b.C == 0 {
				return a
			}
			if b.C == mask(w) {
				return b
			}
		} else if a.ID > b.ID {
			a, b = b, a
		}
	case OpBXor:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b {
			return ts.BV(0, int(w))
		}
		if b.IsConst() && b.C == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.IsConst() {
			if b.C == 0 {
				return a
			}
			if b.C >= uint64(w) && op != OpAShr {
				return ts.BV(0, int(w))
			}
			if op == OpShl && b.C < 62 {
				// multiplication keeps the integer encoding usable
				return ts.Bin(OpMul, a, ts.BV(uint64(1)<<b.C, int(w)))
			}
			if op == OpLShr && a.Lo >= 0 && b.C < 62 && b.C < uint64(w)-1 {
				return ts.Bin(OpSDiv, a, ts.BV(uint64(1)<<b.C, int(w)))
			}
		}
	}
	return ts.mk(op, a.S, 0, a, b)
}

func evalBin(op Op, x, y uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return (x / y) & m, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return (x % y) & m, true
	case OpSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m, true
			}
			return 1, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OpSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		a := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m, true
	}
	return 0, false
}

func (ts *TermStore) Neg(a *Term) *Term { return ts.Bin(OpSub, ts.BV(0, int(a.S.W)), a) }

func (ts *TermStore) BNot(a *Term) *Term {
	if a.IsConst() {
		return ts.BV(^a.C, int(a.S.W))
	}
	// ~a = -1 - a
	return ts.Bin(OpSub, ts.BV(^uint64(0), int(a.S.W)), a)
}

// Conv converts a bit-vector to width w.
func (ts *TermStore) Conv(a *Term, signed bool, w int) *Term {
	cw := int(a.S.W)
	if cw == w {
		return a
	}
	if a.IsConst() {
		if w > cw && signed {
			return ts.BV(uint64(sx(a.C, a.S.W)), w)
		}
		return ts.BV(a.C, w)
	}
	if w < cw {
		if a.Op == OpZExt || a.Op == OpSExt {
			in := a.A[0]
			if int(in.S.W) == w {
				return in
			}
			if int(in.S.W) > w {
				return ts.Conv(in, signed, w)
			}
			return ts.Conv(in, a.Op == OpSExt, w)
		}
		if a.Op == OpIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
			return ts.Ite(a.A[0], ts.Conv(a.A[1], signed, w), ts.Conv(a.A[2], signed, w))
		}
		return ts.mk(OpExtract, sortBV(w), uint64(w-1)<<8, a)
	}
	if a.Op == OpIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return ts.Ite(a.A[0], ts.Conv(a.A[1], signed, w), ts.Conv(a.A[2], signed, w))
	}
	if signed && a.Lo < 0 {
		if a.Op == OpSExt {
			return ts.Conv(a.A[0], true, w)
		}
		return ts.mk(OpSExt, sortBV(w), 0, a)
	}
	if a.Op == OpZExt {
		return ts.Conv(a.A[0], false, w)
	}
	return ts.mk(OpZExt, sortBV(w), 0, a)
}

// ---- floating point

func (ts *TermStore) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.Float(), b.Float()
		switch op {
		case OpFAdd:
			return ts.FP(x + y)
		case OpFSub:
			return ts.FP(x - y)
		case OpFMul:
			return ts.FP(x * y)
		case OpFDiv:
			return ts.FP(x / y)
		case OpFLt:
			return ts.Bool(x < y)
		case OpFLe:
			return ts.Bool(x <= y)
		case OpFEq:
			return ts.Bool(x == y)
		}
	}
	s := sFP
	if op == OpFLt || op == OpFLe || op == OpFEq {
		s = sBool
	}
	return ts.mk(op, s, 0, a, b)
}

func (ts *TermStore) FUn(op Op, a *Term, c uint64) *Term {
	if a.IsConst() {
		x := a.Float()
		switch op {
		case OpFNeg:
			return ts.FP(-x)
		case OpFAbs:
			return ts.FP(math.Abs(x))
		case OpFIsNaN:
			return ts.Bool(x != x)
		case OpFRound:
			return ts.FP(fround(x, c))
		}
	}
	s := sFP
	if op == OpFIsNaN {
		s = sBool
	}
	return ts.mk(op, s, c, a)
}

func fround(x float64, c uint64) float64 {
	switch c {
	case 0:
		return math.Ceil(x)
	case 1:
		return math.Floor(x)
	case 2:
		return math.Trunc(x)
	case 3:
		return math.RoundToEven(x)
	}
	return math.Round(x)
}

func (ts *TermStore) FFrom(a *Term, signed bool) *Term {
	if a.IsConst() {
		if signed {
			return ts.FP(float64(sx(a.C, a.S.W)))
		}
		return ts.FP(float64(a.C))
	}
	if signed || a.Lo >= 0 {
		return ts.mk(OpFFromS, sFP, 0, a)
	}
	return ts.mk(OpFFromU, sFP, 0, a)
}

func (ts *TermStore) FTo(a *Term, w int) *Term {
	if a.IsConst() {
		return ts.BV(uint64(int64(a.Float())), w)
	}
	return ts.mk(OpFToS, sortBV(w), 0, a)
}

// ---- evaluation under a model

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[int32]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m, map[int32]uint64{}} }

func (e *evaluator) eval(t *Term) uint64 {
	if t.Op == OpConst {
		return t.C
	}
	if v, ok := e.memo[t.ID]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t.ID] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval1(t *Term) uint64 {
	switch t.Op {
	case OpVar:
		if v, ok := e.m[t.Name]; ok {
			return v
		}
		// unconstrained: pick something in range
		if t.S.K == SBV {
			if t.Lo > 0 || t.Hi < 0 {
				return uint64(t.Lo) & mask(t.S.W)
			}
		}
		return 0
	case OpNot:
		return 1 - e.eval(t.A[0])
	case OpAnd:
		if e.eval(t.A[0]) == 0 {
			return 0
		}
		return e.eval(t.A[1])
	case OpOr:
		if e.eval(t.A[0]) == 1 {
			return 1
		}
		return e.eval(t.A[1])
	case OpIte:
		if e.eval(t.A[0]) == 1 {
			return e.eval(t.A[1])
		}
		return e.eval(t.A[2])
	}
	a := e.eval(t.A[0])
	var b uint64
	if t.N > 1 {
		b = e.eval(t.A[1])
	}
	w := t.A[0].S.W
	fa, fb := math.Float64frombits(a), math.Float64frombits(b)
	switch t.Op {
	case OpEq:
		if t.A[0].S.K == SFP {
			return b2u(a == b || (fa != fa && fb != fb))
		}
		return b2u(a == b)
	case OpULt:
		return b2u(a < b)
	case OpULe:
		return b2u(a <= b)
	case OpSLt:
		return b2u(sx(a, w) < sx(b, w))
	case OpSLe:
		return b2u(sx(a, w) <= sx(b, w))
	case OpNeg:
		return (-a) & mask(w)
	case OpBNot:
		return (^a) & mask(w)
	case OpExtract:
		return (a >> (t.C & 0xff)) & mask(t.S.W)
	case OpZExt:
		return a
	case OpSExt:
		return uint64(sx(a, w)) & mask(t.S.W)
	case OpConcat:
		return a<<t.A[1].S.W | b
	case OpFAdd:
		return math.Float64bits(fa + fb)
	case OpFSub:
		return math.Float64bits(fa - fb)
	case OpFMul:
		return math.Float64bits(fa * fb)
	case OpFDiv:
		return math.Float64bits(fa / fb)
	case OpFNeg:
		return math.Float64bits(-fa)
	case OpFAbs:
		return math.Float64bits(math.Abs(fa))
	case OpFLt:
		return b2u(fa < fb)
	case OpFLe:
		return b2u(fa <= fb)
	case OpFEq:
		return b2u(fa == fb)
	case OpFIsNaN:
		return b2u(fa != fa)
	case OpFRound:
		return math.Float64bits(fround(fa, t.C))
	case OpFFromS:
		return math.Float64bits(float64(sx(a, w)))
	case OpFFromU:
		return math.Float64bits(float64(a))
	case OpFToS:
		return uint64(int64(fa)) & mask(t.S.W)
	}
	v, ok := evalBin(t.Op, a, b, w)
	if !ok {
		panic(fmt.Sprintf("eval: op %d", t.Op))
	}
	return v
}

// short prints a term for debugging.
func (t *Term) short(depth int) string {
	if t == nil {
		return "nil"
	}
	if t.Op == OpConst {
		return fmt.Sprint(sx(t.C, max(t.S.W, 1)))
	}
	if t.Op == OpVar {
		return t.Name
	}
	if depth == 0 {
		return "_"
	}
	s := fmt.Sprintf("(op%d", t.Op)
	for i := 0; i < int(t.N); i++ {
		s += " " + t.A[i].short(depth-1)
	}
	return s + ")"
}
