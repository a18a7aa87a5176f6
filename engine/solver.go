package main

// SMT solver driver: one z3 process per worker and encoding (bit-vectors or
// bounded integers with explicit wrap-around), incremental push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	intMode bool
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool // terms printed
	noInt   map[int32]bool // memo for unsupported terms in int mode
	okInt   map[int32]bool
	stack   []*Term
	ranged  []map[int32]bool
	nq      int
	defs    int
	timeout int
	dead    bool
	st      *SolverStats
	log     io.Writer
}

var slowLog = os.Getenv("GOSYM_SLOW") != ""

type SolverStats struct {
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	Errors   int
	Restarts int
	MaxQuery time.Duration
	Cached   int
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Time += o.Time
	s.Errors += o.Errors
	s.Restarts += o.Restarts
	s.Cached += o.Cached
	if o.MaxQuery > s.MaxQuery {
		s.MaxQuery = o.MaxQuery
	}
}

func NewSolver(intMode bool, bin string, timeoutMs int, st *SolverStats) *Solver {
	s := &Solver{intMode: intMode, timeout: timeoutMs, st: st}
	switch bin {
	case "cvc5":
		s.bin = []string{"cvc5", "--incremental", "--produce-models", "--global-declarations", fmt.Sprintf("--tlimit-per=%d", timeoutMs), "--lang=smt2"}
	default:
		s.bin = []string{bin, "-in", "-smt2"}
	}
	s.noInt = map[int32]bool{}
	s.okInt = map[int32]bool{}
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		w, _ := os.CreateTemp(f, "q*.smt2")
		s.log = w
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.stack = nil
	s.ranged = []map[int32]bool{{}}
	s.defs = 0
	s.emit("(set-option :global-declarations true)\n")
	s.emit("(set-option :produce-models true)\n")
	if !strings.HasPrefix(s.bin[0], "cvc5") {
		s.emit(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
		s.emit("(set-option :memory_max_size 3000)\n")
	} else {
		s.emit("(set-logic ALL)\n")
	}
	return nil
}

func (s *Solver) emit(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvLit(v uint64, w uint8) string {
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func intLit(v int64) string {
	if v == math.MinInt64 {
		return "(- 9223372036854775808)"
	}
	if v < 0 {
		return fmt.Sprintf("(- %d)", -v)
	}
	return strconv.FormatInt(v, 10)
}

func pow2(w uint8) string {
	return new(big.Int).Lsh(big.NewInt(1), uint(w)).String()
}

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OpConst:
		switch t.S.K {
		case SBool:
			if t.C == 1 {
				return "true"
			}
			return "false"
		case SBV:
			if s.intMode {
				return intLit(sx(t.C, t.S.W))
			}
			return bvLit(t.C, t.S.W)
		default:
			return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.C)
		}
	case OpVar:
		return "|" + t.Name + "|"
	}
	return "t" + strconv.Itoa(int(t.ID))
}

func (s *Solver) sortName(x Sort) string {
	switch x.K {
	case SBool:
		return "Bool"
	case SBV:
		if s.intMode {
			return "Int"
		}
		return fmt.Sprintf("(_ BitVec %d)", x.W)
	}
	return "(_ FloatingPoint 11 53)"
}

// supported reports whether the term can be printed in the integer encoding.
func (s *Solver) supported(t *Term) bool {
	if !s.intMode {
		return true
	}
	if t.Op == OpConst || t.Op == OpVar {
		return t.S.K != SFP
	}
	if s.okInt[t.ID] {
		return true
	}
	if s.noInt[t.ID] {
		return false
	}
	ok := true
	switch t.Op {
	case OpBAnd:
		ok = t.A[1].IsConst() && isLowMask(t.A[1].C)
	case OpBOr, OpBXor, OpShl, OpLShr, OpConcat:
		ok = false
	case OpAShr:
		ok = t.A[1].IsConst() && t.A[1].C < 62
	case OpExtract:
		ok = t.C&0xff == 0
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFNeg, OpFLt, OpFLe, OpFEq, OpFFromS, OpFFromU, OpFToS, OpFRound, OpFAbs, OpFIsNaN:
		ok = false
	}
	for i := 0; ok && i < int(t.N); i++ {
		ok = s.supported(t.A[i])
	}
	if ok {
		s.okInt[t.ID] = true
	} else {
		s.noInt[t.ID] = true
	}
	return ok
}

func isLowMask(c uint64) bool { return c&(c+1) == 0 && c < 1<<62 }

func (s *Solver) define(t *Term) {
	if t.Op == OpConst || s.defined[t.ID] {
		return
	}
	// iterative post-order to survive deep DAGs
	type ent struct {
		t *Term
		i int
	}
	st := []ent{{t, 0}}
	for len(st) > 0 {
		e := &st[len(st)-1]
		if e.t.Op == OpConst || s.defined[e.t.ID] {
			st = st[:len(st)-1]
			continue
		}
		if e.i < int(e.t.N) {
			c := e.t.A[e.i]
			e.i++
			if c.Op != OpConst && !s.defined[c.ID] {
				st = append(st, ent{c, 0})
			}
			continue
		}
		s.print(e.t)
		s.defined[e.t.ID] = true
		s.defs++
		st = st[:len(st)-1]
	}
}

func (s *Solver) print(t *Term) {
	if t.Op == OpVar {
		s.emit("(declare-const " + s.ref(t) + " " + s.sortName(t.S) + ")\n")
		return
	}
	var body string
	if s.intMode {
		body = s.bodyInt(t)
	} else {
		body = s.bodyBV(t)
	}
	s.emit("(define-fun t" + strconv.Itoa(int(t.ID)) + " () " + s.sortName(t.S) + " " + body + ")\n")
}

var bvNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpNeg: "bvneg",
	OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle", OpConcat: "concat",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE", OpFNeg: "fp.neg", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq",
	OpFAbs: "fp.abs", OpFIsNaN: "fp.isNaN",
	OpFFromS: "(_ to_fp 11 53) RNE", OpFFromU: "(_ to_fp_unsigned 11 53) RNE",
}

func (s *Solver) bodyBV(t *Term) string {
	var op string
	switch t.Op {
	case OpExtract:
		op = fmt.Sprintf("(_ extract %d %d)", t.C>>8, t.C&0xff)
	case OpZExt:
		op = fmt.Sprintf("(_ zero_extend %d)", t.S.W-t.A[0].S.W)
	case OpSExt:
		op = fmt.Sprintf("(_ sign_extend %d)", t.S.W-t.A[0].S.W)
	case OpFToS:
		op = fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.S.W)
	case OpFRound:
		op = "fp.roundToIntegral " + []string{"RTP", "RTN", "RTZ", "RNE", "RNA"}[t.C]
	default:
		op = bvNames[t.Op]
	}
	var b strings.Builder
	b.WriteString("(" + op)
	for i := 0; i < int(t.N); i++ {
		b.WriteByte(' ')
		b.WriteString(s.ref(t.A[i]))
	}
	b.WriteByte(')')
	return b.String()
}

func wrapS(x string, w uint8) string {
	return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", x, pow2(w-1), pow2(w), pow2(w-1))
}

func (s *Solver) uns(t *Term) string {
	if t.Lo >= 0 {
		return s.ref(t)
	}
	return fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", s.ref(t), s.ref(t), pow2(t.S.W), s.ref(t))
}

func (s *Solver) bodyInt(t *Term) string {
	r := func(i int) string { return s.ref(t.A[i]) }
	w := t.S.W
	switch t.Op {
	case OpNot, OpAnd, OpOr, OpEq, OpIte:
		return s.bodyBV(t)
	case OpAdd, OpSub, OpMul:
		sym := map[Op]string{OpAdd: "+", OpSub: "-", OpMul: "*"}[t.Op]
		x := "(" + sym + " " + r(0) + " " + r(1) + ")"
		if _, _, ok := rawRange(t.Op, t.A[0], t.A[1], w); ok {
			return x
		}
		return wrapS(x, w)
	case OpNeg:
		x := "(- " + r(0) + ")"
		if t.A[0].Lo > minS(w) {
			return x
		}
		return wrapS(x, w)
	case OpBNot:
		return "(- (- 1) " + r(0) + ")"
	case OpSDiv, OpSRem:
		a, b := t.A[0], t.A[1]
		// truncated division from floor/euclidean div with divisor magnitude
		var q string
		bs := r(1)
		if b.Lo > 0 {
			if a.Lo >= 0 {
				q = fmt.Sprintf("(div %s %s)", r(0), bs)
			} else {
				q = fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", r(0), r(0), bs, r(0), bs)
			}
			if t.Op == OpSRem {
				if a.Lo >= 0 {
					return fmt.Sprintf("(mod %s %s)", r(0), bs)
				}
				return fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", r(0), r(0), bs, r(0), bs)
			}
			return q
		}
		ab := fmt.Sprintf("(ite (< %s 0) (- %s) %s)", bs, bs, bs)
		if t.Op == OpSRem {
			return fmt.Sprintf("(ite (= %s 0) %s (ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s))))", bs, r(0), r(0), r(0), ab, r(0), ab)
		}
		mag := fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", r(0), r(0), ab, r(0), ab)
		x := fmt.Sprintf("(ite (= %s 0) (ite (>= %s 0) (- 1) 1) (ite (< %s 0) (- %s) %s))", bs, r(0), bs, mag, mag)
		if a.Lo > minS(w) {
			return x
		}
		return wrapS(x, w)
	case OpUDiv:
		x := fmt.Sprintf("(ite (= %s 0) %s (div %s %s))", r(1), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)), s.uns(t.A[0]), s.uns(t.A[1]))
		return wrapS(x, w)
	case OpURem:
		x := fmt.Sprintf("(ite (= %s 0) %s (mod %s %s))", r(1), s.uns(t.A[0]), s.uns(t.A[0]), s.uns(t.A[1]))
		return wrapS(x, w)
	case OpBAnd:
		return fmt.Sprintf("(mod %s %s)", r(0), strconv.FormatUint(t.A[1].C+1, 10))
	case OpAShr:
		return fmt.Sprintf("(div %s %s)", r(0), pow2(uint8(t.A[1].C)))
	case OpSLt:
		return "(< " + r(0) + " " + r(1) + ")"
	case OpSLe:
		return "(<= " + r(0) + " " + r(1) + ")"
	case OpULt:
		return "(< " + s.uns(t.A[0]) + " " + s.uns(t.A[1]) + ")"
	case OpULe:
		return "(<= " + s.uns(t.A[0]) + " " + s.uns(t.A[1]) + ")"
	case OpZExt:
		return s.uns(t.A[0])
	case OpSExt:
		return r(0)
	case OpExtract:
		if t.A[0].Lo >= minS(w) && t.A[0].Hi <= maxS(w) {
			return r(0)
		}
		return wrapS(r(0), w)
	}
	panic(fmt.Sprintf("bodyInt: op %d", t.Op))
}

func (s *Solver) assertTerm(t *Term, level map[int32]bool) {
	s.define(t)
	for _, v := range varsOf(t) {
		if s.isRanged(v.ID) || level[v.ID] {
			continue
		}
		level[v.ID] = true
		if v.S.K == SBV {
			if s.intMode {
				s.emit(fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))\n", intLit(v.Lo), s.ref(v), s.ref(v), intLit(v.Hi)))
			} else {
				if v.Lo > minS(v.S.W) {
					s.emit(fmt.Sprintf("(assert (bvsle %s %s))\n", bvLit(uint64(v.Lo)&mask(v.S.W), v.S.W), s.ref(v)))
				}
				if v.Hi < maxS(v.S.W) {
					s.emit(fmt.Sprintf("(assert (bvsle %s %s))\n", s.ref(v), bvLit(uint64(v.Hi)&mask(v.S.W), v.S.W)))
				}
			}
		}
	}
	s.emit("(assert " + s.ref(t) + ")\n")
}

func (s *Solver) isRanged(id int32) bool {
	for _, m := range s.ranged {
		if m[id] {
			return true
		}
	}
	return false
}

// varsOf lists the variables of a term.
func varsOf(t *Term) []*Term {
	seen := map[int32]bool{}
	var out []*Term
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x.Op == OpConst || seen[x.ID] {
			continue
		}
		seen[x.ID] = true
		if x.Op == OpVar {
			out = append(out, x)
			continue
		}
		for i := 0; i < int(x.N); i++ {
			st = append(st, x.A[i])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Check decides pc ∧ extra. On Sat a model over vars is returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term, wantModel bool) (Result, Model) {
	if s.cmd == nil || s.defs > 400000 {
		if s.cmd != nil {
			s.Close()
			s.st.Restarts++
		}
		if err := s.start(); err != nil {
			s.st.Errors++
			return Unknown, nil
		}
	}
	t0 := time.Now()
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		s.emit(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
		s.ranged = s.ranged[:n+1]
	}
	for ; n < len(pc); n++ {
		s.emit("(push 1)\n")
		lv := map[int32]bool{}
		s.assertTerm(pc[n], lv)
		s.stack = append(s.stack, pc[n])
		s.ranged = append(s.ranged, lv)
	}
	s.emit("(push 1)\n")
	lv := map[int32]bool{}
	if extra != nil {
		s.assertTerm(extra, lv)
	}
	for _, v := range vars {
		s.define(v)
		if !s.isRanged(v.ID) && !lv[v.ID] && v.S.K == SBV && (s.intMode || v.Lo > minS(v.S.W) || v.Hi < maxS(v.S.W)) {
			lv[v.ID] = true
			// unconstrained so far: constrain to its range for the model
			if s.intMode {
				s.emit(fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))\n", intLit(v.Lo), s.ref(v), s.ref(v), intLit(v.Hi)))
			} else {
				s.emit(fmt.Sprintf("(assert (and (bvsle %s %s) (bvsle %s %s)))\n", bvLit(uint64(v.Lo)&mask(v.S.W), v.S.W), s.ref(v), s.ref(v), bvLit(uint64(v.Hi)&mask(v.S.W), v.S.W)))
			}
		}
	}
	s.emit("(check-sat)\n")
	// a solver that does not honour its own time limit is ended
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(s.timeout)*3*time.Millisecond/2+2*time.Second, func() { proc.Kill() })
	defer dog.Stop()
	if err := s.in.Flush(); err != nil {
		s.fail()
		return Unknown, nil
	}
	line, err := s.readLine()
	s.st.Queries++
	res := Unknown
	var m Model
	switch {
	case err != nil:
		s.fail()
	case line == "sat":
		res = Sat
		if wantModel && len(vars) > 0 {
			m, err = s.getModel(vars)
			if err != nil {
				s.fail()
				res = Unknown
			}
		} else {
			m = Model{}
		}
	case line == "unsat":
		res = Unsat
	case line == "unknown" || line == "timeout":
	default:
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", line)
		}
		s.st.Errors++
		s.Close()
	}
	if s.cmd != nil {
		s.emit("(pop 1)\n")
	}
	d := time.Since(t0)
	s.st.Time += d
	if d > s.st.MaxQuery {
		s.st.MaxQuery = d
	}
	if slowLog && d > 5*time.Second {
		x := extra
		if x == nil && len(pc) > 0 {
			x = pc[len(pc)-1]
		}
		fmt.Fprintf(os.Stderr, "slow query %v %v %v: %d pc\n%s\n", d, s.bin[0], res, len(pc), x.short(9))
		for _, c := range pc {
			fmt.Fprintf(os.Stderr, "   pc %s\n", c.short(5))
		}
	}
	switch res {
	case Sat:
		s.st.Sat++
	case Unsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	return res, m
}

func (s *Solver) fail() {
	s.st.Errors++
	s.Close()
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) getModel(vars []*Term) (Model, error) {
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString(s.ref(v))
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	s.emit(b.String())
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	ex := parseSexp(txt)
	m := Model{}
	if len(ex.list) != len(vars) {
		return nil, fmt.Errorf("model size")
	}
	for i, p := range ex.list {
		v := vars[i]
		u, err := parseVal(p.list[1], v.S)
		if err != nil {
			return nil, err
		}
		m[v.Name] = u
	}
	return m, nil
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	pos := 0
	var rec func() *sexp
	rec = func() *sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos < len(s) && s[pos] == '(' {
			pos++
			e := &sexp{}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
					pos++
				}
				if pos >= len(s) || s[pos] == ')' {
					pos++
					return e
				}
				e.list = append(e.list, rec())
			}
		}
		st := pos
		if pos < len(s) && s[pos] == '|' {
			pos++
			for s[pos] != '|' {
				pos++
			}
			pos++
			return &sexp{atom: s[st:pos]}
		}
		for pos < len(s) && s[pos] != ' ' && s[pos] != ')' && s[pos] != '(' && s[pos] != '\n' {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	return rec()
}

func parseVal(e *sexp, so Sort) (uint64, error) {
	switch so.K {
	case SBool:
		return b2u(e.atom == "true"), nil
	case SBV:
		if e.atom != "" {
			if strings.HasPrefix(e.atom, "#x") {
				return strconv.ParseUint(e.atom[2:], 16, 64)
			}
			if strings.HasPrefix(e.atom, "#b") {
				return strconv.ParseUint(e.atom[2:], 2, 64)
			}
			b, ok := new(big.Int).SetString(e.atom, 10)
			if !ok {
				return 0, fmt.Errorf("value %q", e.atom)
			}
			return b.Uint64() & mask(so.W), nil
		}
		if len(e.list) == 2 && e.list[0].atom == "-" {
			b, ok := new(big.Int).SetString(e.list[1].atom, 10)
			if !ok {
				return 0, fmt.Errorf("value")
			}
			b.Neg(b)
			m := new(big.Int).And(b, new(big.Int).SetUint64(math.MaxUint64))
			return m.Uint64() & mask(so.W), nil
		}
		if len(e.list) == 3 && e.list[0].atom == "_" {
			b, _ := new(big.Int).SetString(strings.TrimPrefix(e.list[1].atom, "bv"), 10)
			return b.Uint64(), nil
		}
	case SFP:
		if len(e.list) == 4 && e.list[0].atom == "fp" {
			sgn, err := parseVal(e.list[1], sortBV(1))
			if err != nil {
				return 0, err
			}
			ex, err := parseVal(e.list[2], sortBV(11))
			if err != nil {
				return 0, err
			}
			mn, err := parseVal(e.list[3], sortBV(52))
			return sgn<<63 | ex<<52 | mn, err
		}
		if len(e.list) >= 2 && e.list[0].atom == "_" {
			switch e.list[1].atom {
			case "+zero":
				return 0, nil
			case "-zero":
				return 1 << 63, nil
			case "+oo":
				return math.Float64bits(math.Inf(1)), nil
			case "-oo":
				return math.Float64bits(math.Inf(-1)), nil
			case "NaN":
				return math.Float64bits(math.NaN()), nil
			}
		}
	}
	return 0, fmt.Errorf("cannot parse model value")
}
