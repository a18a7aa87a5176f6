package redislim

import (
	"github.com/chanjarster/gears/zzverif/sym"
)

// A small interpreter of Lua as Redis runs it: enough for scripts that compute
// with integers and call Redis commands. Anything else is reported as unsupported.

type kind byte

const (
	kNil kind = iota
	kBool
	kNum
	kStr
	kTab
	kErr
)

// val is a Lua value. A string that spells an integer keeps the integer (num).
type val struct {
	k   kind
	b   bool
	n   int64
	s   string
	num bool
	t   *tab
}

type tab struct {
	arr []val
	m   map[string]val
}

func vNum(n int64) val  { return val{k: kNum, n: n} }
func vStr(s string) val { return val{k: kStr, s: s} }
func vBool(b bool) val  { return val{k: kBool, b: b} }

type token struct {
	t string // "id", "num", "str", "op", "eof"
	s string
	n int64
}

func lex(src string) []token {
	var out []token
	i := 0
	alpha := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ';':
			i++
		case c == '-' && i+1 < len(src) && src[i+1] == '-':
			if i+3 < len(src) && src[i+2] == '[' && src[i+3] == '[' {
				i += 4
				for i+1 < len(src) && !(src[i] == ']' && src[i+1] == ']') {
					i++
				}
				i += 2
				break
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case alpha(c):
			j := i
			for j < len(src) && (alpha(src[j]) || digit(src[j])) {
				j++
			}
			out = append(out, token{t: "id", s: src[i:j]})
			i = j
		case digit(c):
			var n int64
			for i < len(src) && digit(src[i]) {
				n = n*10 + int64(src[i]-'0')
				i++
			}
			if i < len(src) && (src[i] == '.' && !(i+1 < len(src) && src[i+1] == '.') || src[i] == 'e' || src[i] == 'x') {
				sym.Unsupported("lua: number")
			}
			out = append(out, token{t: "num", n: n})
		case c == '\'' || c == '"':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' {
					sym.Unsupported("lua: escape")
				}
				j++
			}
			out = append(out, token{t: "str", s: src[i+1 : j]})
			i = j + 1
		default:
			two := ""
			if i+1 < len(src) {
				two = src[i : i+2]
			}
			switch two {
			case "==", "~=", "<=", ">=", "..":
				out = append(out, token{t: "op", s: two})
				i += 2
			default:
				out = append(out, token{t: "op", s: string(c)})
				i++
			}
		}
	}
	return append(out, token{t: "eof"})
}

// node is an expression or a statement.
type node struct {
	op   string
	s    string
	n    int64
	kids []*node
	body []*node
	els  []*node
	strs []string
}

type parser struct {
	ts []token
	p  int
}

func (p *parser) peek() token { return p.ts[p.p] }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.t == "id" || t.t == "op") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) need(s string) {
	if !p.accept(s) {
		sym.Unsupported("lua: expected " + s + " but found " + p.peek().s)
	}
}
func (p *parser) ident() string {
	t := p.peek()
	if t.t != "id" {
		sym.Unsupported("lua: identifier expected")
	}
	p.p++
	return t.s
}

func (p *parser) block() []*node {
	var out []*node
	for {
		if p.peek().t == "eof" || p.is("end") || p.is("else") || p.is("elseif") || p.is("until") {
			return out
		}
		out = append(out, p.stmt())
	}
}

func (p *parser) stmt() *node {
	switch {
	case p.accept("local"):
		if p.is("function") {
			p.p++
			return p.function(&node{op: "localfn", s: p.ident()})
		}
		n := &node{op: "local"}
		n.strs = append(n.strs, p.ident())
		for p.accept(",") {
			n.strs = append(n.strs, p.ident())
		}
		if p.accept("=") {
			n.kids = p.exprs()
		}
		return n
	case p.accept("function"):
		return p.function(&node{op: "localfn", s: p.ident()})
	case p.accept("if"):
		n := &node{op: "if"}
		n.kids = []*node{p.expr(0)}
		p.need("then")
		n.body = p.block()
		switch {
		case p.is("elseif"):
			p.ts[p.p].s = "if"
			n.els = []*node{p.stmt()}
		case p.accept("else"):
			n.els = p.block()
			p.need("end")
		default:
			p.need("end")
		}
		return n
	case p.accept("while"):
		n := &node{op: "while"}
		n.kids = []*node{p.expr(0)}
		p.need("do")
		n.body = p.block()
		p.need("end")
		return n
	case p.accept("repeat"):
		n := &node{op: "repeat"}
		n.body = p.block()
		p.need("until")
		n.kids = []*node{p.expr(0)}
		return n
	case p.accept("do"):
		n := &node{op: "do", body: p.block()}
		p.need("end")
		return n
	case p.accept("for"):
		n := &node{op: "for"}
		n.strs = append(n.strs, p.ident())
		if p.accept("=") {
			n.kids = p.exprs()
		} else {
			for p.accept(",") {
				n.strs = append(n.strs, p.ident())
			}
			p.need("in")
			n.op = "forin"
			n.kids = p.exprs()
		}
		p.need("do")
		n.body = p.block()
		p.need("end")
		return n
	case p.accept("break"):
		return &node{op: "break"}
	case p.accept("return"):
		n := &node{op: "return"}
		if !(p.peek().t == "eof" || p.is("end") || p.is("else") || p.is("elseif") || p.is("until")) {
			n.kids = p.exprs()
		}
		return n
	}
	e := p.expr(9)
	if p.is("=") || p.is(",") {
		n := &node{op: "assign"}
		n.els = []*node{e}
		for p.accept(",") {
			n.els = append(n.els, p.expr(9))
		}
		p.need("=")
		n.kids = p.exprs()
		return n
	}
	if e.op != "call" {
		sym.Unsupported("lua: statement")
	}
	return e
}

func (p *parser) function(n *node) *node {
	p.need("(")
	for !p.is(")") {
		n.strs = append(n.strs, p.ident())
		p.accept(",")
	}
	p.need(")")
	n.body = p.block()
	p.need("end")
	return n
}

func (p *parser) exprs() []*node {
	out := []*node{p.expr(0)}
	for p.accept(",") {
		out = append(out, p.expr(0))
	}
	return out
}

func prec(t token) int {
	if t.t != "op" && t.t != "id" {
		return -1
	}
	switch t.s {
	case "or":
		return 1
	case "and":
		return 2
	case "<", ">", "<=", ">=", "~=", "==":
		return 3
	case "..":
		return 4
	case "+", "-":
		return 5
	case "*", "/", "%":
		return 6
	}
	return -1
}

// expr parses with precedence climbing; level 9 is a suffixed expression.
func (p *parser) expr(min int) *node {
	if min == 9 {
		return p.primary()
	}
	var l *node
	switch {
	case p.accept("not"):
		l = &node{op: "not", kids: []*node{p.expr(7)}}
	case p.accept("-"):
		l = &node{op: "neg", kids: []*node{p.expr(7)}}
	case p.accept("#"):
		l = &node{op: "len", kids: []*node{p.expr(7)}}
	default:
		l = p.primary()
	}
	for {
		t := p.peek()
		q := prec(t)
		if q < 0 || q < min {
			return l
		}
		p.p++
		r := p.expr(q + 1)
		l = &node{op: t.s, kids: []*node{l, r}}
	}
}

func (p *parser) primary() *node {
	t := p.peek()
	var n *node
	switch {
	case t.t == "num":
		p.p++
		return &node{op: "num", n: t.n}
	case t.t == "str":
		p.p++
		return &node{op: "str", s: t.s}
	case p.accept("nil"):
		return &node{op: "nil"}
	case p.accept("true"):
		return &node{op: "bool", n: 1}
	case p.accept("false"):
		return &node{op: "bool"}
	case p.accept("function"):
		return p.function(&node{op: "fn"})
	case p.accept("{"):
		n = &node{op: "table"}
		for !p.is("}") {
			if p.is("[") || p.peek().t == "id" && p.ts[p.p+1].s == "=" && p.ts[p.p+1].t == "op" {
				sym.Unsupported("lua: keyed table")
			}
			n.kids = append(n.kids, p.expr(0))
			if !p.accept(",") {
				break
			}
		}
		p.need("}")
		return n
	case p.accept("("):
		n = p.expr(0)
		p.need(")")
	case t.t == "id":
		p.p++
		n = &node{op: "var", s: t.s}
	default:
		sym.Unsupported("lua: expression at " + t.s)
	}
	for {
		switch {
		case p.accept("."):
			n = &node{op: "field", s: p.ident(), kids: []*node{n}}
		case p.accept("["):
			i := p.expr(0)
			p.need("]")
			n = &node{op: "index", kids: []*node{n, i}}
		case p.accept("("):
			c := &node{op: "call", kids: []*node{n}}
			for !p.is(")") {
				c.kids = append(c.kids, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.need(")")
			n = c
		default:
			return n
		}
	}
}

func parse(src string) []*node {
	p := &parser{ts: lex(src)}
	b := p.block()
	if p.peek().t != "eof" {
		sym.Unsupported("lua: trailing text")
	}
	return b
}

type scope struct {
	vars map[string]*val
	fns  map[string]*node
	up   *scope
}

type machine struct {
	call func(args []val, protected bool) val
	ret  []val
	err  string
}

type ctl byte

const (
	goOn ctl = iota
	isBreak
	isReturn
	isError
)

func (s *scope) find(name string) *val {
	for ; s != nil; s = s.up {
		if v, ok := s.vars[name]; ok {
			return v
		}
	}
	return nil
}

func newScope(up *scope) *scope {
	return &scope{vars: map[string]*val{}, fns: map[string]*node{}, up: up}
}

func (m *machine) block(ns []*node, up *scope) ctl {
	sc := newScope(up)
	return m.run(ns, sc)
}

func (m *machine) run(ns []*node, sc *scope) ctl {
	for _, n := range ns {
		if c := m.stmt(n, sc); c != goOn {
			return c
		}
		if m.err != "" {
			return isError
		}
	}
	return goOn
}

func (m *machine) stmt(n *node, sc *scope) ctl {
	switch n.op {
	case "local":
		vs := m.evals(n.kids, sc)
		for i, name := range n.strs {
			v := val{}
			if i < len(vs) {
				v = vs[i]
			}
			sc.vars[name] = &v
		}
	case "localfn":
		sc.fns[n.s] = n
	case "assign":
		vs := m.evals(n.kids, sc)
		for i, l := range n.els {
			v := val{}
			if i < len(vs) {
				v = vs[i]
			}
			switch l.op {
			case "var":
				c := sc.find(l.s)
				if c == nil {
					m.err = "Script attempted to create global variable"
					return isError
				}
				*c = v
			case "index":
				t := m.eval(l.kids[0], sc)
				ix := m.eval(l.kids[1], sc)
				if t.k != kTab || ix.k != kNum {
					sym.Unsupported("lua: assignment")
				}
				i := int(ix.n)
				if i >= 1 && i <= len(t.t.arr) {
					t.t.arr[i-1] = v
				} else if i == len(t.t.arr)+1 {
					t.t.arr = append(t.t.arr, v)
				} else {
					sym.Unsupported("lua: sparse table")
				}
			default:
				sym.Unsupported("lua: assignment")
			}
		}
	case "if":
		if m.truth(m.eval(n.kids[0], sc)) {
			return m.block(n.body, sc)
		}
		return m.block(n.els, sc)
	case "do":
		return m.block(n.body, sc)
	case "while":
		for m.err == "" && m.truth(m.eval(n.kids[0], sc)) {
			if c := m.block(n.body, sc); c == isBreak {
				break
			} else if c != goOn {
				return c
			}
		}
	case "repeat":
		for {
			in := newScope(sc)
			if c := m.run(n.body, in); c == isBreak {
				break
			} else if c != goOn {
				return c
			}
			if m.truth(m.eval(n.kids[0], in)) || m.err != "" {
				break
			}
		}
	case "for":
		vs := m.evals(n.kids, sc)
		if len(vs) < 2 {
			sym.Unsupported("lua: for")
		}
		lo, hi, step := m.number(vs[0]), m.number(vs[1]), int64(1)
		if len(vs) > 2 {
			step = m.number(vs[2])
		}
		if step > 0 {
			for i := lo; i <= hi && m.err == ""; i += step {
				in := newScope(sc)
				v := vNum(i)
				in.vars[n.strs[0]] = &v
				if c := m.run(n.body, in); c == isBreak {
					break
				} else if c != goOn {
					return c
				}
			}
		} else {
			for i := lo; i >= hi && m.err == ""; i += step {
				in := newScope(sc)
				v := vNum(i)
				in.vars[n.strs[0]] = &v
				if c := m.run(n.body, in); c == isBreak {
					break
				} else if c != goOn {
					return c
				}
			}
		}
	case "forin":
		if len(n.kids) != 1 || n.kids[0].op != "call" || n.kids[0].kids[0].op != "var" {
			sym.Unsupported("lua: for in")
		}
		f := n.kids[0].kids[0].s
		if f != "ipairs" && f != "pairs" {
			sym.Unsupported("lua: for in")
		}
		t := m.eval(n.kids[0].kids[1], sc)
		if t.k != kTab {
			sym.Unsupported("lua: for in")
		}
		for i, e := range t.t.arr {
			in := newScope(sc)
			k, e := vNum(int64(i+1)), e
			in.vars[n.strs[0]] = &k
			if len(n.strs) > 1 {
				in.vars[n.strs[1]] = &e
			}
			if c := m.run(n.body, in); c == isBreak {
				break
			} else if c != goOn {
				return c
			}
		}
	case "break":
		return isBreak
	case "return":
		m.ret = m.evals(n.kids, sc)
		return isReturn
	case "call":
		m.eval(n, sc)
	default:
		sym.Unsupported("lua: " + n.op)
	}
	if m.err != "" {
		return isError
	}
	return goOn
}

func (m *machine) evals(ns []*node, sc *scope) []val {
	var out []val
	for _, n := range ns {
		out = append(out, m.eval(n, sc))
	}
	return out
}

func (m *machine) truth(v val) bool {
	switch v.k {
	case kNil:
		return false
	case kBool:
		return v.b
	}
	return true
}

func (m *machine) fail(msg string) val {
	if m.err == "" {
		m.err = msg
	}
	return val{}
}

func (m *machine) number(v val) int64 {
	x := toNumber(v)
	if x.k != kNum {
		m.fail("attempt to perform arithmetic")
		return 0
	}
	return x.n
}

func toNumber(v val) val {
	switch {
	case v.k == kNum:
		return v
	case v.k == kStr && v.num:
		return vNum(v.n)
	case v.k == kStr:
		if len(v.s) == 0 {
			return val{}
		}
		var n int64
		for i := 0; i < len(v.s); i++ {
			c := v.s[i]
			if c < '0' || c > '9' || len(v.s) > 15 {
				sym.Unsupported("lua: tonumber of text")
			}
			n = n*10 + int64(c-'0')
		}
		return vNum(n)
	}
	return val{}
}

func (m *machine) equal(a, b val) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case kNil:
		return true
	case kBool:
		return a.b == b.b
	case kNum:
		return a.n == b.n
	case kStr:
		if a.num && b.num {
			return a.n == b.n
		}
		if a.num || b.num {
			x, y := a, b
			if !x.num {
				x, y = b, a
			}
			// an integer against a text
			z := y.s
			if len(z) == 0 || z[0] < '0' || z[0] > '9' {
				return false
			}
			return toNumber(y).n == x.n
		}
		return a.s == b.s
	}
	return a.t == b.t
}

func (m *machine) eval(n *node, sc *scope) val {
	if m.err != "" {
		return val{}
	}
	switch n.op {
	case "num":
		return vNum(n.n)
	case "str":
		return vStr(n.s)
	case "nil":
		return val{}
	case "bool":
		return vBool(n.n == 1)
	case "var":
		if v := sc.find(n.s); v != nil {
			return *v
		}
		return m.fail("Script attempted to access nonexistent global variable '" + n.s + "'")
	case "table":
		t := &tab{}
		for _, k := range n.kids {
			t.arr = append(t.arr, m.eval(k, sc))
		}
		return val{k: kTab, t: t}
	case "index":
		t, i := m.eval(n.kids[0], sc), m.eval(n.kids[1], sc)
		if t.k != kTab {
			return m.fail("attempt to index a value")
		}
		if i.k == kStr && t.t.m != nil {
			return t.t.m[i.s]
		}
		if i.k != kNum {
			sym.Unsupported("lua: index")
		}
		if i.n < 1 || i.n > int64(len(t.t.arr)) {
			return val{}
		}
		return t.t.arr[int(i.n)-1]
	case "field":
		t := m.eval(n.kids[0], sc)
		if t.k == kTab && t.t.m != nil {
			return t.t.m[n.s]
		}
		return m.fail("attempt to index a value")
	case "and":
		l := m.eval(n.kids[0], sc)
		if !m.truth(l) {
			return l
		}
		return m.eval(n.kids[1], sc)
	case "or":
		l := m.eval(n.kids[0], sc)
		if m.truth(l) {
			return l
		}
		return m.eval(n.kids[1], sc)
	case "not":
		return vBool(!m.truth(m.eval(n.kids[0], sc)))
	case "neg":
		return vNum(-m.number(m.eval(n.kids[0], sc)))
	case "len":
		v := m.eval(n.kids[0], sc)
		switch {
		case v.k == kTab:
			return vNum(int64(len(v.t.arr)))
		case v.k == kStr && !v.num:
			return vNum(int64(len(v.s)))
		}
		sym.Unsupported("lua: length")
	case "==", "~=":
		a, b := m.eval(n.kids[0], sc), m.eval(n.kids[1], sc)
		e := m.equal(a, b)
		if n.op == "~=" {
			e = !e
		}
		return vBool(e)
	case "<", ">", "<=", ">=":
		a, b := m.eval(n.kids[0], sc), m.eval(n.kids[1], sc)
		if a.k != kNum || b.k != kNum {
			if a.k == kStr && b.k == kStr {
				sym.Unsupported("lua: comparison of strings")
			}
			return m.fail("attempt to compare")
		}
		switch n.op {
		case "<":
			return vBool(a.n < b.n)
		case ">":
			return vBool(a.n > b.n)
		case "<=":
			return vBool(a.n <= b.n)
		}
		return vBool(a.n >= b.n)
	case "+", "-", "*", "/", "%":
		a, b := m.number(m.eval(n.kids[0], sc)), m.number(m.eval(n.kids[1], sc))
		switch n.op {
		case "+":
			return vNum(a + b)
		case "-":
			return vNum(a - b)
		case "*":
			return vNum(a * b)
		}
		if b == 0 {
			sym.Unsupported("lua: division by zero")
		}
		if n.op == "%" {
			r := a % b
			if r != 0 && (r < 0) != (b < 0) {
				r += b
			}
			return vNum(r)
		}
		if a%b != 0 {
			sym.Unsupported("lua: fraction")
		}
		return vNum(a / b)
	case "..":
		a, b := m.eval(n.kids[0], sc), m.eval(n.kids[1], sc)
		return vStr(text(a) + text(b))
	case "call":
		return m.invoke(n, sc)
	default:
		sym.Unsupported("lua: " + n.op)
	}
	return val{}
}

func itoa(n int64) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]byte{'0' + byte(n)})
	}
	return itoa(n/10) + string([]byte{'0' + byte(n%10)})
}

func text(v val) string {
	switch {
	case v.k == kNum, v.k == kStr && v.num:
		return itoa(v.n)
	case v.k == kStr:
		return v.s
	}
	sym.Unsupported("lua: text of a value")
	return ""
}

func (m *machine) invoke(n *node, sc *scope) val {
	f := n.kids[0]
	name := ""
	switch {
	case f.op == "var":
		name = f.s
		for s := sc; s != nil; s = s.up {
			if d, ok := s.fns[name]; ok {
				in := newScope(s)
				args := m.evals(n.kids[1:], sc)
				for i, a := range d.strs {
					v := val{}
					if i < len(args) {
						v = args[i]
					}
					in.vars[a] = &v
				}
				c := m.run(d.body, in)
				r := val{}
				if c == isReturn && len(m.ret) > 0 {
					r = m.ret[0]
				}
				return r
			}
		}
	case f.op == "field" && f.kids[0].op == "var":
		name = f.kids[0].s + "." + f.s
	}
	args := m.evals(n.kids[1:], sc)
	if m.err != "" {
		return val{}
	}
	switch name {
	case "redis.call", "redis.pcall":
		r := m.call(args, name == "redis.pcall")
		if r.k == kErr {
			if name == "redis.pcall" {
				return val{k: kTab, t: &tab{m: map[string]val{"err": vStr(r.s)}}}
			}
			return m.fail(r.s)
		}
		return r
	case "tonumber":
		if len(args) == 1 {
			return toNumber(args[0])
		}
	case "tostring":
		if len(args) == 1 {
			if args[0].k == kNum {
				return val{k: kStr, num: true, n: args[0].n}
			}
			if args[0].k == kStr {
				return args[0]
			}
		}
	case "table.getn":
		if len(args) == 1 && args[0].k == kTab {
			return vNum(int64(len(args[0].t.arr)))
		}
	case "table.insert":
		if len(args) == 2 && args[0].k == kTab {
			args[0].t.arr = append(args[0].t.arr, args[1])
			return val{}
		}
	case "unpack":
	case "type":
		if len(args) == 1 {
			switch args[0].k {
			case kNil:
				return vStr("nil")
			case kBool:
				return vStr("boolean")
			case kNum:
				return vStr("number")
			case kStr:
				return vStr("string")
			}
			return vStr("table")
		}
	case "math.max", "math.min":
		if len(args) > 0 {
			r := m.number(args[0])
			for _, a := range args[1:] {
				x := m.number(a)
				if name == "math.max" && x > r || name == "math.min" && x < r {
					r = x
				}
			}
			return vNum(r)
		}
	case "math.floor", "math.ceil":
		if len(args) == 1 {
			return vNum(m.number(args[0]))
		}
	case "math.abs":
		if len(args) == 1 {
			x := m.number(args[0])
			if x < 0 {
				x = -x
			}
			return vNum(x)
		}
	}
	sym.Unsupported("lua: function " + name)
	return val{}
}
