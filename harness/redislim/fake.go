package redislim

import (
	"context"
	"errors"
	"net"

	"github.com/chanjarster/gears/zzverif/sym"
	"github.com/go-redis/redis/v7"
)

// fakeRedis is a Redis server as far as the scripts of this repository need
// one; expiry, TTL rounding and type conversions follow the documentation
// (and the source of Redis 5-7: a key is expired when now > when; TTL rounds
// to the nearest second).
type fakeRedis struct {
	scripts map[string][]*node
	order   []string
	keys    map[string]*entry
	down    bool  // every command fails
	now     int64 // ms, frozen while a script runs
	script  int   // scripts run
	slots   bool
	touched []string // keys that commands or scripts named
	reply   interface{}
	replied error
}

type entry struct {
	str  val
	list []val
	isL  bool
	when int64 // ms, 0 never
}

func newFake() (*fakeRedis, *redis.Client) {
	f := &fakeRedis{scripts: map[string][]*node{}, keys: map[string]*entry{}}
	c := redis.NewClient(&redis.Options{Addr: "127.0.0.1:1", IdleCheckFrequency: -1, MaxRetries: -1, PoolSize: 100, Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) { return nil, errHandled }})
	c.AddHook(f)
	return f, c
}

var errHandled = errors.New("handled by the fake")

// BeforeProcess answers the command; the failing dialer keeps the client from the network.
func (f *fakeRedis) BeforeProcess(ctx context.Context, cmd redis.Cmder) (context.Context, error) {
	f.reply, f.replied = f.do(cmd.Args())
	return ctx, nil
}

func (f *fakeRedis) AfterProcess(ctx context.Context, cmd redis.Cmder) error {
	switch c := cmd.(type) {
	case *redis.Cmd:
		*c = *redis.NewCmdResult(f.reply, f.replied)
	case *redis.StringCmd:
		s, _ := f.reply.(string)
		*c = *redis.NewStringResult(s, f.replied)
	case *redis.IntCmd:
		n, _ := f.reply.(int64)
		*c = *redis.NewIntResult(n, f.replied)
	case *redis.BoolCmd:
		n, _ := f.reply.(int64)
		*c = *redis.NewBoolResult(n == 1, f.replied)
	case *redis.BoolSliceCmd:
		*c = *redis.NewBoolSliceResult(nil, f.replied)
	default:
		sym.Unsupported("redis: reply type")
	}
	return nil
}

func (f *fakeRedis) BeforeProcessPipeline(ctx context.Context, cmds []redis.Cmder) (context.Context, error) {
	sym.Unsupported("redis: pipeline")
	return ctx, errHandled
}

func (f *fakeRedis) AfterProcessPipeline(ctx context.Context, cmds []redis.Cmder) error { return nil }

func argVal(a interface{}) val {
	switch x := a.(type) {
	case string:
		return vStr(x)
	case int:
		return val{k: kStr, num: true, n: int64(x)}
	case int64:
		return val{k: kStr, num: true, n: x}
	}
	sym.Unsupported("redis: argument type")
	return val{}
}

func (f *fakeRedis) do(args []interface{}) (interface{}, error) {
	if f.down {
		return nil, errors.New("redis is down")
	}
	name := lower(args[0].(string))
	f.now = sym.Now() / 1000000
	switch name {
	case "script":
		if lower(args[1].(string)) != "load" {
			sym.Unsupported("redis: script command")
		}
		sha := "sha" + itoa(int64(len(f.scripts)))
		f.scripts[sha] = parse(args[2].(string))
		f.order = append(f.order, args[2].(string))
		return sha, nil
	case "evalsha", "eval":
		var prog []*node
		if name == "eval" {
			prog = parse(args[1].(string))
		} else {
			prog = f.scripts[args[1].(string)]
			if prog == nil {
				return nil, errors.New("NOSCRIPT No matching script")
			}
		}
		f.script++
		nk := int(argVal(args[2]).n)
		sc := newScope(nil)
		k, v := &tab{}, &tab{}
		for i, a := range args[3:] {
			if i < nk {
				k.arr = append(k.arr, argVal(a))
				if f.slots {
					f.touched = append(f.touched, text(argVal(a)))
				}
			} else {
				v.arr = append(v.arr, argVal(a))
			}
		}
		sc.vars["KEYS"] = &val{k: kTab, t: k}
		sc.vars["ARGV"] = &val{k: kTab, t: v}
		m := &machine{call: func(a []val, p bool) val { return f.command(a) }}
		m.run(prog, sc)
		if m.err != "" {
			return nil, errors.New(m.err)
		}
		if len(m.ret) == 0 {
			return nil, redis.Nil
		}
		r := toReply(m.ret[0])
		if r == nil {
			return nil, redis.Nil
		}
		return r, nil
	}
	var vs []val
	for _, a := range args {
		vs = append(vs, argVal(a))
	}
	v := f.command(vs)
	switch {
	case v.k == kErr:
		return nil, errors.New(v.s)
	case v.k == kBool && !v.b, v.k == kNil:
		return nil, redis.Nil
	}
	return toReply(v), nil
}

// toReply converts a Lua value to a reply.
func toReply(v val) interface{} {
	switch v.k {
	case kNum:
		return v.n
	case kStr:
		return text(v)
	case kBool:
		if v.b {
			return int64(1)
		}
		return nil
	case kTab:
		if v.t.m != nil {
			sym.Unsupported("redis: reply table")
		}
		out := []interface{}{}
		for _, e := range v.t.arr {
			if e.k == kNil {
				break
			}
			out = append(out, toReply(e))
		}
		return out
	}
	return nil
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func fail(msg string) val { return val{k: kErr, s: msg} }

// get finds a live key.
func (f *fakeRedis) get(key string) *entry {
	e := f.keys[key]
	if e == nil {
		return nil
	}
	if e.when != 0 && f.now > e.when {
		delete(f.keys, key)
		return nil
	}
	return e
}

func stored(v val) val {
	if v.k == kNum {
		return val{k: kStr, num: true, n: v.n}
	}
	return v
}

func (f *fakeRedis) command(a []val) val {
	if len(a) == 0 || a[0].k != kStr {
		return fail("ERR no command")
	}
	for _, x := range a {
		if x.k != kStr && x.k != kNum {
			return fail("ERR Lua redis() command arguments must be strings or integers")
		}
	}
	name := lower(a[0].s)
	if len(a) < 2 {
		if name == "time" {
			return val{k: kTab, t: &tab{arr: []val{{k: kStr, num: true, n: f.now / 1000}, {k: kStr, num: true, n: f.now % 1000 * 1000}}}}
		}
		sym.Unsupported("redis: command " + name)
	}
	key := text(a[1])
	if f.slots {
		f.touched = append(f.touched, key)
	}
	e := f.get(key)
	wrong := fail("WRONGTYPE Operation against a key holding the wrong kind of value")
	num := func(i int) (int64, bool) {
		if i >= len(a) {
			return 0, false
		}
		v := toNumber(a[i])
		return v.n, v.k == kNum
	}
	switch name {
	case "exists":
		c := int64(0)
		for _, k := range a[1:] {
			if f.get(text(k)) != nil {
				c++
			}
		}
		return vNum(c)
	case "ttl", "pttl":
		if e == nil {
			return vNum(-2)
		}
		if e.when == 0 {
			return vNum(-1)
		}
		if name == "pttl" {
			return vNum(e.when - f.now)
		}
		return vNum((e.when - f.now + 500) / 1000)
	case "get":
		if e == nil {
			return vBool(false)
		}
		if e.isL {
			return wrong
		}
		return e.str
	case "setex", "psetex":
		n, ok := num(2)
		if !ok || len(a) != 4 {
			return fail("ERR syntax error")
		}
		if n <= 0 {
			return fail("ERR invalid expire time")
		}
		if name == "setex" {
			n *= 1000
		}
		f.keys[key] = &entry{str: stored(a[3]), when: f.now + n}
		return val{k: kTab, t: &tab{m: map[string]val{"ok": vStr("OK")}}}
	case "set", "setnx":
		if len(a) < 3 {
			return fail("ERR wrong number of arguments")
		}
		var when int64
		nx, xx := name == "setnx", false
		for i := 3; i < len(a); i++ {
			switch lower(text(a[i])) {
			case "ex", "px":
				n, ok := num(i + 1)
				if !ok {
					return fail("ERR value is not an integer or out of range")
				}
				if n <= 0 {
					return fail("ERR invalid expire time in 'set' command")
				}
				if lower(text(a[i])) == "ex" {
					n *= 1000
				}
				when = f.now + n
				i++
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "keepttl":
				if e != nil {
					when = e.when
				}
			default:
				sym.Unsupported("redis: set option")
			}
		}
		if nx && e != nil || xx && e == nil {
			if name == "setnx" {
				return vNum(0)
			}
			return vBool(false)
		}
		f.keys[key] = &entry{str: stored(a[2]), when: when}
		if name == "setnx" {
			return vNum(1)
		}
		return val{k: kTab, t: &tab{m: map[string]val{"ok": vStr("OK")}}}
	case "llen":
		if e == nil {
			return vNum(0)
		}
		if !e.isL {
			return wrong
		}
		return vNum(int64(len(e.list)))
	case "rpush", "lpush", "rpushx", "lpushx":
		if e != nil && !e.isL {
			return wrong
		}
		if e == nil && name[len(name)-1] == 'x' {
			return vNum(0)
		}
		if e == nil {
			e = &entry{isL: true}
			f.keys[key] = e
		}
		for _, x := range a[2:] {
			if name[0] == 'r' {
				e.list = append(e.list, stored(x))
			} else {
				e.list = append([]val{stored(x)}, e.list...)
			}
		}
		return vNum(int64(len(e.list)))
	case "lpop", "rpop":
		if e == nil {
			return vBool(false)
		}
		if !e.isL {
			return wrong
		}
		if len(a) > 2 {
			n, ok := num(2)
			if !ok || n < 0 {
				return fail("ERR value is out of range, must be positive")
			}
			c := sym.Concrete(int(n))
			var out []val
			for i := 0; i < c && len(e.list) > 0; i++ {
				if name == "lpop" {
					out = append(out, e.list[0])
					e.list = e.list[1:]
				} else {
					out = append(out, e.list[len(e.list)-1])
					e.list = e.list[:len(e.list)-1]
				}
			}
			if len(e.list) == 0 {
				delete(f.keys, key)
			}
			return val{k: kTab, t: &tab{arr: out}}
		}
		var x val
		if name == "lpop" {
			x = e.list[0]
			e.list = e.list[1:]
		} else {
			x = e.list[len(e.list)-1]
			e.list = e.list[:len(e.list)-1]
		}
		if len(e.list) == 0 {
			delete(f.keys, key)
		}
		return x
	case "lindex", "lrange", "ltrim":
		if e != nil && !e.isL {
			return wrong
		}
		var l []val
		if e != nil {
			l = e.list
		}
		n := int64(len(l))
		i, ok := num(2)
		if !ok {
			return fail("ERR value is not an integer or out of range")
		}
		if i < 0 {
			i += n
		}
		if name == "lindex" {
			if i < 0 || i >= n {
				return vBool(false)
			}
			return l[int(i)]
		}
		j, ok := num(3)
		if !ok {
			return fail("ERR value is not an integer or out of range")
		}
		if j < 0 {
			j += n
		}
		if i < 0 {
			i = 0
		}
		if j >= n {
			j = n - 1
		}
		var cut []val
		if i <= j {
			cut = append([]val(nil), l[sym.Concrete(int(i)):sym.Concrete(int(j))+1]...)
		}
		if name == "lrange" {
			return val{k: kTab, t: &tab{arr: cut}}
		}
		if len(cut) == 0 {
			delete(f.keys, key)
		} else {
			e.list = cut
		}
		return val{k: kTab, t: &tab{m: map[string]val{"ok": vStr("OK")}}}
	case "lset":
		if e == nil {
			return fail("ERR no such key")
		}
		if !e.isL {
			return wrong
		}
		i, ok := num(2)
		if !ok || len(a) != 4 {
			return fail("ERR value is not an integer or out of range")
		}
		if i < 0 {
			i += int64(len(e.list))
		}
		if i < 0 || i >= int64(len(e.list)) {
			return fail("ERR index out of range")
		}
		l := append([]val(nil), e.list...)
		l[sym.Concrete(int(i))] = stored(a[3])
		e.list = l
		return val{k: kTab, t: &tab{m: map[string]val{"ok": vStr("OK")}}}
	case "lrem":
		n, ok := num(2)
		if !ok || len(a) != 4 {
			return fail("ERR value is not an integer or out of range")
		}
		if e == nil {
			return vNum(0)
		}
		if !e.isL {
			return wrong
		}
		c := sym.Concrete(int(n))
		max, back := c, c < 0
		if back {
			max = -c
		}
		if c == 0 {
			max = len(e.list)
		}
		keep := make([]bool, len(e.list))
		gone := 0
		for x := range e.list {
			i := x
			if back {
				i = len(e.list) - 1 - x
			}
			same := false
			if gone < max {
				if p, q := toNumber(e.list[i]), toNumber(a[3]); p.k == kNum && q.k == kNum {
					same = p.n == q.n
				} else {
					same = text(e.list[i]) == text(a[3])
				}
			}
			if same {
				gone++
			} else {
				keep[i] = true
			}
		}
		var l []val
		for i, v := range e.list {
			if keep[i] {
				l = append(l, v)
			}
		}
		e.list = l
		if len(l) == 0 {
			delete(f.keys, key)
		}
		return vNum(int64(gone))
	case "getset", "getdel":
		if e != nil && e.isL {
			return wrong
		}
		if name == "getdel" {
			delete(f.keys, key)
		} else {
			f.keys[key] = &entry{str: stored(a[2])}
		}
		if e == nil {
			return vBool(false)
		}
		return e.str
	case "expireat", "pexpireat":
		n, ok := num(2)
		if !ok {
			return fail("ERR value is not an integer or out of range")
		}
		if e == nil {
			return vNum(0)
		}
		if name == "expireat" {
			n *= 1000
		}
		if n <= f.now {
			delete(f.keys, key)
		} else {
			e.when = n
		}
		return vNum(1)
	case "expire", "pexpire":
		n, ok := num(2)
		if !ok {
			return fail("ERR value is not an integer or out of range")
		}
		if e == nil {
			return vNum(0)
		}
		if name == "expire" {
			n *= 1000
		}
		if n <= 0 {
			delete(f.keys, key)
		} else {
			e.when = f.now + n
		}
		return vNum(1)
	case "persist":
		if e == nil || e.when == 0 {
			return vNum(0)
		}
		e.when = 0
		return vNum(1)
	case "del", "unlink":
		r := int64(0)
		for _, k := range a[1:] {
			if f.get(text(k)) != nil {
				r++
				delete(f.keys, text(k))
			}
		}
		return vNum(r)
	case "incr", "incrby", "decr", "decrby":
		d := int64(1)
		if len(name) > 4 {
			d, _ = num(2)
		}
		if name[0] == 'd' {
			d = -d
		}
		if e == nil {
			e = &entry{str: val{k: kStr, num: true}}
			f.keys[key] = e
		}
		if e.isL {
			return wrong
		}
		e.str = val{k: kStr, num: true, n: toNumber(e.str).n + d}
		return vNum(e.str.n)
	}
	sym.Unsupported("redis: command " + name)
	return val{}
}
