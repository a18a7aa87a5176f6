// Package redislim: the Redis TTL limiter, with its Lua scripts executed against a model of Redis.
package redislim

import (
	"context"
	"time"

	"github.com/go-redis/redis/v7"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zzverif/sym"
)

const (
	second = int64(1000000000)
	milli  = int64(1000000)
)

type params struct{ c, w, e int }

func (p *params) GetWindowSizeSeconds() int { return p.w }
func (p *params) GetCapacity() int          { return p.c }
func (p *params) GetTimeoutSeconds() int    { return p.e }

func documented(r *ratelimiter.Result, e int) {
	if !r.Block {
		sym.Assert(sym.And(!r.Triggered, r.Ttl == 0), "a passed result is not triggered and has ttl 0")
		sym.Assert(r.Msg == "", "a passed result has no message")
		return
	}
	sym.Assert(sym.And(r.Ttl >= 1, r.Ttl <= e), "a blocked result tells a ttl between 1 and the timeout")
}

// oracle of one block key with the keys that share it
type oracle struct {
	blockedAt int64 // 0: never
	msg       string
	passes    [2][]int64
}

// History: n requests of two keys that share a block key, at arbitrary instants,
// checked against the rules.
func History() {
	n := sym.Param("n", 4)
	f, c := newFake()
	p := &params{c: sym.Int("cap", 1, n-1), w: sym.Int("win", 1, 1<<20), e: sym.Int("timeout", 1, 1<<20)}
	sym.Advance(dur(sym.Int64("d0", 0, second)))
	ratelimiter.LoadScript(c)
	l := ratelimiter.NewRedisTtlRateLimiter(c, p)
	if sym.Param("cluster", 0) == 1 {
		l = ratelimiter.NewRedisTtlRateLimiterCluster(c, p, "t")
	}
	sym.Assert(l.GetCapacity() == p.c && l.GetWindowSizeSeconds() == p.w && l.GetTimeoutSeconds() == p.e, "the parameters are reported")
	shared := sym.Param("shared", 0) == 1
	o := &oracle{}
	ws, es := int64(p.w)*second, int64(p.e)*second
	msgs := []string{"m0", "m1", "m2", "m3", "m4", "m5"}
	for i := 0; i < n; i++ {
		sym.Advance(dur(sym.Int64("d", 0, 3<<20*second)))
		t := sym.Now()
		k := 0
		if shared {
			k = sym.Choose("key", 2)
		}
		var r *ratelimiter.Result
		if sym.Param("isblocked", 0) == 1 {
			b := l.IsBlocked("b")
			documented(b, p.e)
			r = l.ShouldBlock2([]string{"k0", "k1"}[k], "b", msgs[i])
			sym.Assert(b.Block == (r.Block && !r.Triggered), "IsBlocked says what a request would meet")
			if b.Block {
				sym.Assert(b.Ttl == r.Ttl && !b.Triggered, "IsBlocked tells the same ttl")
				sym.Assert(b.Msg == r.Msg, "IsBlocked tells the same message")
			}
		} else {
			r = l.ShouldBlock2([]string{"k0", "k1"}[k], "b", msgs[i])
		}
		if sym.Param("forms", 0) == 1 {
			documented(r, p.e)
		}
		live := o.blockedAt != 0
		if live {
			dt := t - o.blockedAt
			if r.Block && !r.Triggered {
				// the block is over at the latest a millisecond after the timeout
				sym.Assert(dt < es+2*milli, "a block ends when the timeout has passed")
				sym.Assert(r.Msg == o.msg, "later requests are told the message of the triggering one")
				sym.Cover("blocked")
				continue
			}
			sym.Assert(dt >= es, "every request is blocked, and not marked as triggering, until the timeout has passed")
		} else {
			sym.Assert(!r.Block || r.Triggered, "no request is blocked before a block was triggered")
		}
		// number of earlier passes of this key that certainly/possibly fall in the window
		sure, may := 0, 0
		for _, q := range o.passes[k] {
			sure += sym.B2I(t-q <= ws)
			may += sym.B2I(t-q < ws+second)
		}
		if r.Block {
			sym.Assert(may >= p.c, "a request is blocked only when capacity requests passed within the window (to a second)")
			sym.Assert(r.Msg == msgs[i], "the triggering request is told its own message")
			o.blockedAt = t
			o.msg = msgs[i]
			sym.Cover("triggered")
		} else {
			sym.Assert(sure < p.c, "no more than capacity requests of a key pass within the window")
			o.passes[k] = append(o.passes[k], t)
			sym.Cover("passed")
		}
	}
	_ = f
	sym.Cover("end")
}

func dur(n int64) time.Duration { return time.Duration(n) }

// Separate: requests of one key and block key have no influence on others.
func Separate() {
	n := sym.Param("n", 3)
	_, c := newFake()
	p := &params{c: 1, w: sym.Int("win", 1, 1000), e: sym.Int("timeout", 1, 1000)}
	sym.Advance(dur(sym.Int64("d0", 0, second)))
	ratelimiter.LoadScript(c)
	l := ratelimiter.NewRedisTtlRateLimiter(c, p)
	if sym.Choose("cluster", 2) == 1 {
		l = ratelimiter.NewRedisTtlRateLimiterCluster(c, p, "{t}")
	}
	ks := []string{"a", "b"}
	for i := 0; i < n; i++ {
		sym.Advance(dur(sym.Int64("d", 0, 3000*second)))
		l.ShouldBlock(ks[0], "m")
	}
	r := l.IsBlocked(ks[1])
	sym.Assert(!r.Block, "a block key that no request used is not blocked")
	r = l.ShouldBlock(ks[1], "x")
	sym.Assert(!r.Block, "the first request of a key passes")
	sym.Cover("end")
}

// Keys: any two pairs of key and block key; equal ones share their limits and others do not.
func Keys() {
	_, c := newFake()
	n := sym.Param("len", 2)
	p := &params{c: 1, w: 1000, e: 1000}
	ratelimiter.LoadScript(c)
	l := ratelimiter.NewRedisTtlRateLimiter(c, p)
	if sym.Choose("cluster", 2) == 1 {
		l = ratelimiter.NewRedisTtlRateLimiterCluster(c, p, "t")
	}
	k1, k2 := sym.StringUpTo("k1", 0, n), sym.StringUpTo("k2", 0, n)
	switch sym.Choose("tagged", 3) {
	case 1:
		k1, k2 = "{t}"+k1, "{t}"+k2
	case 2:
		k1, k2 = k1+"{t}", k2+"{t}"
	}
	m := sym.StringUpTo("msg", 0, n)
	form := sym.Choose("form", 4)
	ask := func(k, m string) *ratelimiter.Result {
		switch form {
		case 1:
			return l.ShouldBlockContext(context.Background(), k, m)
		case 2:
			return l.ShouldBlock2(k, k, m)
		case 3:
			return l.ShouldBlock2Context(context.Background(), k, k, m)
		}
		return l.ShouldBlock(k, m)
	}
	blocked := func(k string) *ratelimiter.Result {
		if form%2 == 1 {
			return l.IsBlockedContext(context.Background(), k)
		}
		return l.IsBlocked(k)
	}
	r := ask(k1, "")
	sym.Assert(!r.Block, "the first request passes")
	r = ask(k1, m)
	sym.Assert(r.Block && r.Triggered, "the second request triggers a block")
	sym.Assert(r.Msg == m && r.Ttl == p.e, "the triggering request is told its message and the timeout")
	same := k1 == k2
	r = blocked(k2)
	sym.Assert(r.Block == same, "a block key is blocked exactly when it is the one that was triggered")
	if same {
		sym.Assert(!r.Triggered, "asking does not trigger")
		sym.Assert(r.Msg == m, "asking tells the message of the triggering request")
	}
	r = ask(k2, "z")
	sym.Assert(r.Block == same, "requests of other keys are unaffected")
	if same {
		sym.Assert(!r.Triggered && r.Msg == m, "later requests are told the message of the triggering one")
	}
	sym.Cover("end")
}

// Slot: all keys that a cluster limiter's calls name carry its hash tag, so that they are in one slot of
// the cluster: the part of a key between its first opening and the next closing brace decides the slot.
func Slot() {
	f, c := newFake()
	f.slots = true
	n := sym.Param("len", 2)
	p := &params{c: 1, w: 1000, e: 1000}
	ratelimiter.LoadScript(c)
	tag := sym.StringUpTo("tag", 1, n)
	for i := 0; i < len(tag); i++ {
		sym.Assume(tag[i] != '{' && tag[i] != '}')
	}
	given := tag
	if sym.Choose("braces", 2) == 1 {
		given = "{" + tag + "}"
	}
	l := ratelimiter.NewRedisTtlRateLimiterCluster(c, p, given)
	bare := ratelimiter.NewRedisTtlRateLimiter(c, p)
	l.ShouldBlock2("a", "b", "m")
	sym.Assert(!bare.ShouldBlock2("a", "x", "m").Block, "a limiter without the tag does not share the limits")
	f.touched = nil
	l.IsBlocked("b")
	sym.Assert(l.ShouldBlock2("a", "b", "m").Block, "the limits of the tag are kept")
	l.IsBlocked("b")
	l.ShouldBlock2Context(context.Background(), "a", "b", "m")
	l.IsBlockedContext(context.Background(), "b")
	l.ShouldBlock("c", "")
	l.ShouldBlockContext(context.Background(), "c", "")
	sym.Assert(len(f.touched) > 0, "the calls name keys")
	for _, k := range f.touched {
		o := 0
		for o < len(k) && k[o] != '{' {
			o++
		}
		e := o + 1
		for e < len(k) && k[e] != '}' {
			e++
		}
		sym.Assert(e < len(k) && k[o+1:e] == tag, "all keys of a cluster limiter have its hash tag")
	}
	sym.Cover("end")
}

// loads tells whether the scripts were loaded without a panic.
func loads(c *redis.Client) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if err, isErr := r.(error); isErr {
				if _, stop := sym.IsStop(err); stop {
					panic(r)
				}
			}
			ok = false
		}
	}()
	ratelimiter.LoadScript(c)
	return true
}

// Down: Redis fails at an arbitrary request.
func Down() {
	n := sym.Param("n", 4)
	f, c := newFake()
	p := &params{c: 1, w: 100, e: 100}
	f.down = sym.Bool("start")
	sym.Assert(f.down == !loads(c), "scripts that cannot be loaded are reported by a panic")
	if f.down {
		f.down = false
		sym.Assert(loads(c), "scripts can be loaded later")
	}
	l := ratelimiter.NewRedisTtlRateLimiter(c, p)
	for i := 0; i < n; i++ {
		f.down = sym.Bool("down")
		var r *ratelimiter.Result
		switch sym.Choose("op", 3) {
		case 0:
			r = l.ShouldBlock("k", "m")
		case 1:
			r = l.IsBlocked("k")
		case 2:
			r = l.ShouldBlock2Context(context.Background(), "k", "k", "m")
		}
		documented(r, p.e)
		if f.down {
			sym.Assert(!r.Block, "requests pass when Redis fails")
		}
	}
	sym.Cover("end")
}

// Params: parameters of any sign; without a limit everything passes.
func Params() {
	n := sym.Param("n", 3)
	_, c := newFake()
	p := &params{c: sym.Int("cap", -2, 2), w: sym.Int("win", -2, 2), e: sym.Int("timeout", -2, 2)}
	ratelimiter.LoadScript(c)
	l := ratelimiter.NewRedisTtlRateLimiter(c, p)
	limited := p.c > 0 && p.w > 0 && p.e > 0
	for i := 0; i < n; i++ {
		r := l.ShouldBlock("k", "m")
		if !limited {
			sym.Assert(!r.Block && !r.Triggered && r.Ttl == 0 && r.Msg == "", "everything passes when a parameter is not positive")
		} else {
			documented(r, p.e)
			sym.Assert(r.Block == (i >= p.c), "capacity requests pass")
		}
		if !limited {
			b := l.IsBlocked("k")
			sym.Assert(!b.Block, "nothing is blocked when a parameter is not positive")
		}
	}
	sym.Cover("end")
}

// Change: the parameters change between requests.
func Change() {
	n := sym.Param("n", 4)
	_, c := newFake()
	p := &params{c: sym.Int("cap", 1, n-1), w: 10, e: 10}
	ratelimiter.LoadScript(c)
	l := ratelimiter.NewRedisTtlRateLimiter(c, p)
	at := sym.Choose("at", n)
	var passes []int64
	low := p.c // the lowest capacity so far
	for i := 0; i < n; i++ {
		if i == at {
			p.c = sym.Int("cap2", 1, n-1)
			low = sym.IteInt(p.c < low, p.c, low)
		}
		sym.Advance(dur(sym.Int64("d", 0, 5*second)))
		r := l.ShouldBlock("k", "m")
		if r.Block && !r.Triggered {
			sym.Cover("end")
			return
		}
		t := sym.Now()
		sure, may := 0, 0
		for _, q := range passes {
			sure += sym.B2I(t-q <= 10*second)
			may += sym.B2I(t-q < 11*second)
		}
		if r.Block {
			sym.Assert(may >= p.c, "a request is blocked only when the present capacity is used up")
		} else {
			sym.Assert(sure < p.c, "no more than the present capacity pass within the window")
			passes = append(passes, t)
		}
	}
	sym.Cover("end")
}
