package redislim

import (
	"context"
	"errors"
	"io"
	"net"
	"strconv"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzverif/sym"
	"github.com/go-redis/redis/v7"
)

// hashes is a Redis server with hashes only.
type hashes struct {
	keys  []string
	hash  []map[string]string
	down  bool
	sent  int
	reply interface{}
	err   error

	expires bool // some key was given an expiry
}

func newHashes() (*hashes, *redis.Client) {
	h := &hashes{}
	c := redis.NewClient(&redis.Options{Addr: "127.0.0.1:1", IdleCheckFrequency: -1, MaxRetries: -1, PoolSize: 100, Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) { return nil, errHandled }})
	c.AddHook(h)
	return h, c
}

func (h *hashes) of(key string) map[string]string {
	for i, k := range h.keys {
		if k == key {
			return h.hash[i]
		}
	}
	return nil
}

var errRedis = errors.New("redis is down")

func (h *hashes) BeforeProcess(ctx context.Context, cmd redis.Cmder) (context.Context, error) {
	h.sent++
	h.reply, h.err = h.do(cmd.Args())
	return ctx, nil
}

func (h *hashes) do(args []interface{}) (interface{}, error) {
	if h.down {
		return nil, errRedis
	}
	var a []string
	for _, x := range args {
		s, ok := x.(string)
		if n, isInt := x.(int64); isInt {
			s, ok = strconv.FormatInt(n, 10), true
		}
		if !ok {
			sym.Unsupported("redis: argument type")
		}
		a = append(a, s)
	}
	switch a[0] {
	case "hset", "hmset":
		if len(a) < 4 || len(a)%2 != 0 {
			return nil, errors.New("ERR wrong number of arguments for '" + a[0] + "' command")
		}
		m := h.of(a[1])
		if m == nil {
			m = map[string]string{}
			h.keys = append(h.keys, a[1])
			h.hash = append(h.hash, m)
		}
		n := int64(0)
		for i := 2; i < len(a); i += 2 {
			if _, ok := m[a[i]]; !ok {
				n++
			}
			m[a[i]] = a[i+1]
		}
		return n, nil
	case "hdel":
		if len(a) < 3 {
			return nil, errors.New("ERR wrong number of arguments for 'hdel' command")
		}
		m := h.of(a[1])
		n := int64(0)
		for _, f := range a[2:] {
			if _, ok := m[f]; ok {
				delete(m, f)
				n++
			}
		}
		return n, nil
	case "hgetall":
		m := h.of(a[1])
		if m == nil {
			m = map[string]string{}
		}
		return m, nil
	case "hget":
		v, ok := h.of(a[1])[a[2]]
		if !ok {
			return "", redis.Nil
		}
		return v, nil
	case "hexists":
		_, ok := h.of(a[1])[a[2]]
		return b2i(ok), nil
	case "hlen":
		return int64(len(h.of(a[1]))), nil
	case "hsetnx":
		if _, ok := h.of(a[1])[a[2]]; ok {
			return int64(0), nil
		}
		return h.do([]interface{}{"hset", a[1], a[2], a[3]})
	case "del", "unlink":
		n := int64(0)
		for _, k := range a[1:] {
			for i := range h.keys {
				if h.keys[i] == k {
					h.keys = append(append([]string{}, h.keys[:i]...), h.keys[i+1:]...)
					h.hash = append(append([]map[string]string{}, h.hash[:i]...), h.hash[i+1:]...)
					n++
					break
				}
			}
		}
		return n, nil
	case "exists":
		n := int64(0)
		for _, k := range a[1:] {
			n += b2i(len(h.of(k)) > 0)
		}
		return n, nil
	case "expire", "pexpire", "expireat", "pexpireat":
		ok := len(h.of(a[1])) > 0
		h.expires = h.expires || ok
		return b2i(ok), nil
	}
	sym.Unsupported("redis: command " + a[0])
	return nil, nil
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (h *hashes) AfterProcess(ctx context.Context, cmd redis.Cmder) error {
	switch c := cmd.(type) {
	case *redis.IntCmd:
		n, _ := h.reply.(int64)
		*c = *redis.NewIntResult(n, h.err)
	case *redis.BoolCmd:
		n, isInt := h.reply.(int64)
		hm := cmd.Name() == "hmset"
		*c = *redis.NewBoolResult(h.err == nil && (hm || !isInt || n == 1), h.err)
	case *redis.StringCmd:
		s, _ := h.reply.(string)
		*c = *redis.NewStringResult(s, h.err)
	case *redis.StringStringMapCmd:
		m, _ := h.reply.(map[string]string)
		*c = *redis.NewStringStringMapResult(m, h.err)
	default:
		sym.Unsupported("redis: reply type")
	}
	return nil
}

func (h *hashes) BeforeProcessPipeline(ctx context.Context, cmds []redis.Cmder) (context.Context, error) {
	sym.Unsupported("redis: pipeline")
	return ctx, nil
}

func (h *hashes) AfterProcessPipeline(ctx context.Context, cmds []redis.Cmder) error { return nil }

// sink is a store that only takes what is loaded into it, and refuses some of it.
type sink struct {
	confstore.Interface
	k, v   []string
	refuse string
}

func (s *sink) UpdateNoPersist(k, v string) *confstore.KVError {
	if k == s.refuse {
		return &confstore.KVError{Key: k, Value: v, Error: "refused"}
	}
	s.k = append(s.k, k)
	s.v = append(s.v, v)
	return nil
}

// Update, too, in case a loader used it, would reach the persister.
func (s *sink) Update(k, v string) *confstore.KVError {
	sym.Fail("loading persists nothing")
	return nil
}

func put(l [][2]string, k, v string) [][2]string {
	for i := range l {
		if l[i][0] == k {
			l[i][1] = v
			return l
		}
	}
	return append(l, [2]string{k, v})
}

// Persist: n operations with arbitrary keys and values, then a load.
func Persist() {
	simplelog.ErrLogger.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	n := sym.Param("n", 3)
	h, c := newHashes()
	other := map[string]string{"a": "foreign"}
	foreign := "other"
	if sym.Bool("namesake") { // another application's hash has the name of one of the keys
		foreign = "a"
	}
	h.keys, h.hash = []string{foreign}, []map[string]string{other}
	p := confstore.NewRedisPersister(c, "root")
	var want [][2]string
	ks := []string{"a", "b"}
	for i := 0; i < n; i++ {
		h.down = sym.Bool("down")
		switch sym.Choose("op", 4) {
		case 0:
			k := ks[sym.Choose("key", 2)]
			v := sym.StringUpTo("v", 0, 1)
			err := p.Save(k, v)
			sym.Assert((err != nil) == h.down, "errors of Redis are returned")
			if !h.down {
				want = put(want, k, v)
			}
		case 1:
			m := sym.Choose("size", 3)
			var l []*confstore.KVStr
			for j := 0; j < m; j++ {
				e := &confstore.KVStr{Key: ks[sym.Choose("key", 2)], Value: sym.StringUpTo("v", 0, 1)}
				l = append(l, e)
				if !h.down {
					want = put(want, e.Key, e.Value)
				}
			}
			sent := h.sent
			err := p.BatchSave(l)
			if m == 0 {
				sym.Assert(err == nil && h.sent == sent, "saving nothing sends nothing")
			} else {
				sym.Assert((err != nil) == h.down, "errors of Redis are returned")
			}
		case 2:
			k := ks[sym.Choose("key", 2)]
			err := p.Delete(k)
			sym.Assert((err != nil) == h.down, "errors of Redis are returned")
			if !h.down {
				for j := range want {
					if want[j][0] == k {
						want = append(append([][2]string{}, want[:j]...), want[j+1:]...)
						break
					}
				}
			}
		case 3:
			checkLoad(h, p, want, "")
		}
	}
	h.down = false
	checkLoad(h, p, want, []string{"", "a"}[sym.Choose("refuse", 2)])
	sym.Assert(h.of(foreign) != nil && len(other) == 1 && other["a"] == "foreign", "other hashes are untouched")
	for _, k := range h.keys {
		sym.Assert(k == foreign || k == "root", "nothing is stored under other keys")
	}
	sym.Assert(!h.expires, "saved pairs stay until they are deleted")
	sym.Cover("end")
}

func checkLoad(h *hashes, p confstore.Persister, want [][2]string, refuse string) {
	s := &sink{refuse: refuse}
	err := p.Load(s)
	if h.down {
		sym.Assert(errors.Is(err, errRedis), "an error while loading is returned")
		sym.Assert(len(s.k) == 0, "a failed load changes nothing")
		return
	}
	sym.Assert(err == nil, "a load succeeds when Redis does")
	n := 0
	for _, w := range want {
		found := false
		for i := range s.k {
			if s.k[i] == w[0] {
				sym.Assert(s.v[i] == w[1], "each key is loaded with the last value saved for it")
				found = true
			}
		}
		if w[0] == refuse {
			continue
		}
		n++
		sym.Assert(found, "every saved pair is loaded, though others are refused")
	}
	sym.Assert(len(s.k) == n, "nothing else is loaded")
}

// LoadMany: more pairs, any of which the store refuses.
func LoadMany() {
	simplelog.ErrLogger.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	_, c := newHashes()
	p := confstore.NewRedisPersister(c, "root")
	s := confstore.NewStore(p, confstore.NoopLoadPolicy)
	names := []string{"a", "b", "c", "d", "e", "f"}
	n := sym.Choose("n", sym.Param("n", 4)+1)
	var l []*confstore.KVStr
	var ok []bool
	for i := 0; i < n; i++ {
		v := sym.String("v", 1)
		good := v[0] >= '0' && v[0] <= '9'
		known := sym.Bool("registered")
		if known {
			s.RegisterKey(names[i], "77", confstore.IntProcessor(0, true, 99, true))
		}
		ok = append(ok, good && known)
		l = append(l, &confstore.KVStr{Key: names[i], Value: v})
	}
	sym.Assert(p.BatchSave(l) == nil, "saving succeeds")
	sym.Assert(p.Load(s) == nil, "a load succeeds though pairs are refused")
	for i, e := range l {
		x, hit := s.GetValueString(e.Key)
		if ok[i] {
			sym.Assert(hit && x == e.Value, "every saved pair that the store accepts is loaded, though others are refused")
		} else {
			sym.Assert(!hit || x == "77", "pairs that the store refuses are skipped")
		}
	}
	// Loading takes nothing away: what one store refuses, another may accept.
	all := &sink{refuse: "-none-"}
	sym.Assert(p.Load(all) == nil, "loading succeeds")
	sym.Assert(len(all.k) == len(l), "pairs that a store has refused are still saved")
	sym.Cover("end")
}

// PersistKeys: arbitrary keys, equal or not.
func PersistKeys() {
	simplelog.ErrLogger.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	h, c := newHashes()
	n := sym.Param("len", 2)
	p := confstore.NewRedisPersister(c, sym.StringUpTo("root", 0, 1))
	k1, k2 := sym.StringUpTo("k1", 0, n), sym.StringUpTo("k2", 0, n)
	v1, v2 := sym.StringUpTo("v1", 0, n), sym.StringUpTo("v2", 0, 1)
	sym.Assert(p.Save(k1, v1) == nil, "saving succeeds")
	sym.Assert(p.BatchSave([]*confstore.KVStr{{Key: k2, Value: v2}}) == nil, "saving succeeds")
	s := &sink{refuse: "-none-"}
	sym.Assert(p.Load(s) == nil, "loading succeeds")
	got := func(k string) (string, bool) {
		for i := range s.k {
			if s.k[i] == k {
				return s.v[i], true
			}
		}
		return "", false
	}
	same := k1 == k2
	x, ok := got(k2)
	sym.Assert(ok && x == v2, "the last value saved for a key is loaded")
	x, ok = got(k1)
	if !same {
		sym.Assert(ok && x == v1, "the value saved for another key is loaded")
	}
	h.down = true
	sym.Assert(p.Delete(k1) != nil && p.Save(k1, v2) != nil, "errors of Redis are returned, whatever the key")
	h.down = false
	sym.Assert(p.Delete(k1) == nil, "deleting succeeds")
	s = &sink{refuse: "-none-"}
	sym.Assert(p.Load(s) == nil, "loading succeeds")
	_, ok = got(k1)
	sym.Assert(!ok, "a deleted key is not loaded")
	_, ok = got(k2)
	sym.Assert(ok == !same, "other keys are still there")
	sym.Cover("end")
}

// Restart: a store on Redis, restarted, reads what it read before.
func Restart() {
	simplelog.ErrLogger.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	_, c := newHashes()
	mk := func() confstore.Interface {
		s := confstore.NewStore(confstore.NewRedisPersister(c, "root"), confstore.SimpleLoadPolicy)
		s.RegisterKey("a", "1", confstore.Int)
		s.RegisterKey("b", "x", confstore.StringProcessor(0, 1))
		return s
	}
	s := mk()
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		k := []string{"a", "b"}[sym.Choose("key", 2)]
		v := sym.StringUpTo("v", 0, 2)
		switch sym.Choose("op", 3) {
		case 0:
			s.Update(k, v)
		case 1:
			s.BatchUpdate([]*confstore.KVStr{{Key: k, Value: v}, {Key: "b", Value: "q"}})
		case 2:
			s.ResetKey(k)
		}
	}
	t := mk()
	for _, k := range []string{"a", "b"} {
		x, _ := s.GetValueString(k)
		y, _ := t.GetValueString(k)
		sym.Assert(x == y, "a restarted store reads the same values")
		x1, _ := s.GetValue(k)
		y1, _ := t.GetValue(k)
		sym.Assert(x1 == y1, "a restarted store reads the same typed values")
	}
	sym.Cover("end")
}
