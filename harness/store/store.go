// Package store: the config store, its load policies, value processors and Redis persister.
package store

import (
	"errors"
	"io"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzverif/sym"
)

// hush keeps the log out of the way.
func hush() {
	simplelog.ErrLogger.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
}

// typed is what the harness's processor converts to.
type typed struct {
	limit int
	v     string
}

// proc accepts the empty value and one-byte values, as far as they are below a limit.
type proc struct{ limit int }

func (p *proc) ok(v string) bool {
	if len(v) == 0 {
		return p.limit > 0
	}
	return len(v) == 1 && int(v[0])+1 < p.limit
}

// conv is what an accepted value converts to: the value with the processor it is from, or nil for the empty value.
func (p *proc) conv(v string) interface{} {
	if v == "" {
		return nil
	}
	return typed{p.limit, v}
}

func (p *proc) Validate(v string) (bool, string) {
	if p.ok(v) {
		return true, ""
	}
	return false, "refused"
}

func (p *proc) Convert(v string) interface{} {
	if !p.ok(v) {
		sym.Fail("a refused value is never converted")
	}
	return p.conv(v)
}

type pair struct{ k, v string }

// list is an insertion-ordered map of pairs.
type list []pair

func (l list) find(k string) int {
	for i := range l {
		if l[i].k == k {
			return i
		}
	}
	return -1
}

func (l list) with(k, v string) list {
	if i := l.find(k); i >= 0 {
		l[i].v = v
		return l
	}
	return append(l, pair{k, v})
}

func (l list) without(k string) list {
	if i := l.find(k); i >= 0 {
		return append(append(list{}, l[:i]...), l[i+1:]...)
	}
	return l
}

// persister remembers what it was handed.
type persister struct {
	data  list
	fail  bool
	loads int
}

var errDown = errors.New("down")

func (p *persister) Load(s confstore.Interface) error {
	p.loads++
	if p.fail {
		return errDown
	}
	for _, e := range p.data {
		s.UpdateNoPersist(e.k, e.v)
	}
	return nil
}

func (p *persister) Save(k, v string) error {
	if p.fail {
		return errDown
	}
	p.data = p.data.with(k, v)
	return nil
}

func (p *persister) BatchSave(l []*confstore.KVStr) error {
	if p.fail {
		return errDown
	}
	for _, e := range l {
		p.data = p.data.with(e.Key, e.Value)
	}
	return nil
}

func (p *persister) Delete(k string) error {
	if p.fail {
		return errDown
	}
	p.data = p.data.without(k)
	return nil
}

// model is the specification of the store.
type model struct {
	procs    map[string]*proc
	def, cur list
	pers     list
	loads    bool
}

func (m *model) update(k, v string) bool {
	p := m.procs[k]
	if p == nil || !p.ok(v) {
		return false
	}
	m.cur = m.cur.with(k, v)
	return true
}

func (m *model) read(k string) (string, bool) {
	if m.procs[k] == nil {
		return "", false
	}
	if i := m.cur.find(k); i >= 0 {
		return m.cur[i].v, true
	}
	return m.def[m.def.find(k)].v, true
}

func (m *model) load() {
	if !m.loads {
		return
	}
	for _, e := range m.pers {
		m.update(e.k, e.v)
	}
}

func must(f func()) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	f()
	return
}

// checkKey compares every way of reading a key with the model.
func checkKey(s confstore.Interface, m *model, k string) {
	m.load()
	want, hit := m.read(k)
	v, h := s.GetValueString(k)
	sym.Assert(h == hit, "exactly the registered keys are found")
	sym.Assert(v == want, "the string read is the last accepted value or the default")
	x, h := s.GetValue(k)
	sym.Assert(h == hit, "exactly the registered keys have a typed value")
	sym.Assert(hit == !must(func() { s.MustGetValue(k) }), "MustGetValue panics exactly for missing keys")
	sym.Assert(hit == !must(func() { s.MustGetValueString(k) }), "MustGetValueString panics exactly for missing keys")
	bs := s.BatchGetValueString([]string{k})
	bv := s.BatchGetValues([]string{k})
	if !hit {
		sym.Assert(x == nil, "a missing key has no typed value")
		sym.Assert(len(bs) == 0 && len(bv) == 0, "batch reads leave missing keys out")
		return
	}
	conv := m.procs[k].conv(want)
	sym.Assert(x == conv, "the typed value is the conversion of the string")
	sym.Assert(s.MustGetValueString(k) == want, "MustGetValueString reads the same")
	sym.Assert(s.MustGetValue(k) == conv, "MustGetValue reads the same")
	sym.Assert(len(bs) == 1 && bs[0].Key == k && bs[0].Value == want, "BatchGetValueString reads the same")
	sym.Assert(len(bv) == 1 && bv[0].Key == k, "BatchGetValues reads the same key")
	sym.Assert(bv[0].Value == conv, "BatchGetValues reads the same")
	// what was returned is the caller's
	bs[0].Key, bs[0].Value, bv[0].Key, bv[0].Value = "y", "y", "y", "y"
}

func samePers(p *persister, m *model) {
	ok := len(p.data) == len(m.pers)
	for _, e := range m.pers {
		i := p.data.find(e.k)
		ok = ok && i >= 0 && p.data[i].v == e.v
	}
	sym.Assert(ok, "the persister holds exactly the accepted and persisted pairs")
}

func reported(e *confstore.KVError, ok bool, k, v string) {
	if ok {
		sym.Assert(e == nil, "an accepted update reports no error")
		return
	}
	sym.Assert(e != nil, "a refused update is reported")
	sym.Assert(e.Key == k && e.Value == v && e.Error != "", "a refused update is reported with key, value and reason")
}

const limit1 = 100

// History: n operations with arbitrary keys and values, compared with the model.
func History() {
	hush()
	n := sym.Param("n", 3)
	p := &persister{}
	m := &model{procs: map[string]*proc{}}
	var s confstore.Interface
	if sym.Param("load", 0) == 1 {
		m.loads = true
		s = confstore.NewStore(p, confstore.SimpleLoadPolicy)
	} else {
		s = confstore.NewStore(p, confstore.NoopLoadPolicy)
	}
	keys := []string{"", "a", "b"}
	if sym.Param("prior", 0) == 1 { // persisted by an earlier process
		p.data = p.data.with("a", "p").with("b", "q")
		m.pers = m.pers.with("a", "p").with("b", "q")
	}
	// another store
	s2 := confstore.NewStore(&persister{}, confstore.NoopLoadPolicy)
	s2.RegisterKey("a", "o", &proc{128})
	s2.UpdateNoPersist("a", "u")
	// a registered key to begin with
	s.RegisterKey("a", "d", &proc{128})
	m.procs["a"] = &proc{128}
	m.def = m.def.with("a", "d")
	for i := 0; i < n; i++ {
		k := keys[sym.Choose("key", len(keys))]
		p.fail = false
		if sym.Param("faults", 0) == 1 {
			p.fail = sym.Bool("fail")
		}
		switch sym.Choose("op", 6) {
		case 0:
			v := sym.StringUpTo("v", 0, 1)
			var vp confstore.ValueProcessor
			q := &proc{sym.Int("limit", 0, 256)}
			kind := sym.Choose("proc", 3)
			switch kind {
			case 0:
				vp = q
			case 1:
				vp = (*proc)(nil)
			}
			ok := k != "" && kind == 0 && m.procs[k] == nil && q.ok(v)
			err := s.RegisterKey(k, v, vp)
			sym.Assert((err == nil) == ok, "registration is refused exactly for an empty or taken key, a missing processor or an invalid default")
			if ok {
				m.procs[k] = q
				m.def = m.def.with(k, v)
			}
		case 1:
			v := sym.StringUpTo("v", 0, 1)
			ok := k == "" || m.update(k, v)
			reported(s.Update(k, v), ok, k, v)
			if ok && k != "" && !p.fail {
				m.pers = m.pers.with(k, v)
			}
		case 2:
			v := sym.StringUpTo("v", 0, 1)
			ok := k == "" || m.update(k, v)
			reported(s.UpdateNoPersist(k, v), ok, k, v)
		case 3:
			k2 := keys[sym.Choose("key2", len(keys))]
			v, v2 := sym.String("v", 1), sym.String("v2", 1)
			in := []*confstore.KVStr{{Key: k, Value: v}, {Key: k2, Value: v2}}
			var bad list
			for _, e := range in {
				if e.Key == "" {
					continue
				}
				if !m.update(e.Key, e.Value) {
					bad = append(bad, pair{e.Key, e.Value})
				} else if !p.fail {
					m.pers = m.pers.with(e.Key, e.Value)
				}
			}
			es := s.BatchUpdate(in)
			sym.Assert(len(es) == len(bad), "each refused entry of a batch is reported once")
			for i, b := range bad {
				reported(es[i], false, b.k, b.v)
			}
			for _, e := range in { // the caller's again
				e.Key, e.Value = "x", "x"
			}
		case 4:
			s.ResetKey(k)
			m.cur = m.cur.without(k)
			if !p.fail {
				m.pers = m.pers.without(k)
			}
		case 5:
			s.DeregisterKey(k)
			if k != "" {
				delete(m.procs, k)
				m.cur = m.cur.without(k)
				m.def = m.def.without(k)
				if !p.fail {
					m.pers = m.pers.without(k)
				}
			}
		}
		p.fail = false
		samePers(p, m)
		if sym.Param("restart", 0) == 0 {
			checkKey(s, m, k)
		}
	}
	for _, k := range keys {
		checkKey(s, m, k)
	}
	v, hit := s2.GetValueString("a")
	_, other := s2.GetValueString("b")
	sym.Assert(hit && v == "u" && !other, "another store is not concerned")
	if sym.Param("restart", 0) == 1 {
		s2 := confstore.NewStore(p, confstore.SimpleLoadPolicy)
		m2 := &model{procs: m.procs, def: m.def, pers: m.pers, loads: true}
		for _, k := range keys {
			if q := m.procs[k]; q != nil {
				sym.Assert(s2.RegisterKey(k, m.def[m.def.find(k)].v, q) == nil, "a restarted store takes the same registrations")
			}
		}
		for _, k := range keys {
			checkKey(s2, m2, k)
		}
	}
	sym.Cover("end")
}

// Batch: one batch update of n entries, with repeated, unknown and empty keys and refused values in
// any places, then a restart.
func Batch() {
	hush()
	n := sym.Param("n", 4)
	p := &persister{}
	m := &model{procs: map[string]*proc{"a": {128}, "b": {60}}}
	s := confstore.NewStore(p, confstore.NoopLoadPolicy)
	m.def = m.def.with("a", "d").with("b", "")
	s.RegisterKey("a", "d", m.procs["a"])
	s.RegisterKey("b", "", m.procs["b"])
	keys := []string{"a", "b", "c", ""}
	var in []*confstore.KVStr
	var bad list
	for i := 0; i < n; i++ {
		k, v := keys[sym.Choose("key", len(keys))], sym.StringUpTo("v", 0, 1)
		in = append(in, &confstore.KVStr{Key: k, Value: v})
		if k == "" {
			continue
		}
		if m.update(k, v) {
			m.pers = m.pers.with(k, v)
		} else {
			bad = append(bad, pair{k, v})
		}
	}
	es := s.BatchUpdate(in)
	sym.Assert(len(es) == len(bad), "each refused entry of a batch is reported once")
	for i, b := range bad {
		reported(es[i], false, b.k, b.v)
	}
	samePers(p, m)
	for _, e := range in { // the caller's again
		e.Key, e.Value = "x", "x"
	}
	for _, k := range keys {
		checkKey(s, m, k)
	}
	var ks []string
	var want []string
	for _, k := range []string{"b", "", "c", "a", "b"} {
		ks = append(ks, k)
		if v, hit := m.read(k); hit {
			want = append(want, k, v)
		}
	}
	bs, bv := s.BatchGetValueString(ks), s.BatchGetValues(ks)
	sym.Assert(2*len(bs) == len(want) && 2*len(bv) == len(want), "batch reads leave out exactly the missing keys")
	for i := range bs {
		k, v := want[2*i], want[2*i+1]
		sym.Assert(bs[i].Key == k && bs[i].Value == v, "batch reads give each key its value, in order")
		sym.Assert(bv[i].Key == k && bv[i].Value == m.procs[k].conv(v), "batch reads give each key its typed value, in order")
	}
	sym.Cover("end")
}
