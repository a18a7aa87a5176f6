// Package bus: harnesses for the fan-out event bus.
package bus

import (
	"sync"
	"time"

	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/zzverif/sym"
)

func events(m int) []int {
	var r []int
	for i := 0; i < m; i++ {
		r = append(r, sym.Int("event", 0, 1000000))
	}
	return r
}

func sendAll(b *event.FanOutBus, evs []int) {
	for _, e := range evs {
		b.C <- e
	}
}

// closed reports whether ch is closed, once emptied (never blocks).
func closed(ch <-chan interface{}) bool {
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return true
			}
		default:
			return false
		}
	}
}

// same asserts that got is exactly want.
func same(got []interface{}, want []int, label string) {
	sym.Assert(len(got) == len(want), label)
	for i := range want {
		if i < len(got) {
			v, ok := got[i].(int)
			sym.Assert(ok, label)
			sym.Assert(v == want[i], label)
		}
	}
}

// Blocking: a blocking receiver gets every event once and in order; a dropping
// receiver nobody reads keeps exactly the first events that fit its buffer.
func Blocking() {
	m := sym.Param("m", 2)
	evs := events(m)
	b := event.NewFanOutBus(sym.Int("busbuf", 0, 1))
	rb := sym.Int("buf", 0, sym.Param("buf", 1))
	db := sym.Int("dropbuf", 0, sym.Param("buf", 1)+1)
	r := b.NewRecvStrategy("block", rb, event.Block)
	d := b.NewRecv("drop", db)
	b.GoDispatch()
	var got []interface{}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		for i := 0; i < m; i++ {
			got = append(got, <-r.C)
		}
		wg.Done()
	}()
	go func() {
		sendAll(b, evs)
		wg.Done()
	}()
	wg.Wait()
	sym.Quiesce()
	same(got, evs, "a blocking receiver gets every event once and in order")
	select {
	case <-r.C:
		sym.Fail("nothing is delivered twice")
	default:
	}
	n := db
	if n > m {
		n = m
	}
	same(d.Drain(), evs[:n], "a receiver misses an event only if its buffer is full")
	b.Close()
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "the dispatcher ends when the bus is closed")
	sym.Cover("end")
}

// Slow: a blocking receiver that is not read for an arbitrary time, then gets
// everything, in order, beside receivers that are full.
func Slow() {
	extra := sym.Param("extra", 2)
	buf := sym.Int("buf", 0, sym.Param("buf", 1))
	m := buf + extra
	evs := events(m)
	b := event.NewFanOutBus(m)
	r := b.NewRecvStrategy("block", buf, event.Block)
	b.GoDispatch()
	sendAll(b, evs)
	sym.Quiesce()
	sym.Advance(sym.Duration("pause", 0, 10000*time.Hour))
	sym.Quiesce()
	k := sym.Int("k", 0, m)
	var got []interface{}
	next := func() {
		sym.Quiesce()
		select {
		case x := <-r.C:
			got = append(got, x)
		default:
			sym.Fail("a blocking receiver gets every event, however late it reads")
		}
	}
	for i := 0; i < k; i++ {
		next()
	}
	if k > 0 && k < m {
		sym.Advance(sym.Duration("pause2", 0, 10000*time.Hour))
		sym.Quiesce()
	}
	for i := k; i < m; i++ {
		next()
	}
	same(got, evs, "a blocking receiver gets every event once and in order, however late it reads")
	sym.Quiesce()
	same(r.Drain(), nil, "nothing is delivered twice")
	b.Close()
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "the dispatcher ends when the bus is closed")
	sym.Cover("end")
}

// Dropping: a dropping receiver with a reader of its own.
func Dropping() {
	m := sym.Param("m", 2)
	evs := events(m)
	b := event.NewFanOutBus(sym.Int("busbuf", 0, 1))
	buf := sym.Int("buf", 0, m)
	r := b.NewRecv("drop", buf)
	b.GoDispatch()
	type rec struct {
		i int
		v int
	}
	var got []interface{}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		for x := range r.C {
			got = append(got, x)
		}
		wg.Done()
	}()
	// events carry their index, so that duplicates and order show
	for i, e := range evs {
		b.C <- rec{i, e}
	}
	sym.Quiesce()
	b.Close()
	wg.Wait()
	last := -1
	for _, x := range got {
		e, ok := x.(rec)
		sym.Assert(ok, "only events that were sent are delivered")
		sym.Assert(e.i > last && e.i < m, "events are delivered in order and at most once")
		sym.Assert(e.v == evs[e.i], "events are delivered unchanged")
		last = e.i
	}
	if buf >= m {
		sym.Assert(len(got) == m, "nothing is dropped while the buffer has room")
	}
	sym.Quiesce()
	sym.Cover("end")
}

// Waiting: receivers that wait for the next event never miss it, whatever happens to the others.
func Waiting() {
	m := sym.Param("m", 2)
	evs := events(m)
	b := event.NewFanOutBus(0)
	r := b.NewRecv("waiting", sym.Int("buf", 0, 1))
	full := b.NewRecv("full", sym.Int("fullbuf", 0, 1))
	b.GoDispatch()
	var got []interface{}
	go func() {
		for x := range r.C {
			got = append(got, x)
		}
	}()
	sym.Quiesce()
	for _, e := range evs {
		b.C <- e
		sym.Quiesce()
	}
	same(got, evs, "a waiting receiver gets every event")
	_ = full
	b.Close()
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "reader and dispatcher end when the bus is closed")
	sym.Cover("end")
}

// Join: a receiver registered while events are under way gets the rest of them.
func Join() {
	m := sym.Param("m", 2)
	evs := events(m)
	b := event.NewFanOutBus(sym.Int("busbuf", 0, 1))
	old := b.NewRecv("old", m)
	b.GoDispatch()
	before := 0 // events sent before the registration began
	after := 0  // events sent when it had ended
	var r *event.Receiver
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		k := before
		_ = k
		r = b.NewRecvStrategy("new", m, event.FullStrategy(sym.Int("strategy", 0, 1)))
		sym.Ghost(func() { after = before })
		wg.Done()
	}()
	for _, e := range evs {
		sym.Ghost(func() { before++ })
		b.C <- e
	}
	wg.Wait()
	sym.Quiesce()
	got := r.Drain()
	sym.Assert(len(got) <= m, "no event is delivered twice")
	sym.Assert(len(got) >= m-after, "every event sent after the registration is delivered")
	if len(got) <= m {
		same(got, evs[m-len(got):], "a new receiver gets the later events, in order")
	}
	same(old.Drain(), evs, "other receivers are not affected by a registration")
	b.Close()
	sym.Quiesce()
	sym.Cover("end")
}

// Closing: closing receivers, registering again and closing the bus in any
// interleaving with the dispatching.
func Closing() {
	m := sym.Param("m", 1)
	evs := events(m)
	b := event.NewFanOutBus(m)
	a := b.NewRecv("a", sym.Int("buf", 0, 1))
	other := b.NewRecv("other", m+1)
	b.GoDispatch()
	sendAll(b, evs)
	var wg sync.WaitGroup
	kind := sym.Int("kind", 0, 4)
	var again *event.Receiver
	switch {
	case kind == 0: // two closes of one receiver
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { a.Close(); wg.Done() }()
		}
	case kind == 1: // close of a receiver and of the bus
		wg.Add(2)
		go func() { a.Close(); wg.Done() }()
		go func() { b.Close(); wg.Done() }()
	case kind == 2: // close and registration under the same name
		wg.Add(2)
		go func() { a.Close(); wg.Done() }()
		go func() { again = b.NewRecv("a", m+2); wg.Done() }()
	case kind == 3: // two receivers
		wg.Add(2)
		go func() { a.Close(); wg.Done() }()
		go func() { other.Close(); wg.Done() }()
	default: // registration and close of the bus
		wg.Add(2)
		go func() { again = b.NewRecv("b", 1); wg.Done() }()
		go func() { b.Close(); wg.Done() }()
	}
	wg.Wait()
	sym.Quiesce()
	if kind != 4 {
		sym.Assert(closed(a.C), "after close the channel is closed")
		a.Close()
		a.Close()
		sym.Assert(closed(a.C), "closing again has no effect")
	}
	if kind == 0 || kind == 2 {
		x := sym.Int("late", 0, 1000)
		b.C <- x
		sym.Quiesce()
		same(other.Drain(), append(append([]int{}, evs...), x), "other receivers are unaffected")
		if kind == 2 {
			got := again.Drain()
			sym.Assert(len(got) >= 1 && got[len(got)-1] == interface{}(x), "a receiver registered under the same name is unaffected")
			sym.Assert(!closed(again.C), "a receiver registered under the same name stays open")
		}
	}
	if kind == 1 || kind == 4 {
		sym.Assert(closed(other.C), "closing the bus closes the registered receivers")
	} else {
		b.Close()
	}
	sym.Quiesce()
	a.Close()
	other.Close()
	sym.Assert(closed(other.C), "closing after the bus has no effect")
	sym.Assert(sym.Goroutines() == 0, "no goroutine is left behind")
	sym.Cover("end")
}

// Displaced: a receiver displaced by another one of the same name.
func Displaced() {
	b := event.NewFanOutBus(0)
	a := b.NewRecv("a", 2)
	a2 := b.NewRecv("a", 2)
	b.GoDispatch()
	x, y := sym.Int("x", 0, 100), sym.Int("y", 0, 100)
	first := sym.Bool("first")
	b.C <- x
	sym.Quiesce()
	if first {
		a.Close()
	} else {
		a2.Close()
	}
	b.C <- y
	sym.Quiesce()
	if first {
		same(a2.Drain(), []int{x, y}, "closing a displaced receiver does not affect the one registered later")
		sym.Assert(closed(a.C), "after close the channel is closed")
		sym.Assert(!closed(a2.C), "closing a displaced receiver does not close the other")
	} else {
		sym.Assert(closed(a2.C), "after close the channel is closed")
	}
	b.Close()
	a.Close()
	a2.Close()
	sym.Assert(closed(a.C) && closed(a2.C), "all channels are closed in the end")
	sym.Quiesce()
	sym.Cover("end")
}

// Drain: exactly the buffered events, in order.
func Drain() {
	n := sym.Param("m", 3)
	buf := sym.Int("buf", 0, n)
	evs := events(n)
	b := event.NewFanOutBus(n)
	r := b.NewRecv("r", buf)
	b.GoDispatch()
	k := sym.Int("k", 0, n)
	sent := 0
	for i := 0; i < k; i++ {
		b.C <- evs[i]
		sent++
	}
	sym.Quiesce()
	if sent > buf {
		sent = buf
	}
	how := sym.Int("close", 0, 2)
	switch {
	case how == 1:
		r.Close()
	case how == 2:
		b.Close()
	}
	same(r.Drain(), evs[:sent], "draining returns the buffered events in order")
	same(r.Drain(), nil, "draining leaves the buffer empty")
	if how != 2 {
		b.Close()
	}
	sym.Quiesce()
	sym.Cover("end")
}

// Rounds: what was returned earlier stays as it was, whatever is received and drained later.
func Rounds() {
	n, m := sym.Param("rounds", 3), sym.Param("m", 2)
	evs := events(n * m)
	b := event.NewFanOutBus(0)
	var r [2]*event.Receiver
	var queued [2][]int
	var got [][]interface{}
	var want [][]int
	for i := range r {
		r[i] = b.NewRecv(string([]byte{byte('a' + i)}), m)
	}
	b.GoDispatch()
	for sent := 0; n > 0; n-- {
		for k := sym.Choose("events", m+1); k > 0; k-- {
			b.C <- evs[sent]
			for i := range r {
				if len(queued[i]) < m {
					queued[i] = append(queued[i], evs[sent])
				}
			}
			sent++
		}
		sym.Quiesce()
		i := sym.Choose("receiver", 2)
		if sym.Choose("collect", 2) == 0 {
			got = append(got, r[i].Drain())
		} else {
			go func() {
				sym.Quiesce()
				sym.Advance(time.Second)
			}()
			got = append(got, r[i].CollectTimeout(time.Second))
		}
		want = append(want, queued[i])
		queued[i] = nil
	}
	for i := range got {
		same(got[i], want[i], "each round returns what was received since, and it stays so")
	}
	b.Close()
	sym.Quiesce()
	sym.Cover("end")
}

// Collect: collecting with a timeout while events arrive, the receiver closes or the time passes.
func Collect() {
	m := sym.Param("m", 2)
	evs := events(m)
	b := event.NewFanOutBus(m)
	r := b.NewRecv("r", m)
	timeout := sym.Duration("timeout", 1, time.Hour)
	b.GoDispatch()
	sym.AutoClock()
	doClose := sym.Int("close", 0, 2)
	closedAlready := false
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		sendAll(b, evs)
		switch {
		case doClose == 1:
			sym.Ghost(func() { closedAlready = true })
			r.Close()
		case doClose == 2:
			sym.Ghost(func() { closedAlready = true })
			b.Close()
		}
		wg.Done()
	}()
	t0 := sym.Now()
	got := r.CollectTimeout(timeout)
	early := sym.Now()-t0 < int64(timeout)
	if !closedAlready {
		sym.Assert(!early, "collecting lasts until the timeout unless the receiver is closed")
	}
	wg.Wait()
	sym.Quiesce()
	rest := r.Drain()
	all := append(append([]interface{}{}, got...), rest...)
	if doClose == 0 {
		same(all, evs, "exactly the received events are collected, in order")
	} else {
		// events dispatched after the close are not received
		sym.Assert(len(all) <= m, "nothing that was never sent is collected")
		if len(all) <= m {
			same(all, evs[:len(all)], "exactly the received events are collected, in order")
		}
	}
	if doClose != 2 {
		b.Close()
	}
	sym.Quiesce()
	sym.Cover("end")
}

// CollectClosed: collecting from a closed receiver returns what is left, at once.
func CollectClosed() {
	m := sym.Param("m", 2)
	evs := events(m)
	b := event.NewFanOutBus(m)
	r := b.NewRecv("r", m)
	b.GoDispatch()
	sendAll(b, evs)
	sym.Quiesce()
	if sym.Bool("bus") {
		b.Close()
	} else {
		r.Close()
	}
	same(r.CollectTimeout(sym.Duration("timeout", 1, time.Hour)), evs, "collecting from a closed receiver returns the received events")
	sym.Quiesce()
	sym.Cover("end")
}

// CollectWaits: collecting lasts until the timeout, whenever events arrive.
func CollectWaits() {
	b := event.NewFanOutBus(0)
	r := b.NewRecv("r", 2)
	timeout := sym.Duration("timeout", 1, time.Hour)
	evs := events(2)
	d := sym.Duration("after", 0, 2*time.Hour)
	d2 := sym.Duration("after2", 0, 2*time.Hour)
	b.GoDispatch()
	t0 := sym.Now()
	go func() {
		time.Sleep(d)
		b.C <- evs[0]
		time.Sleep(d2)
		b.C <- evs[1]
	}()
	go func() {
		sym.Quiesce()
		sym.Advance(d)
		sym.Quiesce()
		sym.Advance(d2)
		sym.Quiesce()
		if d+d2 < timeout {
			sym.Advance(timeout - d - d2)
			sym.Quiesce()
			sym.Advance(3 * timeout) // in case it waits for longer than that
		}
	}()
	got := r.CollectTimeout(timeout)
	took := sym.Now() - t0
	sym.Assert(took >= int64(timeout), "collecting lasts until the timeout")
	switch {
	case d+d2 < timeout:
		same(got, evs, "an event that arrives before the timeout is collected")
		sym.Assert(took == int64(timeout), "collecting ends at the timeout")
		sym.Cover("both")
	case d < timeout:
		sym.Assert(len(got) >= 1 && len(got) <= 2, "an event that arrives before the timeout is collected")
		same(got, evs[:len(got)], "nothing that was never sent is collected")
	default:
		sym.Assert(len(got) <= 2, "nothing that was never sent is collected")
		same(got, evs[:len(got)], "nothing that was never sent is collected")
	}
	sym.Quiesce()
	b.Close()
	sym.Quiesce()
	sym.Cover("end")
}

// filled makes a bus with the events in its channel, dispatching them (and nothing else going on).
func filled(evs []int, mk func(b *event.FanOutBus)) *event.FanOutBus {
	b := event.NewFanOutBus(len(evs))
	mk(b)
	sendAll(b, evs)
	b.GoDispatch()
	sym.Quiesce()
	return b
}

// many makes up to m events of which the first and the last have arbitrary values.
func many(m int) []int {
	k := sym.Int("k", 0, m)
	var evs []int
	for i := 0; i < k; i++ {
		evs = append(evs, 7*i+1)
	}
	if k > 0 {
		evs[0] = sym.Int("first", 0, 1000000)
		evs[k-1] = sym.Int("last", 0, 1000000)
	}
	return evs
}

// Many: numbers of events and buffer sizes beyond those of the other harnesses.
func Many() {
	m := sym.Param("m", 24)
	evs := many(m)
	buf := sym.Int("buf", 0, m)
	var d, r *event.Receiver
	b := filled(evs, func(b *event.FanOutBus) {
		d = b.NewRecv("drop", buf)
		r = b.NewRecvStrategy("block", m, event.Block)
	})
	kept := len(evs)
	if buf < kept {
		kept = buf
	}
	how := sym.Int("close", 0, 2)
	switch {
	case how == 1:
		d.Close()
		r.Close()
	case how == 2:
		b.Close()
	}
	same(d.Drain(), evs[:kept], "a dropping receiver keeps the events that fit its buffer")
	same(d.Drain(), nil, "draining leaves the buffer empty")
	if how == 0 {
		same(r.Drain(), evs, "a blocking receiver gets every event")
	} else {
		same(r.CollectTimeout(time.Hour), evs, "collecting from a closed receiver returns the received events")
	}
	if how != 2 {
		b.Close()
	}
	sym.Quiesce()
	sym.Cover("end")
}

type ptr struct{}

// Kinds: events of any type, nil among them.
func Kinds() {
	m := sym.Param("m", 2)
	var vals []interface{}
	var x *ptr
	for i := 0; i < m; i++ {
		var v interface{}
		switch sym.Choose("kind", 5) {
		case 0: // nil
		case 1:
			v = sym.Int("v", -1, 1)
		case 2:
			v = ""
		case 3:
			v = x
		default:
			v = false
		}
		vals = append(vals, v)
	}
	b := event.NewFanOutBus(m)
	d := b.NewRecv("drop", m)
	r := b.NewRecvStrategy("block", m, event.Block)
	for _, v := range vals {
		b.C <- v
	}
	b.GoDispatch()
	sym.Quiesce()
	how := sym.Choose("how", 3)
	if how > 0 {
		b.Close()
	}
	got := d.Drain()
	sym.Assert(len(got) == m, "every event is drained, whatever its value")
	var got2 []interface{}
	switch how {
	case 0:
		for i := 0; i < m; i++ {
			select {
			case v := <-r.C:
				got2 = append(got2, v)
			default:
			}
		}
	case 1:
		got2 = r.CollectTimeout(time.Second)
	default:
		for v := range r.C {
			got2 = append(got2, v)
		}
	}
	sym.Assert(len(got2) == m, "every event is collected, whatever its value")
	for i, v := range vals {
		sym.Assert(got[i] == v, "draining returns the events")
		sym.Assert(got2[i] == v, "collecting returns the events")
	}
	if how == 0 {
		b.Close()
	}
	sym.Quiesce()
	sym.Cover("end")
}

// DrainConc: several drains of one receiver, and a drain while events arrive.
func DrainConc() {
	m := sym.Param("m", 2)
	evs := events(m)
	k := sym.Int("k", 0, m) // so many have arrived before
	b := event.NewFanOutBus(m)
	r := b.NewRecv("r", m)
	b.GoDispatch()
	for i := 0; i < k; i++ {
		b.C <- evs[i]
	}
	sym.Quiesce()
	var wg sync.WaitGroup
	var g1, g2 []interface{}
	wg.Add(2)
	go func() { g1 = r.Drain(); wg.Done() }()
	go func() { g2 = r.Drain(); wg.Done() }()
	for i := k; i < m; i++ {
		b.C <- evs[i]
	}
	wg.Wait() // neither of them blocks
	sym.Quiesce()
	g3 := r.Drain()
	sym.Assert(len(g1)+len(g2)+len(g3) == m, "every event is drained exactly once")
	// each of them drains in order, and what is left came last
	index := func(got []interface{}, seen []bool) {
		at := 0
		for _, x := range got {
			for at < m && (seen[at] || x != interface{}(evs[at])) {
				at++
			}
			sym.Assert(at < m, "draining returns events in order")
			if at < m {
				seen[at] = true
			}
		}
	}
	if sym.Param("distinct", 1) == 1 {
		for i := range evs {
			for j := 0; j < i; j++ {
				sym.Assume(evs[i] != evs[j])
			}
		}
		seen := make([]bool, m)
		index(g1, seen)
		index(g2, seen)
		index(g3, seen)
	}
	b.Close()
	sym.Quiesce()
	sym.Cover("end")
}
