package main

var propTable = map[string]*Prop{}

func prop(id string, outside string, assume []string, es ...Entry) {
	propTable[id] = &Prop{ID: id, Entries: es, Assume: assume, Outside: outside}
}

func init() {
	prop("R01", "more requests than the bound, window sizes other than the listed ones, instants after 2032+", nil,
		Entry{Fn: "rate.FixedWindow", Int: true, Quick: P{"n": 3}, Thorough: P{"n": 5},
			Bounds: "n requests at arbitrary instants in 30 years (gaps up to 2 years), capacity 0..n, window size one of 9 from 1 ns to a day"},
		Entry{Fn: "rate.FixedWindowMany", Int: true, Quick: P{"n": 5}, Thorough: P{"n": 6}, Secs: [2]int{100, 850}, Bounds: "n requests in up to 100000 windows after one another, any place in the window, capacity 0..n, window size 1 ns, 7 ns, 1 s or 1 h"})
	prop("R02", "more requests than the bound, more than one reconfiguration", nil,
		Entry{Fn: "rate.Sliding", Int: true, Quick: P{"n": 6}, Thorough: P{"n": 8},
			Bounds: "n requests at arbitrary instants, arbitrary window up to 10 years, capacity -1..n, at most one reconfiguration at any point"})
	prop("R03", "more requests than the bound, other rates", nil,
		Entry{Fn: "rate.Bucket", Int: true, Quick: P{"n": 5}, Thorough: P{"n": 7},
			Bounds: "n requests at arbitrary instants, capacity 0..n, rate one of 1,2,3,1000,1000000, both implementations"})
	prop("R04", "more goroutines or requests than the bound", nil,
		Entry{Fn: "rate.ConcFixed", Int: true, Race: true, Quick: P{"n": 3}, Bounds: "n goroutines with a request each, a clock advance at any point"},
		Entry{Fn: "rate.ConcSliding", Int: true, Race: true, Quick: P{"n": 3}, Bounds: "as ConcFixed"},
		Entry{Fn: "rate.ConcUpdate", Int: true, Race: true, Quick: P{"n": 3}, Bounds: "two requests, a reconfiguration and a getter in any interleaving"},
		Entry{Fn: "rate.ConcReconf", Int: true, Race: true, Bounds: "one request and a reconfiguration in any interleaving, any earlier use, instants and window sizes"},
		Entry{Fn: "rate.ConcSyncBucket", Int: true, Race: true, Quick: P{"n": 2}, Thorough: P{"n": 3}, Bounds: "n requests, clock advance at any point"},
		Entry{Fn: "rate.ConcAtomicBucket", Int: true, Race: true, Quick: P{"n": 2}, Bounds: "n requests, clock advance at any point"},
		Entry{Fn: "rate.ConcAtomicBucket", Int: true, Race: true, Quick: P{"n": 3, "tick": 0}, Thorough: P{"n": 3, "tick": 0, "each": 2, "busy": 1}, Secs: [2]int{100, 900}, Bounds: "n goroutines, a request each (thorough: one of them two)"},
	)
	const lua = "longer histories than the bound; Redis commands and Lua features that the model of Redis lacks (a script that uses one is reported as not analysed); clocks that differ between clients; several calls in flight at once (Redis runs scripts one after another)"
	lim := []string{"Redis runs a script atomically with a frozen clock; a key with expiry t exists up to and including millisecond t; TTL rounds to the nearest second"}
	prop("R05", lua, lim,
		Entry{Fn: "redislim.History", Int: true, Quick: P{"n": 4}, Thorough: P{"n": 6}, Covers: []string{"blocked", "triggered", "passed", "end"}, Bounds: "n requests at arbitrary instants, capacity 1..n-1, window and timeout 1 s to 12 days"},
		Entry{Fn: "redislim.History", Int: true, Quick: P{"n": 4, "shared": 1}, Thorough: P{"n": 5, "shared": 1}, Bounds: "as above, two keys that share a block key"},
		Entry{Fn: "redislim.History", Int: true, Quick: P{"n": 4, "cluster": 1}, Thorough: P{"n": 5, "cluster": 1}, Bounds: "as above, cluster limiter"},
		Entry{Fn: "redislim.Separate", Int: true, Quick: P{"n": 3}, Thorough: P{"n": 4}, Bounds: "n requests of one key, then two of another"},
		Entry{Fn: "redislim.Keys", Int: true, Quick: P{"len": 2}, Thorough: P{"len": 4}, Bounds: "two arbitrary keys and a message of up to len bytes"},
		Entry{Fn: "redislim.Change", Int: true, Quick: P{"n": 5}, Thorough: P{"n": 7}, Bounds: "n requests within a block, the capacity changes once"},
		Entry{Fn: "redislim.Params", Int: true, Quick: P{"n": 3}, Bounds: "three requests at one instant, parameters -2..2"},
	)
	prop("R06", lua, lim,
		Entry{Fn: "redislim.History", Int: true, Quick: P{"n": 4, "forms": 1, "isblocked": 1}, Thorough: P{"n": 5, "forms": 1, "isblocked": 1}, Covers: []string{"blocked", "triggered", "passed", "end"}, Bounds: "n requests at arbitrary instants, each after asking whether the key is blocked; capacity 1..n-1, window and timeout 1 s to 12 days"},
		Entry{Fn: "redislim.History", Int: true, Quick: P{"n": 3, "forms": 1, "isblocked": 1, "cluster": 1}, Thorough: P{"n": 5, "forms": 1, "isblocked": 1, "cluster": 1}, Bounds: "as above, cluster limiter"},
		Entry{Fn: "redislim.Keys", Int: true, Quick: P{"len": 2}, Thorough: P{"len": 4}, Bounds: "two arbitrary keys and a message of up to len bytes, single node and cluster"},
		Entry{Fn: "redislim.Slot", Int: true, Quick: P{"len": 2}, Thorough: P{"len": 4}, Bounds: "an arbitrary hash tag of up to len bytes, with braces or without; all forms of asking"},
		Entry{Fn: "redislim.Down", Int: true, Quick: P{"n": 4}, Thorough: P{"n": 5}, Bounds: "n operations, Redis fails at any of them"},
		Entry{Fn: "redislim.Params", Int: true, Quick: P{"n": 3}, Bounds: "three requests at one instant, parameters -2..2"},
	)

	const gor = "more goroutines, operations or clock movements than the bound; interleavings inside the runtime's own channel, lock and timer implementations (each operation is one step)"
	prop("B01", "more calls than the bound", nil,
		Entry{Fn: "breaker.Seq", Int: true, Quick: P{"n": 5}, Thorough: P{"n": 7}, Bounds: "n calls at arbitrary instants and of arbitrary duration with arbitrary results and error values, thresholds 1..n, arbitrary reset timeout"},
		Entry{Fn: "breaker.Panics", Int: true, Quick: P{"n": 3}, Thorough: P{"n": 5}, Covers: []string{"panic"}, Bounds: "n calls whose task or handlers panic or not, thresholds 1 and 2 and the breaker that never opens"},
		Entry{Fn: "breaker.Never", Int: true, Quick: P{"n": 5}, Thorough: P{"n": 7}, Bounds: "n calls with arbitrary results"},
	)
	prop("B02", gor, nil,
		Entry{Fn: "breaker.Conc", Int: true, Race: true, Quick: P{"n": 3}, Thorough: P{"n": 4}, Bounds: "n concurrent calls with arbitrary results, state prepared by arbitrary earlier calls"},
		Entry{Fn: "breaker.Conc", Int: true, Race: true, Quick: P{"n": 3, "prior": 1}, Thorough: P{"n": 4, "prior": 1}, Bounds: "as above after earlier failures"},
		Entry{Fn: "breaker.Reentrant", Int: true, Race: true, Bounds: "a call inside a call"},
	)
	prop("S01", gor, nil,
		Entry{Fn: "sema.Seq", Int: true, Quick: P{"n": 5}, Thorough: P{"n": 7}, Bounds: "n operations from one goroutine, 0..3 permits"},
		Entry{Fn: "sema.SafeConc", Int: true, Race: true, Quick: P{"n": 3}, Bounds: "n goroutines acquiring in any manner (blocking, try, timeout) and releasing, arbitrary permits"},
		Entry{Fn: "sema.TryRace", Int: true, Race: true, Bounds: "attempts and releases in any interleaving"},
	)
	prop("S02", gor, nil,
		Entry{Fn: "sema.Seq", Int: true, Quick: P{"n": 5}, Thorough: P{"n": 7}, Bounds: "n operations from one goroutine, 0..3 permits"},
		Entry{Fn: "sema.Wakeup", Int: true, Race: true, Quick: P{"n": 2}, Thorough: P{"n": 2}, Bounds: "waiters, releases and timeouts in any interleaving"},
		Entry{Fn: "sema.Stuck", Int: true, Race: true, Quick: P{"n": 2}, Thorough: P{"n": 3}, Bounds: "waiters with and without timeout"},
		Entry{Fn: "sema.TryRace", Int: true, Race: true, Bounds: "attempts and releases in any interleaving"},
		Entry{Fn: "sema.ReleaseRace", Int: true, Race: true, Quick: P{"rel": 2}, Thorough: P{"rel": 3}, Bounds: "rel releases at once, up to two permits held"},
		Entry{Fn: "sema.ReleaseRace", Int: true, Race: true, Quick: P{"rel": 2, "try": 1}, Thorough: P{"rel": 3, "try": 1}, Bounds: "as above with an attempt among them"},
	)
	prop("E01", gor, nil,
		Entry{Fn: "bus.Blocking", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "m events to a blocking and a dropping receiver, buffers 0..2, arbitrary event values, every map iteration order"},
		Entry{Fn: "bus.Slow", Int: true, Race: true, Quick: P{"extra": 2, "buf": 1}, Thorough: P{"extra": 3, "buf": 2}, Bounds: "extra more events than the buffer holds, read after arbitrary pauses"},
		Entry{Fn: "bus.Dropping", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "as above"},
		Entry{Fn: "bus.Waiting", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "as above, receivers that time out"},
		Entry{Fn: "bus.Join", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "a receiver that joins between events"},
		Entry{Fn: "bus.Many", Int: true, Quick: P{"m": 24}, Thorough: P{"m": 40}, Bounds: "up to m events sent before they are dispatched, buffers 0..m"},
		Entry{Fn: "bus.Rounds", Int: true, MapOrder: true, Quick: P{"rounds": 2}, Thorough: P{"rounds": 3}, Bounds: "two receivers, rounds of up to two events and a drain or collection of either, results kept"},
		Entry{Fn: "bus.Kinds", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "m events of any kind: nil, numbers, strings, nil pointers, booleans"},
	)
	prop("E02", gor, nil,
		Entry{Fn: "bus.Closing", Int: true, Race: true, MapOrder: true, Quick: P{"m": 1}, Thorough: P{"m": 2}, Bounds: "receivers and bus closed at any moment, also twice and concurrently"},
		Entry{Fn: "bus.Displaced", Int: true, Race: true, MapOrder: true, Bounds: "a receiver whose name was taken over is closed"},
	)
	prop("E03", gor, nil,
		Entry{Fn: "bus.Drain", Int: true, Race: true, MapOrder: true, Quick: P{"m": 3}, Thorough: P{"m": 4}, Bounds: "m events, any amount requested"},
		Entry{Fn: "bus.Collect", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "m events at any moment, arbitrary timeout"},
		Entry{Fn: "bus.CollectClosed", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "receiver closed at any moment"},
		Entry{Fn: "bus.CollectWaits", Int: true, Race: true, MapOrder: true, Covers: []string{"end", "both"}, Bounds: "two events at arbitrary instants, arbitrary timeout"},
		Entry{Fn: "bus.Many", Int: true, Quick: P{"m": 24}, Thorough: P{"m": 40}, Bounds: "up to m events in a receiver of any buffer size up to m, open or closed"},
		Entry{Fn: "bus.Kinds", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "m events of any kind: nil, numbers, strings, nil pointers, booleans"},
		Entry{Fn: "bus.DrainConc", Int: true, Race: true, MapOrder: true, Quick: P{"m": 2}, Thorough: P{"m": 3}, Bounds: "two drains at once while m events arrive"},
	)
	prop("T01", gor, nil,
		Entry{Fn: "sched.Construct", Quick: P{"len": 2}, Bounds: "names up to len bytes, every interval and timeout within an hour either way"},
		Entry{Fn: "sched.Lifecycle", Int: true, Race: true, Quick: P{"n": 3}, Thorough: P{"n": 4}, Fires: 3, Bounds: "n lifecycle calls in any order, both task kinds"},
		Entry{Fn: "sched.LifecycleConc", Int: true, Race: true, Quick: P{"calls": 2}, Thorough: P{"calls": 3, "stops": 2}, Fires: 3, Bounds: "concurrent starts and stops"},
		Entry{Fn: "sched.LifecycleConc", Int: true, Race: true, Quick: P{"calls": 2, "stops": 2, "started": 1}, Thorough: P{"calls": 3, "stops": 3, "started": 1}, Fires: 3, Bounds: "concurrent stops and starts of a started task"},
	)
	prop("T02", gor, nil,
		Entry{Fn: "sched.Delay", Int: true, Race: true, Quick: P{"steps": 2}, Thorough: P{"steps": 3}, Bounds: "time passes steps times by arbitrary amounts at arbitrary points; runs that return, fail or wait for their cancel channel"},
		Entry{Fn: "sched.DelayExact", Int: true, Race: true, Quick: P{"n": 3}, Thorough: P{"n": 4}, Bounds: "n runs of arbitrary duration, interval and timeout"},
	)
	prop("T03", gor, nil,
		Entry{Fn: "sched.Rate", Int: true, Race: true, Quick: P{"steps": 1}, Thorough: P{"steps": 2}, Secs: [2]int{100, 800}, Bounds: "time passes steps times by arbitrary amounts at arbitrary points"},
		Entry{Fn: "sched.RateBurst", Int: true, Quick: P{"n": 2}, Thorough: P{"n": 3}, Bounds: "n ticks in quick succession at any point of the execution"},
		Entry{Fn: "sched.RateExact", Int: true, Race: true, Quick: P{"n": 2}, Thorough: P{"n": 3}, Bounds: "n ticks, runs that return at once or stay in progress, arbitrary interval and timeout"},
	)
	prop("T04", gor, nil,
		Entry{Fn: "sched.Timeout", Int: true, Race: true, Covers: []string{"end", "timeout", "stopped", "second"}, Bounds: "one or two runs, arbitrary interval, timeout and instants"},
		Entry{Fn: "sched.Stop", Int: true, Race: true, Quick: P{"ticks": 1}, Thorough: P{"ticks": 2}, Bounds: "a stop at any point of the execution after ticks clock movements"},
	)
	prop("T05", gor, nil,
		Entry{Fn: "sched.ManagerSeq", Quick: P{"n": 4}, Thorough: P{"n": 6}, Bounds: "n operations with arbitrary names (equal or not)"},
		Entry{Fn: "sched.ManagerConc", Int: true, Race: true, MapOrder: true, Bounds: "three concurrent operations"},
		Entry{Fn: "sched.ManagerHeld", Int: true, Race: true, MapOrder: true, Quick: P{"n": 2}, Thorough: P{"n": 3}, Bounds: "n concurrent operations on a held name"},
	)
}
