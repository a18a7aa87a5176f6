package main

func init() {
	const st = "longer histories, more keys and longer strings than the bound"
	prop("K01", st+"; value processors other than the repository's own are represented by an integer processor and a string processor", nil,
		Entry{Fn: "store.History", Int: true, Quick: P{"n": 3}, Thorough: P{"n": 4}, Secs: [2]int{100, 850}, Bounds: "n arbitrary operations (register, update, batch update, reset, deregister) over two keys and an arbitrary value each, then every getter"},
		Entry{Fn: "store.History", Int: true, Quick: P{"n": 2, "load": 1}, Thorough: P{"n": 3, "load": 1}, Bounds: "as above, with loads from a loader among the operations"},
		Entry{Fn: "store.History", Int: true, Quick: P{"n": 2, "faults": 1}, Bounds: "as above, with a persister that may fail at any call"},
		Entry{Fn: "store.History", Int: true, Quick: P{"n": 2, "load": 1, "prior": 1}, Thorough: P{"n": 3, "load": 1, "prior": 1}, Bounds: "as above, with loads and values persisted before"},
		Entry{Fn: "store.Batch", Int: true, Quick: P{"n": 4}, Thorough: P{"n": 5}, Bounds: "a batch of n entries with arbitrary keys and values, batch reads of several keys"},
	)
	prop("K02", st+"; concurrent updates of one key", nil,
		Entry{Fn: "store.History", Int: true, Quick: P{"n": 2}, Thorough: P{"n": 4}, Secs: [2]int{100, 850}, Bounds: "n arbitrary operations with and without persistence"},
		Entry{Fn: "store.History", Int: true, Quick: P{"n": 2, "restart": 1}, Thorough: P{"n": 3, "restart": 1}, Bounds: "as above, then a restart of the store from what was persisted"},
		Entry{Fn: "store.History", Int: true, Quick: P{"n": 2, "faults": 1}, Thorough: P{"n": 3, "faults": 1}, Bounds: "as above, with a persister that may fail at any call"},
		Entry{Fn: "store.History", Int: true, Quick: P{"n": 2, "restart": 1, "prior": 1}, Thorough: P{"n": 3, "restart": 1, "prior": 1}, Bounds: "as above, with values persisted before that were not loaded yet"},
		Entry{Fn: "store.Batch", Int: true, Quick: P{"n": 4}, Thorough: P{"n": 5}, Bounds: "a batch of n entries with arbitrary keys and values"},
		Entry{Fn: "redislim.Restart", Int: true, Quick: P{"n": 2}, Thorough: P{"n": 3}, Bounds: "n operations with the Redis persister, then a restart"},
	)
	prop("K03", "more goroutines or operations than the bound", nil,
		Entry{Fn: "store.Reading", Int: true, Race: true, MapOrder: true, Bounds: "one read during one operation on a key, arbitrary values"},
		Entry{Fn: "store.Conc", Int: true, Race: true, MapOrder: false, Quick: P{"n": 3}, Thorough: P{"n": 4}, Bounds: "n concurrent operations, each of any kind, and readers"},
		Entry{Fn: "store.Conc", Int: true, Race: true, Quick: P{"n": 2, "load": 1}, Thorough: P{"n": 3, "load": 1}, Bounds: "as above, with a concurrent load"},
	)
	prop("K04", "more reads than the bound; clocks that go backwards", nil,
		Entry{Fn: "store.Interval", Int: true, Quick: P{"n": 4}, Thorough: P{"n": 6}, Bounds: "n reads at arbitrary instants, arbitrary interval, each load succeeds or fails and takes arbitrary time"},
		Entry{Fn: "store.Always", Int: true, Quick: P{"n": 4}, Thorough: P{"n": 6}, Bounds: "as above, simple and no-op policy and intervals of 0 and less"},
		Entry{Fn: "store.Shared", Int: true, Race: true, Quick: P{"n": 3}, Bounds: "n concurrent reads"},
	)
	prop("K05", "longer strings than the bound; the grammar of url and duration beyond what Go's own parsers decide on those strings", nil,
		Entry{Fn: "store.Bools", Quick: P{"len": 6}, Thorough: P{"len": 8}, Bounds: "every string of up to len bytes"},
		Entry{Fn: "store.Strings", Quick: P{"len": 6}, Thorough: P{"len": 8}, Bounds: "every string of up to len bytes, arbitrary bounds"},
		Entry{Fn: "store.Ints", Quick: P{"len": 4}, Thorough: P{"len": 5}, Secs: [2]int{100, 850}, Bounds: "every string of up to len bytes, arbitrary bounds, inclusive or not"},
		Entry{Fn: "store.BigInts", Bounds: "the decimal integers around the limits of int"},
		Entry{Fn: "store.LongInts", Quick: P{"digits": 3}, Thorough: P{"digits": 5}, Bounds: "integers that begin like the limits of 31, 32, 63 and 64 bits, or with zeroes, and end in up to digits arbitrary digits, arbitrary bounds"},
		Entry{Fn: "store.Durations", Quick: P{"len": 3}, Bounds: "every string of up to len bytes"},
		Entry{Fn: "store.Urls", Quick: P{"len": 3}, Thorough: P{"len": 4}, Secs: [2]int{100, 850}, Bounds: "every string of up to len bytes"},
		Entry{Fn: "store.Colors", Quick: P{"from": 6, "len": 7}, Thorough: P{"from": 6, "len": 8}, Secs: [2]int{200, 850}, Bounds: "every string of from..len bytes"},
		Entry{Fn: "store.Colors", Quick: P{"len": 3}, Thorough: P{"len": 5}, Bounds: "every string of up to len bytes"},
		Entry{Fn: "store.ColorParts", Secs: [2]int{100, 850}, Bounds: "every color: its string, parts and round trip"},
		Entry{Fn: "store.Enums", Quick: P{"len": 3}, Thorough: P{"len": 5}, Bounds: "every string of up to len bytes, arbitrary members"},
	)
	prop("K06", "the DER decoders of crypto/x509 (cut off at their call, with result and error arbitrary within their documented types, except in the last two entries)", []string{"crypto/x509 and encoding/pem decoders behave as documented"},
		Entry{Fn: "store.Keys", Bounds: "every kind of PEM text times every reader, and the must variants"},
		Entry{Fn: "store.Damaged", Bounds: "a sound PEM text with any damage of the listed kinds"},
		Entry{Fn: "store.Junk", Quick: P{"len": 2}, Thorough: P{"len": 3}, Bounds: "every text of up to len bytes"},
		Entry{Fn: "store.Extract", Bounds: "keys of the fixture set"},
		Entry{Fn: "pems.Labels", Bounds: "one real key, its public half and a certificate; each reader and its Must form; labels of the three kinds, with any letter replaced by an arbitrary one or one added in front or at the end, six others; BEGIN and END that differ; with headers, arbitrary ones too, or a blank line"},
		Entry{Fn: "pems.Contents", Bounds: "the same readers, with and without armour; contents of the three kinds, with text around the block, with a byte that is not base64 at four places, cut off at four places, with an arbitrary byte more"},
	)
	prop("K07", st, []string{"the Redis commands of the persister behave as documented (model of HSET, HDEL, HGETALL in the harness)"},
		Entry{Fn: "redislim.Persist", Int: true, Quick: P{"n": 2}, Thorough: P{"n": 3}, Secs: [2]int{100, 850}, Bounds: "n operations (save, delete, load), Redis fails at any"},
		Entry{Fn: "redislim.LoadMany", Int: true, MapOrder: true, Quick: P{"n": 3}, Thorough: P{"n": 4}, Secs: [2]int{100, 850}, Bounds: "up to n saved pairs, any of which the store refuses, loaded in every order"},
		Entry{Fn: "redislim.LoadMany", Int: true, Quick: P{"n": 4}, Thorough: P{"n": 5}, Secs: [2]int{200, 850}, Bounds: "up to n saved pairs, any of which the store refuses, one order"},
		Entry{Fn: "redislim.PersistKeys", Int: true, Quick: P{"len": 2}, Thorough: P{"len": 3}, Bounds: "arbitrary keys, values and root key of up to len bytes"},
		Entry{Fn: "redislim.Restart", Int: true, Quick: P{"n": 2}, Thorough: P{"n": 3}, Bounds: "n operations with the Redis persister, then a restart"},
	)
}
