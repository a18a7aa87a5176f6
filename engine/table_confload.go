package main

func init() {
	const out = "struct types outside the catalogue of seven; recursive types; fields whose names collide"
	prop("C01", "paths longer than the bound; non-ASCII case mapping", nil,
		Entry{Fn: "conf.Names", Int: true, Quick: P{"len": 5}, Thorough: P{"len": 8}, Bounds: "every path of up to len bytes"},
		Entry{Fn: "conf.Registered", Int: true, Bounds: "the flags of seven struct types"},
		Entry{Fn: "conf.Sources", Int: true, Secs: [2]int{120, 600}, Quick: P{"two": 0, "len": 1}, Bounds: "flags and variables of each field of seven struct types"},
	)
	prop("C02", out+"; more than two fields with values at a time; longer values; other yaml documents", nil,
		Entry{Fn: "conf.Sources", Int: true, Secs: [2]int{120, 600}, Quick: P{"two": 0, "rich": 1, "len": 2}, Thorough: P{"two": 0, "rich": 1, "len": 4}, Bounds: "each field of seven struct types, every subset of sources, arbitrary numbers of up to two digits and texts of up to len bytes, arbitrary initial value, ways of writing flags"},
		Entry{Fn: "conf.Sources", Int: true, Secs: [2]int{150, 900}, Quick: P{"two": 1}, Thorough: P{"two": 1, "null": 1}, Bounds: "each pair of fields, every subset of sources for each (thorough: with an empty section)"},
		Entry{Fn: "conf.Sources", Int: true, Quick: P{"two": 0, "null": 1}, Thorough: P{"two": 0, "null": 1, "rich": 1}, Bounds: "each field, with an empty yaml section"},
		Entry{Fn: "conf.All", Int: true, Bounds: "every field of each struct type at once: any two subsets of sources for neighbours, three ways of writing flags, an arbitrary digit or character in each value"},
		Entry{Fn: "conf.Twice", Int: true, Bounds: "two values of each struct type loaded one after the other, one field of each from each subset of sources"},
		Entry{Fn: "conf.Malformed", Int: true, Quick: P{"len": 1}, Bounds: "each field, a malformed value in each source, a file that is missing"},
	)
	prop("C03", out, nil,
		Entry{Fn: "conf.Registered", Int: true, Bounds: "six struct types, arbitrary initial values, with and without a yaml flag"},
		Entry{Fn: "conf.Sources", Int: true, Quick: P{"two": 0, "null": 1}, Thorough: P{"two": 0, "null": 1, "rich": 1}, Bounds: "each field set from each subset of sources, with an empty yaml section"},
		Entry{Fn: "conf.All", Int: true, Bounds: "every field set at once, neighbours from different sources"},
	)
}
