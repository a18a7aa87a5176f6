package main

func init() {
	prop("D01", "names, texts and documents longer than the bounds; text outside ASCII other than a list of thirteen; text that is not UTF-8; numbers outside a list of ten", nil,
		Entry{Fn: "dto.RoundTrip", Int: true, Quick: P{"len": 1, "depth": 1}, Thorough: P{"len": 1, "depth": 2}, Bounds: "the nil map and maps of up to two members, values of every kind nested up to depth, arbitrary ASCII text of up to len bytes"},
		Entry{Fn: "dto.Keys", Int: true, Quick: P{"len": 1}, Thorough: P{"len": 2}, Bounds: "arbitrary ASCII names of up to len bytes"},
		Entry{Fn: "dto.Kept", Int: true, Thorough: P{"depth": 1}, Bounds: "two maps with a member of any kind each, both marshalled before both are read"},
		Entry{Fn: "dto.Foreign", Int: true, Bounds: "names and texts from a list of thirteen outside ASCII, next to an arbitrary character below 64"},
		Entry{Fn: "dto.Texts", Int: true, Secs: [2]int{120, 600}, Quick: P{"len": 2}, Thorough: P{"len": 3}, Bounds: "nine forms of document with arbitrary ASCII text of up to len bytes at the start, at the end, as member, between members"},
	)
	prop("D02", "moduli other than len arbitrary bytes followed by up to 254 fixed ones; exponents that RSA readers refuse (below 2 or above 31 bits)", nil,
		Entry{Fn: "keys.Extracted", Quick: P{"len": 3}, Thorough: P{"len": 16}, Bounds: "every modulus of len bytes, every exponent of 2 to 31 bits"},
		Entry{Fn: "keys.Extracted", Quick: P{"len": 2, "fill": 126}, Thorough: P{"len": 16, "fill": 112}, Bounds: "1024-bit moduli whose first len bytes are arbitrary"},
		Entry{Fn: "keys.Extracted", Quick: P{"len": 2, "fill": 254}, Thorough: P{"len": 8, "fill": 248}, Bounds: "2048-bit moduli whose first len bytes are arbitrary"},
		Entry{Fn: "keys.Bare", Quick: P{"len": 3, "fill": 60}, Thorough: P{"len": 8, "fill": 120}, Bounds: "the same without the PEM armour, on one line or several"},
	)
}
