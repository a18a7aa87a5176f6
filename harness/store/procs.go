package store

import (
	"net/url"
	"strconv"
	"time"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zzverif/sym"
)

// verdict checks what every processor promises about a verdict and returns it.
func verdict(p confstore.ValueProcessor, v string) bool {
	ok, msg := p.Validate(v)
	if !ok {
		sym.Assert(msg != "", "a rejected value comes with a reason")
	}
	return ok
}

// Bools: every string up to len bytes.
func Bools() {
	v := sym.StringUpTo("v", 0, sym.Param("len", 6))
	ok := verdict(confstore.Bool, v)
	sym.Assert(ok == sym.Or(sym.Eq(v, "true"), sym.Eq(v, "false")), "the bool processor accepts exactly true and false")
	if ok {
		b, is := confstore.Bool.Convert(v).(bool)
		sym.Assert(is && b == (v == "true"), "a bool converts to what it says")
	}
	sym.Cover("end")
}

// Strings: every string up to len bytes and every pair of bounds.
func Strings() {
	n := sym.Param("len", 6)
	v := sym.StringUpTo("v", 0, n)
	lo, hi := sym.Int("min", -1, n+1), sym.Int("max", -1, n+1)
	p := confstore.StringProcessor(lo, hi)
	ok := verdict(p, v)
	sym.Assert(ok == sym.And(len(v) >= lo, len(v) <= hi), "the string processor accepts exactly the lengths within its bounds")
	s, is := p.Convert(v).(string)
	sym.Assert(is && s == v, "a string converts to itself")
	sym.Assert(verdict(confstore.String, v), "the String processor accepts every string")
	s, is = confstore.String.Convert(v).(string)
	sym.Assert(is && s == v, "a string converts to itself")
	sym.Cover("end")
}

// spelled parses a decimal integer the way a person would.
func spelled(v string) (n int, ok bool) {
	i, neg := 0, false
	if len(v) > 0 && (v[0] == '+' || v[0] == '-') {
		neg = v[0] == '-'
		i = 1
	}
	if i == len(v) {
		return 0, false
	}
	for ; i < len(v); i++ {
		if v[i] < '0' || v[i] > '9' {
			return 0, false
		}
		n = n*10 + int(v[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

// Ints: every string up to len bytes and every pair of bounds.
func Ints() {
	v := sym.StringUpTo("v", 0, sym.Param("len", 4))
	lo, hi := sym.Int("min", -99999, 99999), sym.Int("max", -99999, 99999)
	li, hi2 := sym.Bool("minInc"), sym.Bool("maxInc")
	p := confstore.IntProcessor(lo, li, hi, hi2)
	ok := verdict(p, v)
	n, num := spelled(v)
	in := sym.And(sym.Or(n > lo, sym.And(li, n == lo)), sym.Or(n < hi, sym.And(hi2, n == hi)))
	sym.Assert(ok == sym.And(num, in), "the int processor accepts exactly the decimal integers within its bounds")
	if ok {
		c, is := p.Convert(v).(int)
		sym.Assert(is && c == n, "an integer converts to its value")
	}
	sym.Cover("end")
}

// BigInts: the limits of the predefined processors, at the edge of 32 bits.
func BigInts() {
	d := sym.Int("d", -12, 12)
	base := []int{-1 << 31, 0, 1<<31 - 1, 1 << 40}[sym.Choose("base", 4)]
	n := base + sym.Concrete(d)
	v := strconv.Itoa(n)
	if sym.Bool("plus") && n >= 0 {
		v = "+" + v
	}
	check := func(p confstore.ValueProcessor, want bool) {
		ok := verdict(p, v)
		sym.Assert(ok == want, "the predefined int processors accept exactly their range")
		if ok {
			c, is := p.Convert(v).(int)
			sym.Assert(is && c == n, "an integer converts to its value")
		}
	}
	check(confstore.Int, n >= -1<<31 && n <= 1<<31-1)
	check(confstore.IntGtZero, n > 0 && n <= 1<<31-1)
	check(confstore.IntGtEqZero, n >= 0 && n <= 1<<31-1)
	check(confstore.IntProcessor(-1<<62, true, 1<<62, true), true)
	check(confstore.IntProcessor(base, false, 1<<62, true), n > base)
	check(confstore.IntProcessor(-1<<62, true, base, true), n <= base)
	sym.Cover("end")
}

// LongInts: integers that begin like the limits of the integer types and end in any digits.
func LongInts() {
	prefix := []string{"", "2147483", "4294967", "9223372036854775", "92233720368547758", "922337203685477580", "18446744073709551", "000000000000000000000"}[sym.Choose("prefix", 8)]
	k := sym.Choose("digits", sym.Param("digits", 3)+1)
	if prefix == "" {
		k++
	}
	tail := sym.String("tail", k)
	for i := 0; i < k; i++ {
		sym.Assume(sym.And(tail[i] >= '0', tail[i] <= '9'))
	}
	neg := sym.Bool("neg")
	// Both texts have the same length, so comparing them compares the values.
	v := prefix + tail
	d := v
	for len(d) > 19 && d[0] == '0' {
		d = d[1:]
	}
	limit := "9223372036854775807"
	if neg {
		limit = "9223372036854775808"
	}
	fits := len(d) <= 19
	if len(d) == 19 {
		for i := 18; i >= 0; i-- {
			fits = sym.Or(d[i] < limit[i], sym.And(d[i] == limit[i], fits))
		}
	}
	n := 0
	for i := 0; i < len(v); i++ {
		n = n*10 + int(v[i]-'0')
	}
	text := v
	if neg {
		n, text = -n, "-"+v
	}
	check := func(p confstore.ValueProcessor, in bool) {
		ok := verdict(p, text)
		sym.Assert(ok == sym.And(fits, in), "the int processor accepts exactly the decimal integers within its bounds")
		if ok {
			c, is := p.Convert(text).(int)
			sym.Assert(is && c == n, "an integer converts to its value")
		}
	}
	check(confstore.IntProcessor(-1<<63, true, 1<<63-1, true), true)
	check(confstore.Int, sym.And(n >= -1<<31, n <= 1<<31-1))
	lo, hi := sym.Int("lo", -1<<63, 1<<63-1), sym.Int("hi", -1<<63, 1<<63-1)
	check(confstore.IntProcessor(lo, true, hi, false), sym.And(n >= lo, n < hi))
	sym.Cover("end")
}

// Durations: every string up to len bytes, against Go's parser.
func Durations() {
	v := sym.StringUpTo("v", 0, sym.Param("len", 3))
	ok := verdict(confstore.Duration, v)
	d, err := time.ParseDuration(v)
	sym.Assert(ok == (err == nil), "the duration processor accepts exactly Go's durations")
	if ok {
		c, is := confstore.Duration.Convert(v).(time.Duration)
		sym.Assert(is && c == d, "a duration converts to its value")
	}
	sym.Cover("end")
}

// Urls: every string up to len bytes, against Go's parser.
func Urls() {
	v := sym.StringUpTo("v", 0, sym.Param("len", 3))
	if sym.Choose("abs", 2) == 1 {
		v = "http://" + v
	}
	ok := verdict(confstore.Url, v)
	ok2 := verdict(confstore.UrlString, v)
	u, err := url.ParseRequestURI(v)
	want := v == "" || err == nil
	sym.Assert(ok == want && ok2 == want, "the url processors accept exactly Go's request URIs and the empty string")
	if ok {
		c, is := confstore.Url.Convert(v).(*url.URL)
		sym.Assert(is, "a url converts to a url")
		if v == "" {
			sym.Assert(c == nil, "the empty string converts to no url")
		} else {
			sym.Assert(c != nil && c.Host == u.Host && c.Path == u.Path && c.RawQuery == u.RawQuery, "a url converts to what it denotes")
		}
		s, is := confstore.UrlString.Convert(v).(string)
		sym.Assert(is && s == v, "a url string converts to itself")
	}
	sym.Cover("end")
}

func hexDigit(c byte) bool {
	return sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F')))
}

// Colors: strings of any bytes around the length of a color.
func Colors() {
	n := sym.Param("len", 8)
	v := sym.StringUpTo("v", sym.Param("from", 0), n)
	ok := verdict(confstore.CssColorHex, v)
	want := len(v) == 7
	if want {
		want = v[0] == '#'
		for i := 1; i < 7; i++ {
			want = sym.And(want, hexDigit(v[i]))
		}
	}
	sym.Assert(ok == sym.Or(want, len(v) == 0), "the css color processor accepts exactly the empty string and # with six hex digits")
	if ok {
		s, is := confstore.CssColorHex.Convert(v).(string)
		sym.Assert(is && s == v, "a color converts to itself")
	}
	sym.Cover("end")
}

// ColorParts: a color with arbitrary text before or after, or an arbitrary byte inside.
func ColorParts() {
	a, b := sym.StringUpTo("before", 0, 2), sym.StringUpTo("after", 0, 2)
	base := "#09afAF"
	i := sym.Choose("at", 8)
	if i < 7 {
		base = base[:i] + sym.String("c", 1) + base[i+1:]
	}
	v := a + base + b
	want := len(a) == 0 && len(b) == 0
	if want {
		want = v[0] == '#'
		for k := 1; k < 7; k++ {
			want = sym.And(want, hexDigit(v[k]))
		}
	}
	sym.Assert(verdict(confstore.CssColorHex, v) == want, "the css color processor accepts exactly # with six hex digits")
	sym.Cover("end")
}

// Enums: any value against members that may be anything.
func Enums() {
	v := sym.StringUpTo("v", 0, 2)
	m := []string{sym.StringUpTo("m0", 0, 2), sym.StringUpTo("m1", 0, 1)}[:sym.Choose("members", 3)]
	p := confstore.EnumProcessor(m)
	ok := verdict(p, v)
	want := false
	for _, x := range m {
		want = sym.Or(want, sym.Eq(x, v))
	}
	sym.Assert(ok == want, "the enum processor accepts exactly its members")
	s, is := p.Convert(v).(string)
	sym.Assert(is && s == v, "a member converts to itself")
	sym.Cover("end")
}
