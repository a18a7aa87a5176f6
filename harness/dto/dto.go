// Package dto: maps as JSON.
package dto

import (
	"github.com/chanjarster/gears/dto"
	"github.com/chanjarster/gears/zzverif/sym"
)

// value is a JSON value of one of the kinds, with arbitrary contents.
func value(name string, depth int) interface{} {
	kinds := 4
	if depth > 0 {
		kinds = 6
	}
	switch sym.Choose(name, kinds) {
	case 0:
		return nil
	case 1:
		return sym.Bool(name + " is")
	case 2:
		return numbers[sym.Choose(name+" number", len(numbers))]
	case 3:
		return text(name+" text", sym.Param("len", 1))
	case 4:
		if sym.Bool(name + " is empty") {
			return map[string]interface{}{}
		}
		return map[string]interface{}{"in": value(name+".in", depth-1)}
	}
	if sym.Bool(name + " is empty") {
		return []interface{}{}
	}
	return []interface{}{value(name+"[0]", depth-1), true}
}

var numbers = []float64{0, -1, 7, 1.5, 100000, 123456789, 1 << 53, 1e21, 1e-7, 0.1}

// text is ASCII of up to n bytes.
func text(name string, n int) string {
	s := sym.StringUpTo(name, 0, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

func same(a, b interface{}) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case bool:
		b, ok := b.(bool)
		return ok && a == b
	case float64:
		b, ok := b.(float64)
		return ok && a == b
	case string:
		b, ok := b.(string)
		return ok && a == b
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !same(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		return ok && sameMap(a, b)
	}
	return false
}

func sameMap(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !same(v, w) {
			return false
		}
	}
	return true
}

func roundTrip(m dto.M) {
	b, err := dto.MarshalM(m)
	sym.Assert(err == nil, "a map can be marshalled")
	m2, err := dto.UnmarshalM(b)
	sym.Assert(err == nil, "what was marshalled can be read")
	if err == nil {
		sym.Assert(sameMap(m, m2), "marshalling and unmarshalling gives an equal map")
		sym.Assert((m == nil) == (m2 == nil), "the nil map comes back as the nil map, and only that")
	}
	sym.Cover("end")
}

// RoundTrip: a map with up to two members comes back equal.
func RoundTrip() {
	m := dto.M{}
	switch sym.Choose("members", 4) {
	case 1:
		m["a"] = value("a", sym.Param("depth", 1))
	case 2:
		m["a"] = value("a", 0)
		m["B"] = value("B", 0)
	case 3:
		m = nil
	}
	roundTrip(m)
}

// Keys: whatever the names are.
func Keys() {
	m := dto.M{}
	k := text("key", sym.Param("len", 1))
	m[k] = sym.Bool("value")
	if sym.Bool("two members") {
		l := text("other", 1)
		sym.Assume(l != k)
		m[l] = nil
	}
	roundTrip(m)
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func trim(s string) string {
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

func digit(c byte) bool { return '0' <= c && c <= '9' }

// shortValue tells whether a text of up to three bytes is a JSON value.
func shortValue(s string) bool {
	s = trim(s)
	if len(s) == 0 {
		return false
	}
	if len(s) >= 2 {
		in, last := s[1:len(s)-1], s[len(s)-1]
		switch s[0] {
		case '"':
			return last == '"' && (in == "" || in[0] >= 0x20 && in[0] != '"' && in[0] != '\\' && in[0] < 0x80)
		case '{':
			return last == '}' && trim(in) == ""
		case '[':
			return last == ']' && (trim(in) == "" || shortValue(in))
		}
	}
	if s[0] == '-' {
		s = s[1:]
		if len(s) == 0 {
			return false
		}
	}
	if !digit(s[0]) {
		return false
	}
	switch len(s) {
	case 1:
		return true
	case 2:
		return s[0] != '0' && digit(s[1])
	}
	if (s[1] == '.' || s[1] == 'e' || s[1] == 'E') && digit(s[2]) {
		return true
	}
	return s[0] != '0' && digit(s[1]) && digit(s[2])
}

func read(text string, accept bool) {
	m, err := dto.UnmarshalM([]byte(text))
	if accept {
		sym.Assert(err == nil, "a JSON object is read")
	} else {
		sym.Assert(err != nil, "text that is no JSON object is an error")
		sym.Assert(len(m) == 0, "no map comes with an error")
	}
	sym.Cover("end")
}

// Texts: only JSON objects (and null, the form of the nil map) are read.
func Texts() {
	n := sym.Param("len", 2)
	var x string
	switch sym.Choose("form", 9) {
	case 0:
		x = text("text", n)
		t := trim(x)
		read(x, len(t) >= 2 && t[0] == '{' && t[len(t)-1] == '}' && trim(t[1:len(t)-1]) == "")
	case 1:
		x = text("member", n)
		read(`{"a":`+x+`}`, shortValue(x))
	case 2:
		x = text("rest", n)
		read(`{"a":1}`+x, trim(x) == "")
	case 3:
		x = text("start", n)
		read(x+`{}`, trim(x) == "")
	case 4:
		x = text("end", 1)
		read(`{"a":1`+x, x == "}")
	case 5:
		x = text("list", n)
		read(`[`+x+`]`, false)
	case 6:
		x = text("string", n)
		read(`"`+x+`"`, false)
	case 7:
		x = text("letter", 1)
		read("nul"+x, x == "l")
	case 8:
		x = text("comma", n)
		t := trim(x)
		read(`{"a":true`+x+`"b":2}`, t == "," || t == `,"\`)
	}
}

// Kept: texts and maps made earlier stay as they are, whatever is made later.
func Kept() {
	var texts [2][]byte
	var maps [2]dto.M
	v := [2]interface{}{value("a", sym.Param("depth", 0)), value("b", 0)}
	for i := range texts {
		b, err := dto.MarshalM(dto.M{"m": v[i]})
		sym.Assert(err == nil, "a map can be marshalled")
		texts[i] = b
	}
	for i := range maps {
		m, err := dto.UnmarshalM(texts[i])
		sym.Assert(err == nil, "what was marshalled can be read")
		maps[i] = m
	}
	for _, b := range texts { // the caller's
		for i := range b {
			b[i] = '!'
		}
	}
	for i := range maps {
		sym.Assert(sameMap(maps[i], dto.M{"m": v[i]}), "each text gives the map it was made from, and it stays so")
	}
	sym.Cover("end")
}

var foreign = []string{"\u00e9", "\u65e5\u672c", "\U0001f600", "\u2028", "\u2029x", "\ufeff", "\ufffd", "\x7f", "a\U00010348", "\u0130", "\u212a", "\ue000", "e\u0301"}

// Foreign: text that is not ASCII, as name and as value, also next to arbitrary ASCII.
func Foreign() {
	i := sym.Choose("text", len(foreign))
	k, v := foreign[i], foreign[(i+1)%len(foreign)]
	switch sym.Choose("beside", 3) {
	case 1:
		v = low("before") + v
	case 2:
		v += low("after")
	}
	roundTrip(dto.M{k: v, "x": []interface{}{v, map[string]interface{}{k: nil}}})
}

// low is a control character, a digit or one of the marks before them.
func low(name string) string {
	s := sym.String(name, 1)
	sym.Assume(s[0] < 0x40)
	return s
}
