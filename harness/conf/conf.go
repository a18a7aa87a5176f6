// Package conf checks the loader of configurations.
package conf

import (
	"errors"
	"flag"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/chanjarster/gears/conf"
	"github.com/chanjarster/gears/zzverif/sym"
)

// disk is the files of the engine; a native replay writes them.
var disk map[string]string

//gosym:replace os.ReadFile
func readFile(name string) ([]byte, error) {
	s, ok := disk[name]
	if !ok {
		return nil, errors.New("open " + name + ": no such file or directory")
	}
	return []byte(s), nil
}

type opened struct {
	rest string
}

var openFiles map[*os.File]*opened

//gosym:replace os.Open
func open(name string) (*os.File, error) {
	s, ok := disk[name]
	if !ok {
		return nil, errors.New("open " + name + ": no such file or directory")
	}
	f := new(os.File)
	openFiles[f] = &opened{s}
	return f, nil
}

//gosym:replace (*os.File).Read
func read(f *os.File, b []byte) (int, error) {
	o := openFiles[f]
	if o == nil {
		return 0, os.ErrInvalid
	}
	if o.rest == "" && len(b) > 0 {
		return 0, io.EOF
	}
	n := copy(b, o.rest)
	o.rest = o.rest[n:]
	return n, nil
}

//gosym:replace (*os.File).Close
func closeFile(f *os.File) error { return nil }

func file(name, content string) string {
	if sym.Symbolic() {
		disk[name] = content
		return name
	}
	path := filepath.Join(os.TempDir(), name)
	if err := os.WriteFile(path, []byte(content), 0o600); err != nil {
		panic(err)
	}
	return path
}

//gosym:replace os.NewFile
func newFile(fd uintptr, name string) *os.File { return new(os.File) }

// The text of a default value, which only a usage message shows.
//
//gosym:replace (*flag.intValue).String; (*flag.int64Value).String; (*flag.uintValue).String; (*flag.uint64Value).String; (*flag.durationValue).String; (*flag.float64Value).String; (*flag.boolValue).String; (*flag.stringValue).String
func defaultText(p *int) string { return "?" }

//gosym:replace (*flag.FlagSet).PrintDefaults
func printDefaults(f *flag.FlagSet) {}

// exited is how a process that would end does.
type exited struct{ code int }

//gosym:replace os.Exit
func exit(code int) { panic(exited{code}) }

// load runs conf.Load in a fresh process, as it were. ok is false if the process ends with an error.
func load(c interface{}, yamlFlag string, args []string) (ok bool) {
	sym.OnExit(exit)
	os.Args = append([]string{"prog"}, args...)
	flag.CommandLine = flag.NewFlagSet("prog", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	defer func() {
		switch r := recover().(type) {
		case nil:
		case exited:
			sym.Assert(r.code != 0, "a refusal is an error")
			ok = false
		case error: // the flag package refuses
			if _, stop := sym.IsStop(r); stop {
				panic(r)
			}
			if re, bad := r.(interface{ RuntimeError() }); bad {
				panic(re)
			}
			ok = false
		default:
			panic(r)
		}
	}()
	conf.Load(c, yamlFlag)
	return true
}

// val is the value of a field.
type val struct {
	b bool
	i int64
	u uint64
	f float64
	s string
}

// field is an exported field of a supported type.
type field struct {
	path string
	yaml []string
	kind byte
	ptr  func() interface{} // pointer to the value, nil if there is none
}

// rich asks for more forms of values.
func rich() bool { return sym.Param("rich", 0) == 1 }

// digits makes a decimal number of one or two digits.
func digits(name string, neg bool) (string, int) {
	form := 1
	if !rich() {
	} else if neg {
		form = sym.Choose(name+"form", 3)
	} else {
		form = sym.Choose(name+"form", 2)
	}
	a, b := sym.Int(name+"a", 1, 9), sym.Int(name+"b", 0, 9)
	switch form {
	case 0:
		return string([]byte{'0' + byte(b)}), b
	case 1:
		return string([]byte{'0' + byte(a), '0' + byte(b)}), 10*a + b
	}
	return string([]byte{'-', '0' + byte(a), '0' + byte(b)}), -10*a - b
}

// gen makes a value and its text.
func gen(kind byte, name string) (string, val) {
	switch kind {
	case 'b':
		n := 2
		if rich() {
			n = 4
		}
		t := []string{"true", "false", "1", "F"}[sym.Choose(name, n)]
		return t, val{b: t == "true" || t == "1"}
	case 'i', 'I':
		t, n := digits(name, true)
		return t, val{i: int64(n)}
	case 'u', 'U':
		t, n := digits(name, false)
		return t, val{u: uint64(n)}
	case 'd':
		t, n := digits(name, true)
		return t + "ms", val{i: int64(n) * int64(time.Millisecond)}
	case 'f':
		n := 1
		if rich() {
			n = 3
		}
		t := []string{"1.5", "-2", "3e2"}[sym.Choose(name, n)]
		return t, val{f: map[string]float64{"1.5": 1.5, "-2": -2, "3e2": 300}[t]}
	}
	s := sym.StringUpTo(name, 1-sym.Param("rich", 0), sym.Param("len", 1))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 0) // cannot be passed to a process
	}
	return s, val{s: s}
}

// preset is a value from before loading.
func preset(kind byte, name string) val {
	switch kind {
	case 'b':
		return val{b: sym.Bool(name)}
	case 'i', 'I', 'd':
		return val{i: sym.Int64(name, -1<<62, 1<<62)}
	case 'u', 'U':
		return val{u: uint64(sym.Int64(name, 0, 1<<62))}
	case 'f':
		return val{f: 4.25}
	}
	return val{s: sym.StringUpTo(name, 0, 2)}
}

// yamlText is a value for the yaml file; the salt makes different ones.
func yamlText(kind byte, salt int) (string, val) {
	switch kind {
	case 'b':
		return "true", val{b: true}
	case 'i', 'I':
		n := 1000 + salt
		return strconv.Itoa(n), val{i: int64(n)}
	case 'u', 'U':
		n := 1000 + salt
		return strconv.Itoa(n), val{u: uint64(n)}
	case 'd':
		n := 1000 + salt
		return strconv.Itoa(n) + "ms", val{i: int64(n) * int64(time.Millisecond)}
	case 'f':
		n := 1000 + salt
		return strconv.Itoa(n) + ".5", val{f: float64(n) + 0.5}
	}
	s := "yaml" + strconv.Itoa(salt)
	return s, val{s: s}
}

// has reads the value at a pointer.
func has(p interface{}) val {
	switch x := p.(type) {
	case *bool:
		return val{b: *x}
	case *int:
		return val{i: int64(*x)}
	case *int64:
		return val{i: *x}
	case *time.Duration:
		return val{i: int64(*x)}
	case *uint:
		return val{u: uint64(*x)}
	case *uint64:
		return val{u: *x}
	case *float64:
		return val{f: *x}
	case *string:
		return val{s: *x}
	case *Switch:
		return val{b: bool(*x)}
	case *Level:
		return val{i: int64(*x)}
	case *Big:
		return val{i: int64(*x)}
	case *Count:
		return val{u: uint64(*x)}
	case *Huge:
		return val{u: uint64(*x)}
	case *Ratio:
		return val{f: float64(*x)}
	case *Label:
		return val{s: string(*x)}
	}
	panic("kind")
}

// put writes a value.
func put(p interface{}, v val) {
	switch x := p.(type) {
	case *bool:
		*x = v.b
	case *int:
		*x = int(v.i)
	case *int64:
		*x = v.i
	case *time.Duration:
		*x = time.Duration(v.i)
	case *uint:
		*x = uint(v.u)
	case *uint64:
		*x = v.u
	case *float64:
		*x = v.f
	case *string:
		*x = v.s
	case *Switch:
		*x = Switch(v.b)
	case *Level:
		*x = Level(v.i)
	case *Big:
		*x = Big(v.i)
	case *Count:
		*x = Count(v.u)
	case *Huge:
		*x = Huge(v.u)
	case *Ratio:
		*x = Ratio(v.f)
	case *Label:
		*x = Label(v.s)
	default:
		panic("kind")
	}
}

// same compares the part of a value that its kind has.
func same(kind byte, a, b val) bool {
	switch kind {
	case 'b':
		return a.b == b.b
	case 'i', 'I', 'd':
		return a.i == b.i
	case 'u', 'U':
		return a.u == b.u
	case 'f':
		return a.f == b.f
	}
	return a.s == b.s
}

// names of a path, by the documented convention: words are separated by dashes.
func names(path string) (flagName, env string) {
	f, e := []byte{}, []byte{}
	begins := true
	for i := 0; i < len(path); i++ {
		c := path[i]
		if c == '.' {
			f, e = append(f, '-'), append(e, '_')
			begins = true
			continue
		}
		upper, lower := sym.And('A' <= c, c <= 'Z'), sym.And('a' <= c, c <= 'z')
		if !begins && upper {
			f, e = append(f, '-'), append(e, '_')
		}
		begins = false
		f, e = append(f, c+byte(sym.IteInt(upper, 32, 0))), append(e, c-byte(sym.IteInt(lower, 32, 0)))
	}
	return string(f), string(e)
}

// Names: the names of any path.
func Names() {
	path := sym.StringUpTo("path", 0, sym.Param("len", 4))
	f, e := conf.VerifNames(path)
	wf, we := names(path)
	sym.Cover("end")
	sym.Assert(f == wf, "flag name")
	sym.Assert(e == we, "environment name")
}

// document writes a yaml file. Fields with the same beginning must be neighbours.
func document(fs []*field, texts []string) string {
	out := ""
	var open []string
	for i, f := range fs {
		if texts[i] == "" {
			continue
		}
		n := 0
		for n < len(open) && n < len(f.yaml)-1 && open[n] == f.yaml[n] {
			n++
		}
		open = open[:n]
		for d := n; d < len(f.yaml); d++ {
			for k := 0; k < d; k++ {
				out += "  "
			}
			out += f.yaml[d] + ":"
			if d < len(f.yaml)-1 {
				open = append(open, f.yaml[d])
			} else if texts[i] != "-" {
				out += " " + texts[i]
			}
			out += "\n"
		}
	}
	return out
}

// Sources: two fields get values from any of the sources.
func Sources() {
	disk, openFiles = map[string]string{}, map[*os.File]*opened{}
	sh := shape()
	fs := sh.fields
	a := sym.Choose("a", len(fs))
	picked := []int{a}
	if sym.Param("two", 1) == 1 {
		if b := sym.Choose("b", len(fs)); b != a {
			sym.Assume(b > a)
			picked = append(picked, b)
		}
	}
	texts := make([]string, len(fs))
	var args []string
	want := make([]val, len(fs))
	known := make([]bool, len(fs))
	for i, f := range fs {
		if p := f.ptr(); p != nil {
			want[i], known[i] = has(p), true
		} else {
			known[i] = true // zero
		}
	}
	for _, i := range picked {
		f := fs[i]
		id := strconv.Itoa(i)
		fl, env := names(f.path)
		if p := f.ptr(); p != nil && rich() && sym.Choose("preset"+id, 2) == 1 {
			v := preset(f.kind, "was"+id)
			put(p, v)
			want[i] = v
		}
		from := sym.Choose("from"+id, 8)
		if from&1 != 0 {
			texts[i], want[i] = yamlText(f.kind, i)
		}
		if from&2 != 0 {
			t, v := gen(f.kind, "env"+id)
			sym.Setenv(env, t)
			want[i] = v
		}
		if from&4 != 0 {
			t, v := gen(f.kind, "flag"+id)
			want[i] = v
			form := 0
			if rich() {
				form = sym.Choose("form"+id, 3)
			}
			switch form {
			case 0:
				args = append(args, "-"+fl+"="+t)
			case 1:
				args = append(args, "--"+fl+"="+t)
			case 2:
				if f.kind == 'b' { // without a value
					args = append(args, "-"+fl)
					want[i] = val{b: true}
				} else {
					args = append(args, "-"+fl, t)
				}
			}
		}
	}
	// a section without content, which sets nothing
	null := 0
	if sym.Param("null", 0) == 1 {
		null = sym.Choose("null", len(sh.sections)+1)
	}
	doc := ""
	if null > 0 {
		sec := sh.sections[null-1]
		for i, f := range fs {
			sym.Assume(texts[i] == "" || !under(f.yaml, sec))
		}
		fs2, texts2 := append([]*field{{yaml: sec}}, fs...), append([]string{"-"}, texts...)
		doc = document(fs2, texts2)
	} else {
		doc = document(fs, texts)
	}
	if doc != "" {
		// the file's flag comes first or last
		a := "-c=" + file("c.yaml", doc)
		if rich() && sym.Choose("filelast", 2) == 1 {
			args = append(args, a)
		} else {
			args = append([]string{a}, args...)
		}
	}
	keep := sh.before()
	ok := load(sh.conf, "c", args)
	sym.Cover("end")
	sym.Assert(ok, "well-formed values are accepted")
	for i, f := range fs {
		p := f.ptr()
		sym.Assert(p != nil, "pointers are initialised")
		if known[i] {
			sym.Assert(same(f.kind, has(p), want[i]), "a field has the value of the source that takes precedence")
		}
	}
	keep()
}

// Twice: two values of the same type are loaded one after the other, a field of each from any of the
// sources. Neither load affects the other value.
func Twice() {
	disk, openFiles = map[string]string{}, map[*os.File]*opened{}
	n := sym.Choose("shape", 7)
	sh := [2]*target{shapeNo(n), shapeNo(n)}
	a := sym.Choose("a", len(sh[0].fields))
	var want [2]val
	env := false
	var inherited val
	for k, t := range sh {
		id := strconv.Itoa(k)
		f := t.fields[a]
		if p := f.ptr(); p != nil {
			want[k] = has(p)
		}
		fl, name := names(f.path)
		texts := make([]string, len(t.fields))
		var args []string
		from := sym.Choose("from"+id, 8)
		if from&1 != 0 {
			texts[a], want[k] = yamlText(f.kind, a+k)
			args = append(args, "-c="+file("c"+id+".yaml", document(t.fields, texts)))
		}
		if from&2 != 0 {
			s, v := digit(f.kind, "env"+id)
			sym.Setenv(name, s)
			env, inherited = true, v
		}
		if env { // it stays set
			want[k] = inherited
		}
		if from&4 != 0 {
			s, v := digit(f.kind, "flag"+id)
			want[k] = v
			args = append(args, "-"+fl+"="+s)
		}
		sym.Assert(load(t.conf, "c", args), "well-formed values are accepted")
	}
	for k, t := range sh {
		p := t.fields[a].ptr()
		sym.Assert(p != nil, "pointers are initialised")
		if p != nil {
			sym.Assert(same(t.fields[a].kind, has(p), want[k]), "a field has the value of its own sources")
		}
	}
	sym.Cover("end")
}

func under(path, sec []string) bool {
	if len(path) < len(sec) {
		// the section is inside a field's value: cannot be
		return false
	}
	for i := range sec {
		if path[i] != sec[i] {
			return false
		}
	}
	return true
}

// All: every field gets values, neighbours from different sources.
func All() {
	disk, openFiles = map[string]string{}, map[*os.File]*opened{}
	sh := shape()
	fs := sh.fields
	texts := make([]string, len(fs))
	want := make([]val, len(fs))
	var args []string
	from := [2]int{sym.Choose("even", 8), sym.Choose("odd", 8)}
	form := sym.Choose("form", 3)
	for i, f := range fs {
		id := strconv.Itoa(i)
		fl, env := names(f.path)
		if p := f.ptr(); p != nil {
			want[i] = has(p)
		}
		if from[i%2]&1 != 0 {
			texts[i], want[i] = yamlText(f.kind, i)
		}
		if from[i%2]&2 != 0 {
			t, v := digit(f.kind, "env"+id)
			sym.Setenv(env, t)
			want[i] = v
		}
		if from[i%2]&4 != 0 {
			t, v := digit(f.kind, "flag"+id)
			want[i] = v
			switch {
			case form == 0:
				args = append(args, "-"+fl+"="+t)
			case form == 1 || f.kind == 'b':
				args = append(args, "--"+fl+"="+t)
			default:
				args = append(args, "-"+fl, t)
			}
		}
	}
	if doc := document(fs, texts); doc != "" {
		a := "-c=" + file("c.yaml", doc)
		if form == 0 {
			args = append([]string{a}, args...)
		} else {
			args = append(args, a)
		}
	}
	keep := sh.before()
	ok := load(sh.conf, "c", args)
	sym.Cover("end")
	sym.Assert(ok, "well-formed values are accepted")
	for i, f := range fs {
		p := f.ptr()
		sym.Assert(p != nil, "pointers are initialised")
		if p != nil {
			sym.Assert(same(f.kind, has(p), want[i]), "a field has the value of the source that takes precedence")
		}
	}
	keep()
}

// digit makes a value with one arbitrary character.
func digit(kind byte, name string) (string, val) {
	switch kind {
	case 'b':
		return "true", val{b: true}
	case 'f':
		return "1.5", val{f: 1.5}
	case 's':
		s := "x" + sym.String(name, 1)
		sym.Assume(s[1] != 0)
		return s, val{s: s}
	}
	n := sym.Int(name, 0, 9)
	t := string([]byte{'4', '0' + byte(n)})
	n += 40
	switch kind {
	case 'i', 'I':
		return t, val{i: int64(n)}
	case 'u', 'U':
		return t, val{u: uint64(n)}
	}
	return t + "ms", val{i: int64(n) * int64(time.Millisecond)}
}

// Malformed: a value that is no value of the field's type is refused.
func Malformed() {
	disk, openFiles = map[string]string{}, map[*os.File]*opened{}
	sh := shape()
	fs := sh.fields
	i := sym.Choose("field", len(fs))
	f := fs[i]
	sym.Assume(f.kind != 's')
	fl, env := names(f.path)
	var args []string
	bad := "?"
	if sym.Choose("bad", 2) == 1 {
		bad = sym.StringUpTo("text", 1, 2)
		sym.Assume('g' < bad[0] && bad[0] < 's') // begins no number, duration or truth value
	}
	where := sym.Choose("where", 5)
	switch where {
	case 0:
		sym.Setenv(env, bad)
	case 1:
		args = append(args, "-"+fl+"="+bad)
	case 2:
		texts := make([]string, len(fs))
		texts[i] = "[1, 2]"
		args = append(args, "-c="+file("c.yaml", document(fs, texts)))
	case 3:
		args = append(args, "-c=/nowhere/c.yaml")
	case 4:
		args = append(args, "-c="+file("c.yaml", []string{"[", "7", "x", "{", "- 1", "[]", "a:\n\t- 1\n"}[sym.Choose("junk", 7)]))
	}
	if where == 0 && sym.Choose("flagtoo", 2) == 1 {
		t, _ := gen(f.kind, "flag")
		args = append(args, "-"+fl+"="+t)
	}
	sym.Cover("end")
	sym.Assert(!load(sh.conf, "c", args), "what cannot be used is reported")
}

// Registered: Load offers exactly the exported fields of supported types, under their names, and
// without values it changes nothing but nil pointers.
func Registered() {
	disk, openFiles = map[string]string{}, map[*os.File]*opened{}
	sh := shape()
	want := make([]val, len(sh.fields))
	for i, f := range sh.fields {
		if p := f.ptr(); p != nil {
			want[i] = preset(f.kind, "was"+strconv.Itoa(i))
			put(p, want[i])
		}
	}
	keep := sh.before()
	yamlFlag := []string{"c", ""}[sym.Choose("yaml", 2)]
	ok := load(sh.conf, yamlFlag, nil)
	sym.Cover("end")
	sym.Assert(ok, "an empty command line is accepted")
	got := map[string]bool{}
	flag.CommandLine.VisitAll(func(f *flag.Flag) { got[f.Name] = true })
	n := 0
	for i, f := range sh.fields {
		fl, _ := names(f.path)
		sym.Assert(got[fl], "each field has its flag")
		n++
		sym.Assert(f.ptr() != nil, "pointers are initialised")
		sym.Assert(same(f.kind, has(f.ptr()), want[i]), "a field without a source keeps its value")
	}
	if yamlFlag != "" {
		sym.Assert(got[yamlFlag], "the file has its flag")
		n++
	}
	sym.Assert(len(got) == n, "nothing else has a flag")
	keep()
}
