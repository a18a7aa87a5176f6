package conf

import (
	"time"

	"github.com/chanjarster/gears/zzverif/sym"
)

type target struct {
	conf     interface{}
	fields   []*field
	sections [][]string    // yaml paths of pointers and sections
	before   func() func() // remembers what Load must leave alone; the result checks it
}

type Switch bool
type Level int
type Big int64
type Count uint
type Huge uint64
type Ratio float64
type Label string

// Flat has every kind of field.
type Flat struct {
	On     bool
	Num    int
	BigNum int64
	Cnt    uint
	HugeN  uint64
	Share  float64
	Name   string
	Wait   time.Duration
	X2yZ   int
	URL    string

	hidden int
	secret *int
	Narrow int32
	List   []string
	Table  map[string]int
	Any    interface{}
	Fn     func()
	Ch     chan int
	Arr    [2]int
	PP     **int
}

// Leafs is used as section.
type Leafs struct {
	Host string
	Port int
	Ttl  *time.Duration
	own  *int
}

type Common struct {
	Env   string
	Debug *bool
}

type Shared struct {
	Zone string
	Leaf *Leafs
}

type hiddenPart struct{ Visible int }

// Nested has structs, pointers and embedded structs.
type Nested struct {
	Common   `yaml:",inline"`
	Redis    Leafs
	MySql    *Leafs
	DeepPart *struct {
		In struct {
			Num *int
			On  *bool
		}
		Cnt *uint
		Raw *string
	}
	private *Leafs
	closed  Leafs
	Maybe   interface{}
	Parts   []*Leafs
	ByName  map[string]*Leafs
}

// Embed embeds a pointer, and types inside types.
type Embed struct {
	*Shared `yaml:",inline"`
	Part    struct {
		Common `yaml:",inline"`
		More   int
	}
	HugeN *uint64
	BigN  *int64
	Share *float64
}

// Named has fields of named types.
type Named struct {
	Sw   Switch
	Lv   Level
	Bg   Big
	Cn   Count
	Hg   Huge
	Rt   Ratio
	Lb   Label
	PLv  *Level
	PLb  *Label
	Sect *struct{ Lv Level }
}

// Part and Mixed: a pointer that is embedded below the top.
type Part struct {
	Weight  int
	SubPart *struct{ Colour *string }
}

type Mixed struct {
	*Part `yaml:",inline"`
	Extra bool
}

// Deep has sections inside sections, with long names.
type Deep struct {
	PaymentGateway struct {
		ConnectionPool *struct {
			HealthChecking struct {
				FailureHandling *struct {
					RetryIntervals *struct {
						InitialBackoff  *int64
						MaximumAttempts int
					}
					GiveUp uint
				}
			}
			Mixed *Mixed // named like its type
		}
		Merged Mixed
	}
	A struct {
		B *struct {
			C struct {
				D *struct{ E, F struct{ G *string } }
			}
		}
	}
}

func shape() *target {
	if n := sym.Param("shape", -1); n >= 0 {
		return shapeNo(n)
	}
	return shapeNo(sym.Choose("shape", 7))
}

func shapeNo(n int) *target {
	switch n {
	case 0:
		x := 7
		px := &x
		c := &Flat{hidden: 1, secret: px, Narrow: 2, List: []string{"l"}, Table: map[string]int{"k": 3}, Any: 4, Arr: [2]int{5, 6}, PP: &px}
		return &target{
			conf: c,
			fields: []*field{
				{"On", []string{"on"}, 'b', func() interface{} { return &c.On }},
				{"Num", []string{"num"}, 'i', func() interface{} { return &c.Num }},
				{"BigNum", []string{"bignum"}, 'I', func() interface{} { return &c.BigNum }},
				{"Cnt", []string{"cnt"}, 'u', func() interface{} { return &c.Cnt }},
				{"HugeN", []string{"hugen"}, 'U', func() interface{} { return &c.HugeN }},
				{"Share", []string{"share"}, 'f', func() interface{} { return &c.Share }},
				{"Name", []string{"name"}, 's', func() interface{} { return &c.Name }},
				{"Wait", []string{"wait"}, 'd', func() interface{} { return &c.Wait }},
				{"X2yZ", []string{"x2yz"}, 'i', func() interface{} { return &c.X2yZ }},
				{"URL", []string{"url"}, 's', func() interface{} { return &c.URL }},
			},
			sections: [][]string{{"num"}, {"name"}},
			before: func() func() {
				return func() {
					sym.Assert(c.hidden == 1 && c.secret == px && x == 7, "unexported fields are left alone")
					sym.Assert(c.Narrow == 2 && len(c.List) == 1 && c.List[0] == "l" && len(c.Table) == 1 && c.Table["k"] == 3 &&
						c.Any == 4 && c.Fn == nil && c.Ch == nil && c.Arr == [2]int{5, 6} && c.PP == &px, "fields of other types are left alone")
				}
			},
		}
	case 1, 2:
		c := &Nested{}
		own, part := 1, &Leafs{}
		c.closed.Port = 9
		var mysql *Leafs
		if n == 2 { // pointers are there already
			mysql = &Leafs{Host: "there", Port: 12, own: &own}
			c.MySql = mysql
			c.Parts, c.ByName, c.Maybe = []*Leafs{nil, part}, map[string]*Leafs{"a": nil}, part
			c.private = part
		}
		leafs := func(path, yaml string, l func() *Leafs) []*field {
			return []*field{
				{path + ".Host", []string{yaml, "host"}, 's', func() interface{} {
					if l() == nil {
						return nil
					}
					return &l().Host
				}},
				{path + ".Port", []string{yaml, "port"}, 'i', func() interface{} {
					if l() == nil {
						return nil
					}
					return &l().Port
				}},
				{path + ".Ttl", []string{yaml, "ttl"}, 'd', func() interface{} {
					if l() == nil || l().Ttl == nil {
						return nil
					}
					return l().Ttl
				}},
			}
		}
		fs := []*field{
			{"Env", []string{"env"}, 's', func() interface{} { return &c.Env }},
			{"Debug", []string{"debug"}, 'b', func() interface{} {
				if c.Debug == nil {
					return nil
				}
				return c.Debug
			}},
		}
		fs = append(fs, leafs("Redis", "redis", func() *Leafs { return &c.Redis })...)
		fs = append(fs, leafs("MySql", "mysql", func() *Leafs { return c.MySql })...)
		fs = append(fs,
			&field{"DeepPart.In.Num", []string{"deeppart", "in", "num"}, 'i', func() interface{} {
				if c.DeepPart == nil || c.DeepPart.In.Num == nil {
					return nil
				}
				return c.DeepPart.In.Num
			}},
			&field{"DeepPart.In.On", []string{"deeppart", "in", "on"}, 'b', func() interface{} {
				if c.DeepPart == nil || c.DeepPart.In.On == nil {
					return nil
				}
				return c.DeepPart.In.On
			}},
			&field{"DeepPart.Cnt", []string{"deeppart", "cnt"}, 'u', func() interface{} {
				if c.DeepPart == nil || c.DeepPart.Cnt == nil {
					return nil
				}
				return c.DeepPart.Cnt
			}},
			&field{"DeepPart.Raw", []string{"deeppart", "raw"}, 's', func() interface{} {
				if c.DeepPart == nil || c.DeepPart.Raw == nil {
					return nil
				}
				return c.DeepPart.Raw
			}},
		)
		return &target{
			conf:     c,
			fields:   fs,
			sections: [][]string{{"redis"}, {"mysql"}, {"deeppart"}, {"deeppart", "in"}, {"deeppart", "cnt"}, {"redis", "ttl"}, {"debug"}},
			before: func() func() {
				return func() {
					sym.Assert(c.closed.Port == 9 && c.closed.Ttl == nil, "unexported fields are left alone")
					sym.Assert(c.Redis.own == nil, "unexported fields are left alone")
					if n == 1 {
						sym.Assert(c.private == nil && c.MySql.own == nil, "unexported fields are left alone")
						sym.Assert(c.Maybe == nil && c.Parts == nil && c.ByName == nil, "fields of other types are left alone")
					} else {
						sym.Assert(c.MySql == mysql, "pointers that are there are kept")
						sym.Assert(c.MySql.own == &own && own == 1 && c.private == part && *part == Leafs{}, "unexported fields are left alone")
						sym.Assert(c.Maybe == part && len(c.Parts) == 2 && c.Parts[0] == nil && c.Parts[1] == part && len(c.ByName) == 1 && c.ByName["a"] == nil, "fields of other types are left alone")
					}
				}
			},
		}
	case 3, 4:
		c := &Embed{}
		var shared *Shared
		if n == 4 {
			shared = &Shared{Zone: "z"}
			c.Shared = shared
		}
		return &target{
			conf: c,
			fields: []*field{
				{"Zone", []string{"zone"}, 's', func() interface{} {
					if c.Shared == nil {
						return nil
					}
					return &c.Zone
				}},
				{"Leaf.Host", []string{"leaf", "host"}, 's', func() interface{} {
					if c.Shared == nil || c.Leaf == nil {
						return nil
					}
					return &c.Leaf.Host
				}},
				{"Leaf.Port", []string{"leaf", "port"}, 'i', func() interface{} {
					if c.Shared == nil || c.Leaf == nil {
						return nil
					}
					return &c.Leaf.Port
				}},
				{"Leaf.Ttl", []string{"leaf", "ttl"}, 'd', func() interface{} {
					if c.Shared == nil || c.Leaf == nil || c.Leaf.Ttl == nil {
						return nil
					}
					return c.Leaf.Ttl
				}},
				{"Part.Env", []string{"part", "env"}, 's', func() interface{} { return &c.Part.Env }},
				{"Part.Debug", []string{"part", "debug"}, 'b', func() interface{} {
					if c.Part.Debug == nil {
						return nil
					}
					return c.Part.Debug
				}},
				{"Part.More", []string{"part", "more"}, 'i', func() interface{} { return &c.Part.More }},
				{"HugeN", []string{"hugen"}, 'U', func() interface{} {
					if c.HugeN == nil {
						return nil
					}
					return c.HugeN
				}},
				{"BigN", []string{"bign"}, 'I', func() interface{} {
					if c.BigN == nil {
						return nil
					}
					return c.BigN
				}},
				{"Share", []string{"share"}, 'f', func() interface{} {
					if c.Share == nil {
						return nil
					}
					return c.Share
				}},
			},
			sections: [][]string{{"leaf"}, {"part"}, {"part", "debug"}, {"hugen"}},
			before: func() func() {
				return func() {
					sym.Assert(n == 3 || c.Shared == shared, "pointers that are there are kept")
				}
			},
		}
	}
	if n == 6 {
		return deep()
	}
	c := &Named{}
	return &target{
		conf: c,
		fields: []*field{
			{"Sw", []string{"sw"}, 'b', func() interface{} { return &c.Sw }},
			{"Lv", []string{"lv"}, 'i', func() interface{} { return &c.Lv }},
			{"Bg", []string{"bg"}, 'I', func() interface{} { return &c.Bg }},
			{"Cn", []string{"cn"}, 'u', func() interface{} { return &c.Cn }},
			{"Hg", []string{"hg"}, 'U', func() interface{} { return &c.Hg }},
			{"Rt", []string{"rt"}, 'f', func() interface{} { return &c.Rt }},
			{"Lb", []string{"lb"}, 's', func() interface{} { return &c.Lb }},
			{"PLv", []string{"plv"}, 'i', func() interface{} {
				if c.PLv == nil {
					return nil
				}
				return c.PLv
			}},
			{"PLb", []string{"plb"}, 's', func() interface{} {
				if c.PLb == nil {
					return nil
				}
				return c.PLb
			}},
			{"Sect.Lv", []string{"sect", "lv"}, 'i', func() interface{} {
				if c.Sect == nil {
					return nil
				}
				return &c.Sect.Lv
			}},
		},
		sections: [][]string{{"plv"}, {"sect"}},
		before:   func() func() { return func() {} },
	}
}

func deep() *target {
	c := &Deep{}
	g := &c.PaymentGateway
	mixed := func(path string, yaml []string, m func() *Mixed) []*field {
		in := func(names ...string) []string { return append(append([]string(nil), yaml...), names...) }
		return []*field{
			{path + ".Weight", in("weight"), 'i', func() interface{} {
				if m() == nil || m().Part == nil {
					return nil
				}
				return &m().Weight
			}},
			{path + ".SubPart.Colour", in("subpart", "colour"), 's', func() interface{} {
				if m() == nil || m().Part == nil || m().SubPart == nil || m().SubPart.Colour == nil {
					return nil
				}
				return m().SubPart.Colour
			}},
			{path + ".Extra", in("extra"), 'b', func() interface{} {
				if m() == nil {
					return nil
				}
				return &m().Extra
			}},
		}
	}
	const up = "PaymentGateway.ConnectionPool.HealthChecking.FailureHandling"
	yup := func(names ...string) []string {
		return append([]string{"paymentgateway", "connectionpool", "healthchecking", "failurehandling"}, names...)
	}
	fs := []*field{
		{up + ".RetryIntervals.InitialBackoff", yup("retryintervals", "initialbackoff"), 'I', func() interface{} {
			if p := g.ConnectionPool; p == nil || p.HealthChecking.FailureHandling == nil || p.HealthChecking.FailureHandling.RetryIntervals == nil ||
				p.HealthChecking.FailureHandling.RetryIntervals.InitialBackoff == nil {
				return nil
			}
			return g.ConnectionPool.HealthChecking.FailureHandling.RetryIntervals.InitialBackoff
		}},
		{up + ".RetryIntervals.MaximumAttempts", yup("retryintervals", "maximumattempts"), 'i', func() interface{} {
			if p := g.ConnectionPool; p == nil || p.HealthChecking.FailureHandling == nil || p.HealthChecking.FailureHandling.RetryIntervals == nil {
				return nil
			}
			return &g.ConnectionPool.HealthChecking.FailureHandling.RetryIntervals.MaximumAttempts
		}},
		{up + ".GiveUp", yup("giveup"), 'u', func() interface{} {
			if p := g.ConnectionPool; p == nil || p.HealthChecking.FailureHandling == nil {
				return nil
			}
			return &g.ConnectionPool.HealthChecking.FailureHandling.GiveUp
		}},
	}
	fs = append(fs, mixed("PaymentGateway.ConnectionPool.Mixed", []string{"paymentgateway", "connectionpool", "mixed"}, func() *Mixed {
		if g.ConnectionPool == nil {
			return nil
		}
		return g.ConnectionPool.Mixed
	})...)
	fs = append(fs, mixed("PaymentGateway.Merged", []string{"paymentgateway", "merged"}, func() *Mixed { return &g.Merged })...)
	for _, last := range []string{"E", "F"} {
		last := last
		fs = append(fs, &field{"A.B.C.D." + last + ".G", []string{"a", "b", "c", "d", string([]byte{last[0] + 32}), "g"}, 's', func() interface{} {
			if b := c.A.B; b == nil || b.C.D == nil {
				return nil
			}
			x := &c.A.B.C.D.E.G
			if last == "F" {
				x = &c.A.B.C.D.F.G
			}
			if *x == nil {
				return nil
			}
			return *x
		}})
	}
	return &target{
		conf:     c,
		fields:   fs,
		sections: [][]string{{"paymentgateway"}, {"paymentgateway", "connectionpool"}, yup(), yup("retryintervals"), {"paymentgateway", "connectionpool", "mixed"}, {"a", "b"}, {"a", "b", "c", "d", "e"}},
		before:   func() func() { return func() {} },
	}
}
