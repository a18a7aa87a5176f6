package cfg

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"
	_ "unsafe"

	"github.com/SkyAPM/go2sky"
	"github.com/go-sql-driver/mysql"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzverif/sym"
)

// In a native replay the drivers' own implementations give way to the one
// below; in the engine sql.Open does.
//
//go:linkname drivers database/sql.drivers
var drivers map[string]driver.Driver

// opened is what was handed to a driver.
type opened struct {
	driver string
	dsn    string
	pinged int
}

func (o *opened) Open(dsn string) (driver.Conn, error) {
	o.dsn = dsn
	o.pinged++
	return &conn{o}, nil
}
func (o *opened) Connect(context.Context) (driver.Conn, error) { return o.Open(o.dsn) }
func (o *opened) Driver() driver.Driver                        { return o }

type conn struct{ o *opened }

var errConn = errors.New("no statements here")

func (c *conn) Prepare(string) (driver.Stmt, error) { return nil, errConn }
func (c *conn) Close() error                        { return nil }
func (c *conn) Begin() (driver.Tx, error)           { return nil, errConn }
func (c *conn) Ping(context.Context) error          { return nil }

var last *opened

//gosym:replace database/sql.Open
func open(name, dsn string) (*sql.DB, error) {
	last.driver, last.dsn = name, dsn
	return sql.OpenDB(last), nil
}

// watch makes the driver of that name the one above.
func watch(name string) *opened {
	simplelog.StdLogger.SetOutput(none{})
	last = &opened{driver: name}
	if !sym.Symbolic() {
		drivers[name] = last
	}
	return last
}

type none struct{}

func (none) Write(b []byte) (int, error) { return len(b), nil }

// pairs is what a parameter string says, in its order.
func pairs(s string) (names, values []string) {
	start := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '&' {
			continue
		}
		p := s[start:i]
		start = i + 1
		eq, n := 0, 0
		for j := 0; j < len(p); j++ {
			if p[j] == '=' {
				eq = j
				n++
			}
		}
		if n != 1 {
			continue
		}
		v, ok := decode(p[eq+1:])
		if !ok {
			continue
		}
		names, values = append(names, p[:eq]), append(values, v)
	}
	return
}

func hex(b byte) (byte, bool) {
	switch {
	case b >= '0' && b <= '9':
		return b - '0', true
	case b >= 'a' && b <= 'f':
		return b - 'a' + 10, true
	case b >= 'A' && b <= 'F':
		return b - 'A' + 10, true
	}
	return 0, false
}

// decode undoes url encoding.
func decode(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			out = append(out, ' ')
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, ok1 := hex(s[i+1])
			l, ok2 := hex(s[i+2])
			if !ok1 || !ok2 {
				return "", false
			}
			out = append(out, h<<4|l)
			i += 2
		default:
			out = append(out, s[i])
		}
	}
	return string(out), true
}

// param is a parameter string: names are letters, the rest is arbitrary. form
// chooses its shape, n the number of arbitrary bytes.
func param(n int) string {
	mid := sym.StringUpTo("params", 0, n)
	switch sym.Choose("form", 4) {
	case 0:
		return "x=" + mid
	case 1:
		return "x=" + mid + "&y=1"
	case 2:
		return "y=1&x" + mid
	}
	return mid
}

// expect is the last value of each name.
func expect(params string) (names, values []string) {
	ns, vs := pairs(params)
	for i, n := range ns {
		later := false
		for _, m := range ns[i+1:] {
			if m == n {
				later = true
			}
		}
		// names are words; what an odd name stands for is the driver's affair
		for j := 0; j < len(n); j++ {
			sym.Assume(n[j] == '_' || n[j] >= 'a' && n[j] <= 'z' || n[j] >= 'A' && n[j] <= 'Z' || n[j] >= '0' && n[j] <= '9')
		}
		sym.Assume(n != "")
		if !later {
			names, values = append(names, n), append(values, vs[i])
		}
	}
	return
}

// pool checks that the pool of connections has the configured limits.
func pool(db *sql.DB, maxOpen, maxIdle int, life time.Duration) {
	sym.Assert(db.Stats().MaxOpenConnections == maxOpen, "the number of open connections is limited as configured")
	v := reflect.ValueOf(db).Elem()
	got := int(v.FieldByName("maxIdleCount").Int())
	if got < 0 {
		got = 0
	} else if got == 0 {
		got = 2 // what database/sql does unless told otherwise
	}
	if maxOpen > 0 && maxIdle > maxOpen {
		maxIdle = maxOpen
	}
	sym.Assert(got == maxIdle, "the number of idle connections is limited as configured")
	sym.Assert(time.Duration(v.FieldByName("maxLifetime").Int()) == life, "connections live as long as configured")
}

// A run varies the parameters (mode 0), one of the strings (mode 1) or the rest (mode 2).
const (
	parameters = iota
	strs
	rest
)

// vary makes one of the strings arbitrary.
func vary(n int, fields ...*string) {
	*fields[sym.Choose("string", len(fields))] = sym.StringUpTo("text", 0, n)
}

// flip is arbitrary in mode 2.
func flip(mode int, name string) bool { return mode == rest && sym.Choose(name, 2) == 1 }

func limits(mode int) (maxOpen, maxIdle int, life time.Duration) {
	if mode != rest {
		return 7, 5, time.Minute
	}
	maxIdle = sym.Int("idle", 0, 1000)
	maxOpen = sym.Int("open", 0, 2000)
	return maxOpen, maxIdle, sym.Duration("life", 0, 1000*time.Hour)
}

// zones are read from files.
//
//gosym:replace time.LoadLocation
func loadLocation(name string) (*time.Location, error) {
	switch name {
	case "", "UTC":
		return time.UTC, nil
	case "Asia/Shanghai":
		return time.FixedZone(name, 8*60*60), nil
	}
	return nil, errors.New("unknown time zone " + name)
}

// MysqlSettings: what reaches the customizer of a MySQL connection.
func MysqlSettings() {
	o := watch("mysql")
	n := sym.Param("len", 3)
	c := &confs.MysqlConf{
		Host: sym.String("host", 2), Port: sym.Int("port", 1, 9), Username: sym.String("user", 3),
		Password: sym.String("password", 3), Database: sym.String("db", 3),
		ReadTimeout: sym.Duration("read", 0, time.Hour), WriteTimeout: sym.Duration("write", 0, time.Hour), Timeout: sym.Duration("timeout", 0, time.Hour),
		ParseTime: sym.Bool("parse"), Params: param(n),
	}
	names, values := expect(c.Params)
	type stop struct{}
	seen := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		confs.NewMySqlDb(dupMysql(*c), func(mc *mysql.Config) {
			seen = true
			sym.Assert(mc.Addr == c.Host+":"+string([]byte{byte('0' + c.Port)}), "the address is the configured one")
			sym.Assert(mc.User == c.Username && mc.Passwd == c.Password && mc.DBName == c.Database, "user, password and database are the configured ones")
			sym.Assert(mc.ReadTimeout == c.ReadTimeout && mc.WriteTimeout == c.WriteTimeout && mc.Timeout == c.Timeout, "the timeouts are the configured ones")
			sym.Assert(mc.ParseTime == c.ParseTime, "parsing of times is as configured")
			sym.Assert(len(mc.Params) == len(names), "as many parameters as well-formed pairs reach the driver")
			for i := range names {
				v, ok := mc.Params[names[i]]
				sym.Assert(ok && v == values[i], "a parameter reaches the driver with its decoded value")
			}
			panic(stop{})
		})
	}()
	sym.Assert(seen && o.pinged == 0, "the customizer is called before connecting")
	sym.Cover("end")
}

// tracer is nil or not; with one the connection is opened through the plugin.
func traced(mode int) (*go2sky.Tracer, bool) {
	if !flip(mode, "traced") {
		return nil, false
	}
	return nil, true
}

// MysqlDsn: what the MySQL driver is given decodes to the settings.
func MysqlDsn() {
	o := watch("mysql")
	user, db, pass, arg := "u", "d", "p", "x=y%20"
	mode, n := sym.Param("mode", 0), sym.Param("len", 2)
	switch mode {
	case strs:
		vary(n, &user, &db, &pass)
		sym.Assume(user != "")
	case parameters:
		arg = param(n)
	}
	for i := 0; i < len(user); i++ {
		sym.Assume(user[i] != ':')
	}
	for i := 0; i < len(db); i++ {
		sym.Assume(db[i] != '/' && db[i] != '?')
	}
	c := &confs.MysqlConf{Host: "h", Port: 3306, Username: user, Password: pass, Database: db,
		Params: arg}
	zone := "UTC"
	if mode == rest {
		c.ReadTimeout = []time.Duration{0, 1500 * time.Millisecond}[sym.Choose("read", 2)]
		c.WriteTimeout = []time.Duration{0, time.Second}[sym.Choose("write", 2)]
		c.Timeout = []time.Duration{0, 2 * time.Minute}[sym.Choose("timeout", 2)]
		c.ParseTime = sym.Choose("parse", 2) == 1
		if c.Loc = []string{"", "UTC", "Asia/Shanghai"}[sym.Choose("loc", 3)]; c.Loc != "" {
			zone = c.Loc
		}
	}
	names, values := expect(c.Params)
	c.MaxOpenConns, c.MaxIdleConns, c.ConnMaxLifetime = limits(mode)
	change := flip(mode, "customize")
	custom := func(mc *mysql.Config) {
		if change {
			mc.DBName = "changed"
			mc.MultiStatements = true
		}
	}
	tr, plugin := traced(mode)
	var pooled *sql.DB
	if plugin {
		pooled = confs.NewMySqlDbWithTracer(dupMysql(*c), tr, custom)
	} else {
		pooled = confs.NewMySqlDb(dupMysql(*c), custom)
	}
	sym.Assert(o.driver == "mysql" && o.pinged == 1, "the MySQL driver is asked for a connection")
	got, err := mysql.ParseDSN(o.dsn)
	sym.Assert(err == nil, "the MySQL driver understands the settings")
	if err != nil {
		return
	}
	sym.Assert(got.User == user && got.Passwd == c.Password && got.Addr == "h:3306", "the MySQL driver gets user, password and address")
	if change {
		sym.Assert(got.DBName == "changed" && got.MultiStatements, "the customizer changes the driver's settings")
	} else {
		sym.Assert(got.DBName == db, "the MySQL driver gets the database")
	}
	sym.Assert(got.ReadTimeout == c.ReadTimeout && got.WriteTimeout == c.WriteTimeout && got.Timeout == c.Timeout, "the MySQL driver gets the timeouts")
	sym.Assert(got.ParseTime == c.ParseTime && got.Loc.String() == zone, "the MySQL driver gets the treatment of times")
	sym.Assert(len(got.Params) == len(names), "the MySQL driver gets the parameters")
	for i := range names {
		sym.Assert(got.Params[names[i]] == values[i], "the MySQL driver gets the parameters' values")
	}
	pool(pooled, c.MaxOpenConns, c.MaxIdleConns, c.ConnMaxLifetime)
	sym.Cover("end")
}

// PgDsn: what the PostgreSQL driver is given decodes to the settings.
func PgDsn() {
	o := watch("postgres")
	mode, n := sym.Param("mode", 0), sym.Param("len", 2)
	c := &confs.PostgresqlConf{Host: "h", Port: 5432, Username: "u", Password: "p", Database: "d", Params: "x=y%20"}
	switch mode {
	case strs:
		vary(n, &c.Username, &c.Password, &c.Database)
	case parameters:
		c.Params = param(n)
	case rest:
		c.ConnectTimeout = sym.Int("timeout", 0, 9)
	}
	names, values := expect(c.Params)
	c.MaxOpenConns, c.MaxIdleConns, c.ConnMaxLifetime = limits(mode)
	var custom confs.PostgresqlUrlOptionsCustomizer
	change := flip(mode, "customize")
	if change {
		custom = func(options map[string]string) {
			_, ok := options["connect_timeout"]
			sym.Assert(ok == (c.ConnectTimeout != 0), "the customizer sees the settings")
			options["sslmode"] = "a b"
		}
	}
	tr, plugin := traced(mode)
	var pooled *sql.DB
	if plugin {
		pooled = confs.NewPostgresqlDbWithTracer(dupPostgresql(*c), tr, custom)
	} else {
		pooled = confs.NewPostgresqlDb(dupPostgresql(*c), custom)
	}
	sym.Assert(o.driver == "postgres" && o.pinged == 1, "the PostgreSQL driver is asked for a connection")
	u, err := url.Parse(o.dsn)
	sym.Assert(err == nil && u.Scheme == "postgres", "the PostgreSQL driver understands the settings")
	if err != nil {
		return
	}
	pw, _ := u.User.Password()
	sym.Assert(u.User.Username() == c.Username && pw == c.Password, "the PostgreSQL driver gets user and password")
	sym.Assert(u.Host == "h:5432", "the PostgreSQL driver gets the address")
	sym.Assert(u.Path != "" && u.Path[1:] == c.Database, "the PostgreSQL driver gets the database")
	q := u.Query()
	want := len(names)
	if change {
		want++
		sym.Assert(q.Get("sslmode") == "a b", "the customizer changes the driver's settings")
	}
	if c.ConnectTimeout != 0 {
		want++
		sym.Assert(q.Get("connect_timeout") == string([]byte{byte('0' + c.ConnectTimeout)}), "the PostgreSQL driver gets the connect timeout")
	}
	sym.Assert(len(q) == want, "the PostgreSQL driver gets the parameters and nothing else")
	for i := range names {
		vs := q[names[i]]
		sym.Assert(len(vs) > 0 && vs[0] == values[i], "the PostgreSQL driver gets the parameters' values")
	}
	pool(pooled, c.MaxOpenConns, c.MaxIdleConns, c.ConnMaxLifetime)
	sym.Cover("end")
}

// OracleDsn: what the Oracle driver is given decodes to the settings.
func OracleDsn() {
	o := watch("oracle")
	mode, n := sym.Param("mode", 0), sym.Param("len", 2)
	c := &confs.OracleConf{Host: "h", Port: 1521, Username: "u", Password: "p", Service: "s", Params: "x=y%20"}
	switch mode {
	case strs:
		vary(n, &c.Username, &c.Password, &c.Service, &c.Sid)
		for i := 0; i < len(c.Username); i++ {
			sym.Assume(c.Username[i] != ':')
		}
	case parameters:
		c.Params = param(n)
	case rest:
		c.ConnectTimeout = sym.Int("timeout", 0, 9)
		if sym.Choose("servers", 2) == 1 {
			c.Servers = "a:1,b:2"
		}
		if sym.Choose("sid", 2) == 1 {
			c.Service, c.Sid = "", "i"
		}
	}
	names, values := expect(c.Params)
	c.MaxOpenConns, c.MaxIdleConns, c.ConnMaxLifetime = limits(mode)
	var custom confs.OracleUrlOptionsCustomizer
	change := flip(mode, "customize")
	if change {
		custom = func(options map[string]string) { options["TRACE"] = "a b" }
	}
	tr, plugin := traced(mode)
	var pooled *sql.DB
	refused := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				refused = true
			}
		}()
		if plugin {
			pooled = confs.NewOracleDbWithTracer(dupOracle(*c), tr, custom)
		} else {
			pooled = confs.NewOracleDb(dupOracle(*c), custom)
		}
	}()
	sym.Assert(refused == (c.Sid == "" && c.Service == ""), "a configuration is refused if it has neither sid nor service")
	if refused {
		return
	}
	sym.Assert(o.driver == "oracle" && o.pinged == 1, "the Oracle driver is asked for a connection")
	u, err := url.Parse(o.dsn)
	sym.Assert(err == nil && u.Scheme == "oracle", "the Oracle driver understands the settings")
	if err != nil {
		return
	}
	pw, _ := u.User.Password()
	sym.Assert(u.User.Username() == c.Username && pw == c.Password, "the Oracle driver gets user and password")
	sym.Assert(u.Host == "h:1521", "the Oracle driver gets the address")
	sym.Assert(strings.TrimPrefix(u.Path, "/") == c.Service, "the Oracle driver gets the service")
	q := u.Query()
	want := len(names)
	if change {
		want++
		sym.Assert(q.Get("TRACE") == "a b", "the customizer changes the driver's settings")
	}
	if c.ConnectTimeout != 0 {
		want++
		sym.Assert(q.Get("CONNECTION TIMEOUT") == strconv.Itoa(c.ConnectTimeout), "the Oracle driver gets the connect timeout")
	}
	if c.Sid != "" {
		want++
		one(q["SID"], c.Sid)
	}
	if c.Servers != "" {
		want++
		one(q["server"], c.Servers)
	}
	sym.Assert(len(q) == want, "the Oracle driver gets the parameters and nothing else")
	for i := range names {
		one(q[names[i]], values[i])
	}
	pool(pooled, c.MaxOpenConns, c.MaxIdleConns, c.ConnMaxLifetime)
	sym.Cover("end")
}

// one checks a value as the Oracle driver's url has it: a list at the commas, without the blanks around.
func one(got []string, want string) {
	var parts []string
	for _, p := range strings.Split(strings.TrimSpace(want), ",") {
		parts = append(parts, strings.TrimSpace(p))
	}
	sym.Assert(len(got) == len(parts), "the Oracle driver gets a list of values as a list")
	for i := range parts {
		if i < len(got) {
			sym.Assert(got[i] == parts[i], "the Oracle driver gets the parameters' values")
		}
	}
}
