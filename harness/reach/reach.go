// Package reach: clients whose server does not answer.
package reach

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"net"
	"net/http"
	"strings"
	"unsafe"
	_ "unsafe"

	"github.com/SkyAPM/go2sky"
	"github.com/elastic/go-elasticsearch/v7"
	"github.com/go-redis/redis/v7"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzverif/sym"
)

type none struct{}

func (none) Write(b []byte) (int, error) { return len(b), nil }

// exited is how a process that would end does.
type exited struct{ code int }

//gosym:replace os.Exit
func exit(code int) { panic(exited{code}) }

// refuses tells whether the process ends, with an error, or panics.
func refuses(f func()) (refused bool) {
	sym.OnExit(exit)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if e, ok := r.(exited); ok {
			sym.Assert(e.code != 0, "the process ends with an error")
		}
		if err, isErr := r.(error); isErr {
			if _, stop := sym.IsStop(err); stop {
				panic(r)
			}
		}
		refused = true
	}()
	f()
	return
}

//go:linkname drivers database/sql.drivers
var drivers map[string]driver.Driver

// server answers or not.
type server struct {
	err  error
	ping error // of a server that accepts the connection
}

func (s *server) Open(string) (driver.Conn, error) { return s.Connect(nil) }
func (s *server) Connect(context.Context) (driver.Conn, error) {
	if s.err != nil {
		return nil, s.err
	}
	return &conn{s}, nil
}
func (s *server) Driver() driver.Driver { return s }

var errConn = errors.New("no statements here")

type conn struct{ s *server }

func (c *conn) Ping(context.Context) error          { return c.s.ping }
func (c *conn) Prepare(string) (driver.Stmt, error) { return nil, errConn }
func (c *conn) Close() error                        { return nil }
func (c *conn) Begin() (driver.Tx, error)           { return nil, errConn }

var (
	last    *server
	openErr error
)

//gosym:replace database/sql.Open
func open(name, dsn string) (*sql.DB, error) {
	if openErr != nil {
		return nil, openErr
	}
	return sql.OpenDB(last), nil
}

// Databases: what cannot be reached is reported.
func Databases() {
	simplelog.StdLogger.SetOutput(none{})
	simplelog.ErrLogger.SetOutput(none{})
	last, openErr = &server{}, nil
	kind := sym.Choose("database", 6)
	name := []string{"mysql", "postgres", "oracle"}[kind/2]
	refuse := true
	fail := &last.err
	if sym.Choose("accepted", 2) == 1 {
		fail = &last.ping
	}
	switch sym.Choose("error", 8) {
	case 0:
		refuse = false
	case 1:
		*fail = errors.New("connection refused")
	case 2:
		*fail = io.EOF
	case 3:
		*fail = driver.ErrBadConn
	case 4:
		*fail = &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("i/o timeout")}
	case 5:
		*fail = context.DeadlineExceeded
	case 6:
		*fail = context.Canceled
	case 7:
		*fail = sql.ErrNoRows
	}
	if !sym.Symbolic() {
		drivers[name] = last
	}
	var tracer *go2sky.Tracer
	var db *sql.DB
	refused := refuses(func() {
		switch kind {
		case 0:
			db = confs.NewMySqlDb(&confs.MysqlConf{Host: "h", Port: 1, Username: "u"}, nil)
		case 1:
			db = confs.NewMySqlDbWithTracer(&confs.MysqlConf{Host: "h", Port: 1, Username: "u"}, tracer, nil)
		case 2:
			db = confs.NewPostgresqlDb(&confs.PostgresqlConf{Host: "h", Port: 1, Username: "u"}, nil)
		case 3:
			db = confs.NewPostgresqlDbWithTracer(&confs.PostgresqlConf{Host: "h", Port: 1, Username: "u"}, tracer, nil)
		case 4:
			db = confs.NewOracleDb(&confs.OracleConf{Host: "h", Port: 1, Username: "u", Service: "s"}, nil)
		case 5:
			db = confs.NewOracleDbWithTracer(&confs.OracleConf{Host: "h", Port: 1, Username: "u", Service: "s"}, tracer, nil)
		}
	})
	sym.Assert(refused == refuse, "a database that cannot be reached is reported, and no other")
	sym.Assert(refused || db != nil, "a database that can be reached is returned")
	sym.Cover("end")
}

var pong error

//gosym:replace github.com/go-redis/redis/v7.newConnPool
func newConnPool(o *redis.Options) unsafe.Pointer { return nil }

//gosym:replace (*github.com/go-redis/redis/v7.baseClient).process
func process(c unsafe.Pointer, ctx context.Context, cmd redis.Cmder) error {
	if pong != nil {
		cmd.SetErr(pong)
	}
	return pong
}

// Redis: a server that cannot be reached is reported.
func Redis() {
	simplelog.StdLogger.SetOutput(none{})
	simplelog.ErrLogger.SetOutput(none{})
	pong = nil
	if sym.Choose("error", 2) == 1 {
		pong = []error{errors.New("connection refused"), io.EOF, redis.Nil, context.DeadlineExceeded, &net.OpError{Op: "read", Net: "tcp", Err: errors.New("i/o timeout")}}[sym.Choose("which", 5)]
	}
	var rc *redis.Client
	refused := refuses(func() {
		rc = confs.NewRedisClient(&confs.RedisConf{Host: "h", Port: 1, Pool: 1}, func(o *redis.Options) {
			if !sym.Symbolic() {
				o.IdleCheckFrequency = -1
				o.MaxRetries = -1
				o.Dialer = func(context.Context, string, string) (net.Conn, error) {
					if pong != nil {
						return nil, pong
					}
					a, b := net.Pipe()
					go func() {
						buf := make([]byte, 1000)
						b.Read(buf)
						io.WriteString(b, "+PONG\r\n")
					}()
					return a, nil
				}
			}
		})
	})
	sym.Assert(refused == (pong != nil), "a Redis server that cannot be reached is reported, and no other")
	sym.Assert(refused || rc != nil, "a Redis client whose server answers is returned")
	sym.Cover("end")
}

// trip answers every request alike.
type trip struct {
	code int
	err  error
}

func (t *trip) RoundTrip(r *http.Request) (*http.Response, error) {
	if t.err != nil {
		return nil, t.err
	}
	return &http.Response{StatusCode: t.code, Body: io.NopCloser(strings.NewReader("")), Header: http.Header{}, Request: r}, nil
}

// Es: a server that cannot be reached, or answers with an error, is reported.
func Es() {
	simplelog.StdLogger.SetOutput(none{})
	t := &trip{code: sym.Int("code", 200, 599)}
	if sym.Choose("error", 2) == 1 {
		t.err = errors.New("connection refused")
	}
	var es *elasticsearch.Client
	refused := refuses(func() {
		es = confs.NewEsClient(&confs.EsConf{Addrs: "http://h"}, func(e *elasticsearch.Config) {
			e.Transport = t
			e.DisableRetry = true
		})
	})
	sym.Assert(refused == (t.err != nil || t.code >= 300), "an Elasticsearch server that does not answer well is reported, and no other")
	sym.Assert(refused || es != nil, "an Elasticsearch client whose server answers is returned")
	sym.Cover("end")
}
