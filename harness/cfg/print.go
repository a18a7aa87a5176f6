// Package cfg: the connection configurations and the clients built from them.
package cfg

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zzverif/sym"
)

// secret tells whether a setting must not show in the printed form.
func secret(name string) bool { return name == "Username" || name == "Password" }

// text is an arbitrary word of n letters.
func text(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] >= 'a' && s[i] <= 'z')
	}
	return s
}

// whole is one printable configuration: a fresh value with settings from fill.
func whole(kind int) fmt.Stringer {
	switch kind {
	case 0:
		return &confs.MysqlConf{Host: "H", Port: 91, Username: "U", Password: "P", Database: "D", MaxOpenConns: 92, MaxIdleConns: 93,
			ConnMaxLifetime: 1 * time.Hour, ReadTimeout: 2 * time.Hour, WriteTimeout: 3 * time.Hour, Timeout: 4 * time.Hour, Loc: "L", Params: "Q"}
	case 1:
		return &confs.OracleConf{Host: "H", Port: 91, Username: "U", Password: "P", Service: "S", Sid: "I", Servers: "V", ConnectTimeout: 94, Params: "Q",
			MaxOpenConns: 92, MaxIdleConns: 93, ConnMaxLifetime: 1 * time.Hour}
	case 2:
		return &confs.PostgresqlConf{Host: "H", Port: 91, Username: "U", Password: "P", Database: "D", ConnectTimeout: 94, Params: "Q",
			MaxOpenConns: 92, MaxIdleConns: 93, ConnMaxLifetime: 1 * time.Hour}
	case 3:
		return &confs.RedisConf{Host: "H", Port: 91, Password: "P", Pool: 95, MinIdle: 96, Db: 97}
	case 4:
		return &confs.EsConf{Addrs: "H", Username: "U", Password: "P", MaxConnsPerHost: 92, MaxIdleConnsPerHost: 93}
	case 5:
		return &confs.PprofConf{Username: "U", Password: "P", BlockProfileRate: 92, MutexProfileFraction: 93}
	}
	return &confs.FastHttpClientConf{CertChain: "C", PrivateKey: "K", SslTrustMode: "M", SslTrustCerts: "T", ReadTimeout: 1 * time.Hour, WriteTimeout: 2 * time.Hour,
		MaxConnDuration: 3 * time.Hour, MaxConnsPerHost: 92, MaxIdleConnDuration: 4 * time.Hour, MaxConnWaitTimeout: 5 * time.Hour}
}

// kinds counts the printable configurations; the last has no credentials.
const kinds = 7

// Secrets: the printed form is the same for all credentials.
func Secrets() {
	n := sym.Param("len", 4)
	kind := sym.Choose("kind", kinds)
	a, b := whole(kind), whole(kind)
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	found := false
	for i := 0; i < va.NumField(); i++ {
		if secret(va.Type().Field(i).Name) {
			// long ones begin with arbitrary bytes
			pad := []int{0, 6, 15, 31, 62, 127}[sym.Choose("pad", 6)]
			va.Field(i).SetString(sym.StringUpTo("secret", 0, n) + strings.Repeat("s", pad))
			vb.Field(i).SetString(sym.StringUpTo("other", 0, n))
			found = true
		}
	}
	sym.Assert(found == (kind != kinds-1), "the configuration has credentials")
	sym.Assert(a.String() == b.String(), "the printed form does not depend on the credentials")
	sym.Cover("end")
}

// Settings: each setting that is shown is shown with its own value, whatever it is.
func Settings() {
	kind := sym.Choose("kind", kinds)
	c := whole(kind)
	v := reflect.ValueOf(c).Elem()
	i := sym.Choose("field", v.NumField())
	name := v.Type().Field(i).Name
	if secret(name) {
		return
	}
	want := ""
	f := v.Field(i)
	switch f.Interface().(type) {
	case string:
		want = text("word", sym.Choose("letters", 3))
		f.SetString(want)
	case time.Duration:
		if other := sym.Choose("other", 4); other > 0 {
			d := []time.Duration{0, -time.Millisecond, 30 * time.Hour}[other-1]
			want = d.String()
			f.SetInt(int64(d))
			break
		}
		d := sym.Int("minutes", 1, 9)
		want = string([]byte{byte('0' + d)}) + "m0s"
		f.SetInt(int64(time.Duration(d) * time.Minute))
	case int:
		if other := sym.Choose("other", 5); other > 0 {
			k := []int{-1, 10, 65536, 1 << 40}[other-1]
			want = strconv.Itoa(k)
			f.SetInt(int64(k))
			break
		}
		k := sym.Int("number", 0, 9)
		want = string([]byte{byte('0' + k)})
		f.SetInt(int64(k))
	case bool:
		b := sym.Bool("flag")
		f.SetBool(b)
		want = "false"
		if b {
			want = "true"
		}
	default:
		sym.Unsupported("a setting of another type")
	}
	out := c.String()
	// the setting is shown as "Name:" and its value, up to "," or "}"
	p := strings.Index(out, name+":")
	for p > 0 && out[p-1] != ' ' && out[p-1] != '{' {
		q := strings.Index(out[p+1:], name+":")
		if q < 0 {
			p = -1
			break
		}
		p += 1 + q
	}
	if p < 0 {
		return // not a setting that is shown
	}
	rest := out[p+len(name)+1:]
	if rest[0] == ' ' {
		rest = rest[1:]
	}
	sym.Assert(len(rest) > len(want) && rest[:len(want)] == want && (rest[len(want)] == ',' || rest[len(want)] == '}'), "a setting is shown with its own value")
	sym.Cover("end")
}

// copies for the code under test to keep
func dupMysql(c confs.MysqlConf) *confs.MysqlConf                            { return &c }
func dupPostgresql(c confs.PostgresqlConf) *confs.PostgresqlConf             { return &c }
func dupOracle(c confs.OracleConf) *confs.OracleConf                         { return &c }
func dupFastHttpClient(c confs.FastHttpClientConf) *confs.FastHttpClientConf { return &c }
func dupRedis(c confs.RedisConf) *confs.RedisConf                            { return &c }
func dupEs(c confs.EsConf) *confs.EsConf                                     { return &c }
func dupPprof(c confs.PprofConf) *confs.PprofConf                            { return &c }
