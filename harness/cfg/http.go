package cfg

import (
	"bufio"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/elastic/go-elasticsearch/v7"
	"github.com/go-redis/redis/v7"
	"github.com/valyala/fasthttp"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzverif/sym"
)

// disk is the files of the engine; a native replay writes them.
var disk map[string]string

//gosym:replace os.ReadFile
func readFile(name string) ([]byte, error) {
	s, ok := disk[name]
	if !ok {
		return nil, errors.New("open " + name + ": no such file or directory")
	}
	return []byte(s), nil
}

// file makes a file and returns its path.
func file(name, content string) string {
	if sym.Symbolic() {
		disk[name] = content
		return name
	}
	path := filepath.Join(os.TempDir(), name)
	if err := os.WriteFile(path, []byte(content), 0o600); err != nil {
		panic(err)
	}
	return path
}

// added is what was put into each pool of authorities.
var added map[*x509.CertPool][]string

//gosym:replace (*crypto/x509.CertPool).AppendCertsFromPEM
func appendCerts(p *x509.CertPool, pem []byte) bool {
	switch string(pem) {
	case ca1, ca2:
		added[p] = append(added[p], string(pem))
	case ca1 + ca2:
		added[p] = append(added[p], ca1, ca2)
	case "", clientKey, "no certificate":
		return false
	default:
		sym.Unsupported("another certificate")
	}
	return true
}

// exited is how a process that would end does.
type exited struct{ code int }

//gosym:replace os.Exit
func exit(code int) { panic(exited{code}) }

// refuses tells whether a configuration is refused: the process ends or panics.
func refuses(f func()) (refused bool) {
	sym.OnExit(exit)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if err, isErr := r.(error); isErr {
			if _, stop := sym.IsStop(err); stop {
				panic(r)
			}
		}
		refused = true
	}()
	f()
	return
}

//gosym:replace crypto/tls.X509KeyPair
func keyPair(cert, key []byte) (tls.Certificate, error) {
	if string(cert) != clientCert || string(key) != clientKey {
		return tls.Certificate{}, errors.New("tls: no such pair")
	}
	return tls.Certificate{Certificate: [][]byte{cert}}, nil
}

// trusts tells whether the authorities of a pool are these.
func trusts(p *x509.CertPool, want []string) bool {
	if p == nil {
		return false
	}
	if !sym.Symbolic() {
		w := x509.NewCertPool()
		for _, c := range want {
			w.AppendCertsFromPEM([]byte(c))
		}
		return p.Equal(w)
	}
	for _, got := range [][2][]string{{added[p], want}, {want, added[p]}} {
		for _, a := range got[0] {
			found := false
			for _, b := range got[1] {
				found = found || a == b
			}
			if !found {
				return false
			}
		}
	}
	return true
}

// Http: the fasthttp client for every combination of settings.
func Http() {
	disk, added = map[string]string{}, map[*x509.CertPool][]string{}
	c := &confs.FastHttpClientConf{
		ReadTimeout: sym.Duration("read", 0, time.Hour), WriteTimeout: sym.Duration("write", 0, time.Hour), MaxConnDuration: sym.Duration("conn", 0, time.Hour),
		MaxConnsPerHost: sym.Int("conns", 0, 100000), MaxIdleConnDuration: sym.Duration("idle", 0, time.Hour), MaxConnWaitTimeout: sym.Duration("wait", 0, time.Hour),
	}
	mode := sym.Choose("mode", 4)
	c.SslTrustMode = []string{"", "OS", "INSECURE", "CUSTOM"}[mode]
	one, two := file("one.pem", ca1), file("two.pem", ca2)
	var cas []string
	switch sym.Choose("authorities", 6) {
	case 5:
		c.SslTrustCerts, cas = strings.Repeat(one+",", 12)+two, []string{ca1, ca2}
	case 4:
		c.SslTrustCerts, cas = file("both.pem", ca1+ca2), []string{ca1, ca2}
	case 1:
		c.SslTrustCerts, cas = one, []string{ca1}
	case 2:
		c.SslTrustCerts, cas = one+","+two, []string{ca1, ca2}
	case 3:
		c.SslTrustCerts, cas = two, []string{ca2}
	}
	client := sym.Choose("client", 2) == 1
	if client {
		c.CertChain, c.PrivateKey = file("client.pem", clientCert), file("key.pem", clientKey)
	}
	var custom confs.FastHttpClientCustomizer
	var seen *fasthttp.Client
	size := sym.Int("size", 1, 100000)
	change := sym.Choose("customize", 3)
	own := &tls.Config{ServerName: "own"}
	switch change {
	case 1:
		custom = func(hc *fasthttp.Client) { seen = hc; hc.ReadBufferSize = size }
	case 2:
		custom = func(hc *fasthttp.Client) {
			seen = hc
			hc.MaxConnsPerHost, hc.ReadTimeout, hc.WriteTimeout, hc.MaxConnDuration = size, 7, 8, 9
			hc.MaxIdleConnDuration, hc.MaxConnWaitTimeout, hc.TLSConfig = 10, 11, own
		}
	}
	hc := confs.NewFastHttpClient(dupFastHttpClient(*c), custom)
	if custom != nil {
		sym.Assert(seen == hc, "the customizer is given the client that is returned")
	}
	if change == 2 {
		sym.Assert(hc.MaxConnsPerHost == size && hc.ReadTimeout == 7 && hc.WriteTimeout == 8 && hc.MaxConnDuration == 9 &&
			hc.MaxIdleConnDuration == 10 && hc.MaxConnWaitTimeout == 11 && hc.TLSConfig == own, "the customizer has the last word")
		return
	}
	sym.Assert(hc.ReadTimeout == c.ReadTimeout && hc.MaxConnsPerHost == c.MaxConnsPerHost, "read timeout and connections per host are the configured ones")
	sym.Assert(change == 0 || hc.ReadBufferSize == size, "the customizer's settings stay")
	sym.Assert(hc.WriteTimeout == c.WriteTimeout && hc.MaxConnDuration == c.MaxConnDuration && hc.MaxIdleConnDuration == c.MaxIdleConnDuration && hc.MaxConnWaitTimeout == c.MaxConnWaitTimeout, "the timeouts are the configured ones")
	t := hc.TLSConfig
	if t == nil {
		t = &tls.Config{}
	}
	sym.Assert(t.InsecureSkipVerify == (mode == 2), "certificates go unverified exactly in insecure mode")
	if mode == 3 && len(cas) > 0 {
		sym.Assert(trusts(t.RootCAs, cas), "certificates are verified against the configured authorities")
	} else if mode != 2 {
		sym.Assert(t.RootCAs == nil, "certificates are verified against the host's authorities")
	}
	if client {
		sym.Assert(len(t.Certificates) == 1 && len(t.Certificates[0].Certificate) > 0, "the client certificate is presented")
	} else {
		sym.Assert(len(t.Certificates) == 0, "no client certificate is presented")
	}
	sym.Cover("end")
}

// NoFile: a certificate that cannot be read is not ignored.
func NoFile() {
	disk, added = map[string]string{}, map[*x509.CertPool][]string{}
	c := &confs.FastHttpClientConf{SslTrustMode: []string{"", "OS", "INSECURE", "CUSTOM"}[sym.Choose("mode", 4)]}
	refuse := true
	simplelog.ErrLogger.SetOutput(none{})
	switch sym.Choose("missing", 7) {
	case 0:
		c.SslTrustCerts = "/nowhere/ca.pem"
		refuse = c.SslTrustMode == "CUSTOM"
	case 1:
		c.CertChain, c.PrivateKey = "/nowhere/cert.pem", file("key.pem", clientKey)
	case 2:
		c.CertChain = file("client.pem", clientCert)
	case 3:
		c.PrivateKey = file("key.pem", clientKey)
	case 4: // it can be read, but has no certificate
		c.SslTrustCerts = file("text.pem", []string{"", clientKey, "no certificate"}[sym.Choose("text", 3)])
		refuse = c.SslTrustMode == "CUSTOM"
	case 5:
		c.SslTrustCerts = file("one.pem", ca1) + "," + file("text.pem", "no certificate")
		refuse = c.SslTrustMode == "CUSTOM"
	case 6:
		c.CertChain, c.PrivateKey = file("text.pem", "no certificate"), file("key.pem", clientKey)
	}
	refused := refuses(func() { confs.NewFastHttpClient(dupFastHttpClient(*c), nil) })
	sym.Assert(refused == refuse, "a certificate that cannot be read is refused, not ignored")
	sym.Cover("end")
}

type cut struct{}

func until(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(cut); !ok {
				panic(r)
			}
		}
	}()
	f()
}

var options *redis.Options

//gosym:replace github.com/go-redis/redis/v7.NewClient
func newRedis(o *redis.Options) *redis.Client {
	options = o
	panic(cut{})
}

// pong answers every command of a Redis client.
func pong(server net.Conn) {
	r := bufio.NewReader(server)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		if l := strings.ToUpper(strings.TrimSpace(line)); l == "PING" {
			io.WriteString(server, "+PONG\r\n")
		} else if l == "AUTH" || l == "SELECT" {
			io.WriteString(server, "+OK\r\n")
		}
	}
}

// Redis: the options a Redis client is built from.
func Redis() {
	options = nil
	simplelog.StdLogger.SetOutput(none{})
	c := &confs.RedisConf{Host: text("host", 2), Port: sym.Int("port", 1, 9), Password: sym.String("password", 3),
		Pool: sym.Int("pool", 3, 1000), MinIdle: sym.Int("idle", 0, 2), Db: sym.Int("db", 0, 1<<20)}
	change := sym.Choose("customize", 2) == 1
	var custom confs.RedisOptionCustomizer
	dial := func(context.Context, string, string) (net.Conn, error) {
		a, b := net.Pipe()
		go pong(b)
		return a, nil
	}
	if change || !sym.Symbolic() {
		custom = func(o *redis.Options) {
			if !sym.Symbolic() {
				o.Dialer = dial
				o.IdleCheckFrequency = -1
			}
			if change {
				o.MaxRetries = 7
				o.DB = 3
				o.PoolSize = 11
				o.Password = "changed"
				o.MinIdleConns = 1
			}
		}
	}
	until(func() {
		rc := confs.NewRedisClient(dupRedis(*c), custom)
		options = rc.Options()
		rc.Close()
	})
	o := options
	sym.Assert(o != nil && o.Addr == c.Host+":"+string([]byte{byte('0' + c.Port)}), "the address is the configured one")
	if change {
		sym.Assert(o.MaxRetries == 7 && o.DB == 3 && o.PoolSize == 11 && o.Password == "changed" && o.MinIdleConns == 1, "the customizer has the last word")
	} else {
		sym.Assert(o.Password == c.Password && o.MinIdleConns == c.MinIdle, "password and idle connections are the configured ones")
		sym.Assert(o.DB == c.Db && o.PoolSize == c.Pool, "database and pool size are the configured ones")
	}
	sym.Cover("end")
}

var es *elasticsearch.Config

//gosym:replace github.com/elastic/go-elasticsearch/v7.NewClient
func newEs(c elasticsearch.Config) (*elasticsearch.Client, error) {
	es = &c
	panic(cut{})
}

// trip answers the ping.
type trip struct{ n int }

func (t *trip) RoundTrip(r *http.Request) (*http.Response, error) {
	t.n++
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader("")), Header: http.Header{}, Request: r}, nil
}

// welcome answers every request.
func welcome(server net.Conn) {
	r := bufio.NewReader(server)
	for {
		if _, err := http.ReadRequest(r); err != nil {
			return
		}
		io.WriteString(server, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")
	}
}

// inside is what a client was made from.
func inside(c *elasticsearch.Client) *elasticsearch.Config {
	t := reflect.ValueOf(c.Transport).Elem()
	e := &elasticsearch.Config{Username: t.FieldByName("username").String(), Password: t.FieldByName("password").String()}
	f := t.FieldByName("transport")
	e.Transport = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(http.RoundTripper)
	for u, i := t.FieldByName("urls"), 0; i < u.Len(); i++ {
		e.Addresses = append(e.Addresses, reflect.NewAt(u.Type(), unsafe.Pointer(u.UnsafeAddr())).Elem().Index(i).Interface().(*url.URL).String())
	}
	return e
}

// Es: the configuration an Elasticsearch client is built from.
func Es() {
	es = nil
	simplelog.StdLogger.SetOutput(none{})
	a, b := text("one", 2), text("two", 2)
	c := &confs.EsConf{Addrs: "http://" + a, Username: sym.String("user", 2), Password: sym.String("password", 2),
		MaxConnsPerHost: sym.Int("conns", 1, 100000), MaxIdleConnsPerHost: sym.Int("idle", 1, 100000)}
	two := sym.Choose("addresses", 2) == 1
	if two {
		c.Addrs += ",http://" + b
	}
	check := func(e *elasticsearch.Config) {
		t, ok := e.Transport.(*http.Transport)
		sym.Assert(ok, "the client has an HTTP transport")
		if !ok {
			return
		}
		sym.Assert(t.MaxConnsPerHost == c.MaxConnsPerHost, "connections per host are limited as configured")
		sym.Assert(t.MaxIdleConnsPerHost == c.MaxIdleConnsPerHost, "idle connections per host are limited as configured")
		sym.Assert(t.MaxIdleConns == 0 || t.MaxIdleConns >= c.MaxIdleConnsPerHost, "idle connections altogether are not limited below the limit per host")
		sym.Assert(e.Username == c.Username && e.Password == c.Password, "user and password are the configured ones")
		sym.Assert(len(e.Addresses) == 1+sym.B2I(two) && e.Addresses[0] == "http://"+a, "the first address is the configured one")
		if two && len(e.Addresses) == 2 {
			sym.Assert(e.Addresses[1] == "http://"+b, "the second address is the configured one")
		}
		sym.Assert(http.DefaultTransport.(*http.Transport).MaxIdleConnsPerHost == 0 && http.DefaultTransport.(*http.Transport).MaxConnsPerHost == 0, "the default transport stays as it is")
	}
	switch sym.Choose("customize", 3) {
	case 0:
		if sym.Symbolic() {
			until(func() { confs.NewEsClient(dupEs(*c), nil) })
			check(es)
		} else {
			http.DefaultTransport.(*http.Transport).DialContext = func(context.Context, string, string) (net.Conn, error) {
				a, b := net.Pipe()
				go welcome(b)
				return a, nil
			}
			check(inside(confs.NewEsClient(dupEs(*c), nil)))
		}
		sym.Cover("plain")
		return
	case 1:
		refused := refuses(func() {
			confs.NewEsClient(dupEs(*c), func(e *elasticsearch.Config) {
				e.Addresses = append(e.Addresses, "http://x")
				e.Username, e.Password, e.MaxRetries, e.EnableMetrics = "changed", "changed", 9, true
				e.Transport.(*http.Transport).MaxConnsPerHost = 77
				e.CloudID = "none" // as well as addresses: the library refuses that
			})
		})
		if sym.Symbolic() {
			sym.Assert(es != nil && es.Addresses[len(es.Addresses)-1] == "http://x" && es.Username == "changed" && es.Password == "changed" && es.MaxRetries == 9 && es.EnableMetrics &&
				es.CloudID == "none" && es.Transport.(*http.Transport).MaxConnsPerHost == 77, "the customizer has the last word")
		} else {
			sym.Assert(refused, "the customizer has the last word")
		}
		return
	}
	t := &trip{}
	until(func() {
		confs.NewEsClient(dupEs(*c), func(e *elasticsearch.Config) {
			check(e)
			e.Transport = t
			e.DisableRetry = true
		})
	})
	if sym.Symbolic() {
		sym.Assert(es.Transport == http.RoundTripper(t) && es.DisableRetry, "the customizer has the last word")
	} else {
		sym.Assert(t.n == 1, "the customizer has the last word")
	}
	sym.Cover("end")
}
