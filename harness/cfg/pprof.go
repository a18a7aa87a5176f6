package cfg

import (
	"encoding/base64"
	"net/http"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"
	"time"

	"github.com/gin-gonic/gin"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zzverif/sym"
)

//gosym:replace github.com/valyala/fasthttp/pprofhandler.PprofHandler
func profile(ctx *fasthttp.RequestCtx) { ctx.WriteString("profile") }

// the profiling rates of the process
var block, mutex int

//gosym:replace runtime.SetBlockProfileRate
func blockRate(n int) { block = n }

//gosym:replace runtime.SetMutexProfileFraction
func mutexFraction(n int) int {
	old := mutex
	if n >= 0 {
		mutex = n
	}
	return old
}

// blocking tells whether blocking is profiled.
func blocking() bool {
	if sym.Symbolic() {
		return block == 1
	}
	before := pprof.Lookup("block").Count()
	var l sync.Mutex
	l.Lock()
	go func() {
		time.Sleep(time.Millisecond)
		l.Unlock()
	}()
	l.Lock()
	c := make(chan int)
	go func() {
		time.Sleep(time.Millisecond)
		c <- 1
	}()
	<-c
	return pprof.Lookup("block").Count() > before
}

// Rates: an open endpoint profiles at the configured rates.
func Rates() {
	runtime.SetBlockProfileRate(0)
	runtime.SetMutexProfileFraction(0)
	c := &confs.PprofConf{Username: "u", Password: "p", BlockProfileRate: sym.Choose("block", 2), MutexProfileFraction: sym.Int("mutex", 0, 1<<30)}
	endpoint(c)
	sym.Assert(runtime.SetMutexProfileFraction(-1) == c.MutexProfileFraction, "contention is profiled at the configured fraction")
	sym.Assert(blocking() == (c.BlockProfileRate == 1), "blocking is profiled as configured")
	sym.Cover("end")
}

// ask sends one request to the endpoint; header "" with has false means none.
func ask(h routing.Handler, has bool, header string) (served bool, status int, challenge bool) {
	ctx := &fasthttp.RequestCtx{}
	ctx.Request.SetRequestURI("/debug/pprof/cmdline")
	if has {
		ctx.Request.Header.Set("Authorization", header)
	}
	err := h(&routing.Context{RequestCtx: ctx})
	sym.Assert(err == nil, "the endpoint answers by itself")
	return len(ctx.Response.Body()) > 0, ctx.Response.StatusCode(), len(ctx.Response.Header.Peek("WWW-Authenticate")) > 0
}

// askGin sends one request through the gin filter.
func askGin(f gin.HandlerFunc, has bool, header string) (passed bool, status int, challenge bool) {
	w := &recorder{h: http.Header{}}
	gin.SetMode(gin.ReleaseMode)
	c, _ := gin.CreateTestContext(w)
	c.Request = &http.Request{Header: http.Header{}}
	if has {
		c.Request.Header["Authorization"] = []string{header}
	}
	f(c)
	return !c.IsAborted(), c.Writer.Status(), w.h.Get("WWW-Authenticate") != ""
}

type recorder struct {
	h      http.Header
	status int
	body   []byte
}

func (r *recorder) Header() http.Header         { return r.h }
func (r *recorder) Write(b []byte) (int, error) { r.body = append(r.body, b...); return len(b), nil }
func (r *recorder) WriteHeader(s int)           { r.status = s }

// endpoint makes either endpoint.
func endpoint(c *confs.PprofConf) func(has bool, header string) (served bool, status int, challenge bool) {
	if sym.Param("gin", 0) == 1 {
		f := confs.NewGinPprofBasicAuthFilter(dupPprof(*c))
		return func(has bool, header string) (bool, int, bool) { return askGin(f, has, header) }
	}
	h := confs.NewFasthttpRoutingPprofHandler(dupPprof(*c))
	return func(has bool, header string) (bool, int, bool) { return ask(h, has, header) }
}

// try sends one request.
func try(c *confs.PprofConf, has bool, header string) (served bool, status int, challenge bool) {
	return endpoint(c)(has, header)
}

// Again: requests one after another to two endpoints with credentials of their own.
func Again() {
	var at [2]func(bool, string) (bool, int, bool)
	var open [2]string
	for i := range at {
		password := sym.String("password", 1)
		c := &confs.PprofConf{Username: string([]byte{byte('a' + i)}), Password: password}
		at[i], open[i] = endpoint(c), c.Username+":"+password
	}
	for k := sym.Param("requests", 3); k > 0; k-- {
		i := sym.Choose("endpoint", 2)
		has := sym.Choose("header", 2) == 1
		given := string([]byte{byte('a' + sym.Int("user", 0, 1))}) + ":" + sym.String("given", 1)
		header := "Basic " + base64.StdEncoding.EncodeToString([]byte(given))
		served, status, challenge := at[i](has, header)
		if has && given == open[i] {
			sym.Assert(served && status == 200, "the configured credentials open the endpoint")
			sym.Cover("open")
		} else {
			sym.Assert(!served && status == 401 && challenge, "nothing but the configured credentials opens the endpoint, whoever asked before")
			sym.Cover("refused")
		}
	}
	sym.Cover("end")
}

// judge checks the answer against what was sent.
func judge(c *confs.PprofConf, has bool, header string, granted bool) {
	sym.Cover("end")
	served, status, challenge := try(c, has, header)
	if c.Username == "" || c.Password == "" {
		sym.Assert(!served, "nothing is served unless user and password are configured")
		sym.Cover("closed")
		return
	}
	if granted {
		sym.Assert(served && status == 200, "the configured credentials open the endpoint")
		sym.Cover("open")
		return
	}
	sym.Assert(!served, "nothing but the configured credentials opens the endpoint")
	sym.Assert(status == 401 && challenge, "other credentials are answered with a challenge")
	sym.Cover("refused")
}

// Credentials: any configured and any presented user and password.
func Credentials() {
	n := sym.Param("len", 2)
	c := &confs.PprofConf{Username: sym.StringUpTo("user", 0, 1), Password: sym.StringUpTo("password", 0, n)}
	for i := 0; i < len(c.Username); i++ {
		sym.Assume(c.Username[i] != ':')
	}
	if sym.Choose("header", 2) == 0 {
		judge(c, false, "", false)
		return
	}
	user, password := sym.StringUpTo("given", 0, 1), sym.StringUpTo("word", 0, n)
	for i := 0; i < len(user); i++ {
		sym.Assume(user[i] != ':')
	}
	judge(c, true, "Basic "+base64.StdEncoding.EncodeToString([]byte(user+":"+password)), sym.And(user == c.Username, password == c.Password))
}

// Headers: any header.
func Headers() {
	c := &confs.PprofConf{Username: "u", Password: "p"}
	form := []string{"", "Basic ", "Basic", "Bearer "}[sym.Choose("form", 4)]
	header := form + sym.StringUpTo("rest", 0, sym.Param("len", 4))
	for i := 0; i < len(header); i++ {
		sym.Assume(header[i] != '\r' && header[i] != '\n') // not in a header's value
	}
	granted := false
	if rest := strings.TrimPrefix(header, "Basic "); rest != header {
		b, err := base64.StdEncoding.DecodeString(rest)
		granted = err == nil && string(b) == "u:p"
	} else if b, err := base64.StdEncoding.DecodeString(header); err == nil && string(b) == "u:p" {
		// the scheme is missing; either answer will do
		try(c, true, header)
		return
	}
	judge(c, true, header, granted)
}
