// Package trace checks the tracing middleware, hook and client helper.
package trace

import (
	"context"
	"encoding/base64"
	"errors"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/SkyAPM/go2sky"
	"github.com/SkyAPM/go2sky/propagation"
	rv7 "github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"google.golang.org/grpc"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"

	"github.com/chanjarster/gears/skywalking"
	client "github.com/chanjarster/gears/skywalking/fasthttp"
	server "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	redis "github.com/chanjarster/gears/skywalking/redis"
	"github.com/chanjarster/gears/zzverif/sym"
)

var ids int

//gosym:replace github.com/SkyAPM/go2sky/internal/idgen.GenerateGlobalID
func newID() (string, error) { ids++; return "id" + strconv.Itoa(ids), nil }

// shutdown makes the server that serves the requests appear closed.
var shutdown bool

//gosym:replace (*github.com/valyala/fasthttp.RequestCtx).Err
func ctxErr(c *fasthttp.RequestCtx) error {
	if shutdown {
		return context.Canceled
	}
	return nil
}

//go:linkname fakeServer github.com/valyala/fasthttp.fakeServer
var fakeServer *fasthttp.Server

func close_(down bool) {
	shutdown = down
	if sym.Symbolic() {
		return
	}
	var ch chan struct{}
	if down {
		ch = make(chan struct{})
		close(ch)
	}
	f := reflect.ValueOf(fakeServer).Elem().FieldByName("done")
	*(*chan struct{})(unsafe.Pointer(f.UnsafeAddr())) = ch
}

// recorder keeps what a tracer reports.
type recorder struct{ sent [][]go2sky.ReportedSpan }

func (r *recorder) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (r *recorder) Send(s []go2sky.ReportedSpan)                           { r.sent = append(r.sent, s) }
func (r *recorder) Close()                                                 {}

// kinds of tracers
const (
	recording = iota
	none
	silent  // tracer without reporter
	noop    // gears' reporter that discards everything
	refused // sampler takes no trace
	kinds
)

func tracer(kind int) (*go2sky.Tracer, *recorder) {
	rec := &recorder{}
	var t *go2sky.Tracer
	var err error
	switch kind {
	case none:
		return nil, rec
	case silent:
		t, err = go2sky.NewTracer("svc")
	case noop:
		t, err = skywalking.NewTracer(&skywalking.Conf{ServiceName: "svc", ServiceInstance: "i"}, skywalking.NoopReporter())
	case refused:
		t, err = go2sky.NewTracer("svc", go2sky.WithReporter(rec), go2sky.WithInstance("i"), go2sky.WithCustomSampler(go2sky.NewConstSampler(false)))
	default:
		t, err = skywalking.NewTracer(&skywalking.Conf{ServiceName: "svc", ServiceInstance: "i"}, rec)
	}
	sym.Assert(err == nil && t != nil, "a tracer is created")
	return t, rec
}

// want is a span that should be reported.
type want struct {
	typ    agentv3.SpanType
	failed bool
	seen   int
}

// check compares what was reported in one segment of each trace with the expected spans.
func check(rec *recorder, spans []*want, total int) {
	sym.Quiesce()
	got := 0
	for _, s := range rec.sent {
		got += len(s)
	}
	sym.Assert(got == total, "each span is ended and reported once")
	for _, seg := range rec.sent {
		for _, s := range seg {
			sym.Assert(s.Context().TraceID == rec.sent[0][0].Context().TraceID, "the spans of a request belong to one trace")
		}
	}
	for _, w := range spans {
		for _, seg := range rec.sent {
			for _, s := range seg {
				if s.SpanType() == w.typ {
					w.seen++
					sym.Assert(s.IsError() == w.failed, "a span is marked as error exactly if the operation failed")
				}
			}
		}
		sym.Assert(w.seen == 1, "each span is ended and reported once")
	}
}

func fixSymbol(name string) error {
	switch sym.Choose(name, 3) {
	case 1:
		return errors.New("failed")
	case 2:
		return routing.NewHTTPError(404, "gone")
	}
	return nil
}

func httpReq(host string) *fasthttp.Request {
	req := &fasthttp.Request{}
	req.SetRequestURI("http://" + host + "/x")
	return req
}

// Middleware: a request passes through the tracing middleware, with or without a redis command or
// http call inside.
func Middleware() {
	kind := sym.Choose("tracer", kinds)
	t, rec := tracer(kind)
	var opts []server.Option
	if sym.Choose("logError", 2) == 1 {
		opts = append(opts, server.WithLogError())
	}
	if sym.Choose("logBody", 2) == 1 {
		opts = append(opts, server.WithLog4xxBody())
	}
	mw := server.NewMiddleware(t, opts...)

	status := sym.Int("status", 100, 599)
	failure := fixSymbol("failure")
	close_(sym.Choose("shutdown", 2) == 1)
	inside := sym.Choose("inside", 3)
	innerErr := error(nil)

	calls := 0
	inner := func(c *routing.Context) error {
		calls++
		ctx := server.GetSwContext(c)
		switch inside {
		case 1: // a redis command
			h := redis.NewHook(t, redis.WithAddr("a"))
			if sym.Choose("fails", 2) == 1 {
				innerErr = errors.New("redis")
			}
			command(h, ctx, innerErr)
		case 2: // an http call
			helper := client.NewClientSpanHelper(t)
			span, err := helper.CreateSpan(ctx, httpReq("h"))
			sym.Assert(err == nil, "the span of a call is created")
			if sym.Choose("fails", 2) == 1 {
				innerErr = errors.New("call")
				helper.EndSpanError(span, innerErr)
			} else {
				helper.EndSpan(span, &fasthttp.Response{})
			}
		}
		c.SetStatusCode(status)
		c.SetBodyString("body")
		return failure
	}
	last := 0
	var returned error
	r := routing.New()
	r.Use(func(c *routing.Context) error {
		returned = c.Next()
		return returned
	}, mw, inner, func(c *routing.Context) error { last++; return nil })
	r.Get("/x", func(c *routing.Context) error { last++; return nil })

	ctx := &fasthttp.RequestCtx{}
	req := httpReq("h")
	sw8, valid := "", false
	switch sym.Choose("sw8", 3) {
	case 1:
		sw8 = "garbage"
	case 2:
		e := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
		sw8, valid = "1-"+e("trace")+"-"+e("seg")+"-0-"+e("s")+"-"+e("i")+"-"+e("e")+"-"+e("p"), true
	}
	if sw8 != "" {
		req.Header.Set(propagation.Header, sw8)
	}
	ctx.Init(req, nil, nil)
	r.HandleRequest(ctx)
	sym.Quiesce()

	sym.Assert(calls == 1, "the rest of the chain is called once")
	sym.Assert(returned == failure, "the error of the rest of the chain is returned unchanged")
	if failure == nil {
		sym.Assert(last == 2, "the rest of the chain is called once")
		sym.Assert(ctx.Response.StatusCode() == status, "the response is left alone")
		sym.Assert(string(ctx.Response.Body()) == "body", "the response is left alone")
	} else {
		sym.Assert(last == 0, "the rest of the chain is called once")
	}
	sym.Cover("end")

	if kind != recording {
		if kind != refused || !valid { // a request that is traced already is not sampled again
			sym.Assert(len(rec.sent) == 0, "nothing is reported without a tracer")
			return
		}
	}
	failed := sym.Or(sym.Or(failure != nil, shutdown), status >= 400)
	if sw8 == "garbage" {
		// no span for the request
		if inside == 0 {
			check(rec, nil, 0)
		} else {
			check(rec, []*want{{typ: agentv3.SpanType_Exit, failed: innerErr != nil}}, 1)
		}
		return
	}
	spans := []*want{{typ: agentv3.SpanType_Entry, failed: failed}}
	if inside > 0 {
		spans = append(spans, &want{typ: agentv3.SpanType_Exit, failed: innerErr != nil})
	}
	check(rec, spans, len(spans))
	sym.Assert(len(rec.sent) == 1, "the spans of a request are reported together")
	if valid {
		sym.Assert(rec.sent[0][0].Context().TraceID == "trace", "the request's trace is continued")
	}
	sym.Cover("traced")
}

// command does to one command what the redis client does.
func command(h rv7.Hook, ctx context.Context, failure error) {
	cmd := rv7.NewStatusCmd("get", "k")
	c := begin(h, ctx, cmd)
	cmd.SetErr(failure)
	finish(h, c, cmd, failure)
}

func begin(h rv7.Hook, ctx context.Context, cmd rv7.Cmder) context.Context {
	c, err := h.BeforeProcess(ctx, cmd)
	sym.Assert(err == nil, "the hook fails no command")
	sym.Assert(c != nil, "the hook passes the context on")
	return c
}

func finish(h rv7.Hook, ctx context.Context, cmd rv7.Cmder, failure error) {
	sym.Assert(h.AfterProcess(ctx, cmd) == nil, "the hook fails no command")
	sym.Assert(cmd.Err() == failure, "the hook leaves the result alone")
}

// redisErr is an error the command ends with.
func redisErr(name string) error {
	switch sym.Choose(name, 3) {
	case 1:
		return errors.New(sym.StringUpTo("text", 1, 2))
	case 2:
		return rv7.Nil
	}
	return nil
}

func hook(t *go2sky.Tracer) (h rv7.Hook, peer bool) {
	var opts []redis.Option
	switch sym.Choose("peer", 3) {
	case 1:
		opts, peer = append(opts, redis.WithAddr("a:1")), true
	case 2:
		opts = append(opts, redis.WithAddr(""))
	}
	if sym.Choose("db", 2) == 1 {
		opts = append(opts, redis.WithDb(sym.Int("dbno", -1, 20)))
	}
	if sym.Choose("logError", 2) == 1 {
		opts = append(opts, redis.WithLogError())
	}
	if sym.Choose("args", 2) == 1 {
		opts = append(opts, redis.WithArgsReport())
	}
	return redis.NewHook(t, opts...), peer
}

// outside is the context in which commands run: with a span of the caller's, or without.
func outside(t *go2sky.Tracer) (ctx context.Context, outer go2sky.Span) {
	ctx = context.Background()
	if t != nil && sym.Choose("outer", 2) == 1 {
		var err error
		outer, ctx, err = t.CreateLocalSpan(ctx, go2sky.WithOperationName("outer"), go2sky.WithSpanType(go2sky.SpanTypeLocal))
		sym.Assert(err == nil, "the caller's span is created")
	}
	return
}

// endOuter ends the caller's span and tells how many spans that makes.
func endOuter(kind int, rec *recorder, outer go2sky.Span) int {
	if outer == nil {
		return 0
	}
	sym.Quiesce()
	sym.Assert(outer.IsValid(), "the caller's span is not ended")
	if kind == recording {
		sym.Assert(len(rec.sent) == 0, "the caller's span is not ended")
	}
	outer.End()
	return 1
}

// Redis: one command, or two interleaved ones, through a hook.
func Redis() {
	kind := sym.Choose("tracer", kinds)
	t, rec := tracer(kind)
	h, peer := hook(t)
	ctx, outer := outside(t)

	failure := redisErr("failure")
	switch shape := sym.Choose("shape", 6); shape {
	case 0, 1: // one command
		args := []interface{}{"get", "k"}
		if shape == 1 {
			args = []interface{}{""} // without a name
			peer = false
		}
		cmd := rv7.NewStatusCmd(args...)
		c := begin(h, ctx, cmd)
		cmd.SetErr(failure)
		finish(h, c, cmd, failure)
		sym.Cover("end")
		settle(kind, rec, outer, peer, failure != nil)
	case 2: // a pipeline
		cmds := []rv7.Cmder{rv7.NewStatusCmd("get", "k"), rv7.NewStatusCmd("set", "k", 1)}
		n := 1 + sym.Choose("two", 2)
		cmds = cmds[:n]
		c, err := h.BeforeProcessPipeline(ctx, cmds)
		sym.Assert(err == nil && c != nil, "the hook fails no command")
		which := 0
		if n == 2 {
			which = sym.Choose("which", 3)
		}
		for i := range cmds {
			if which == 2 || which == i {
				cmds[i].SetErr(failure)
			}
		}
		sym.Assert(h.AfterProcessPipeline(c, cmds) == nil, "the hook fails no command")
		for i := range cmds {
			if which == 2 || which == i {
				sym.Assert(cmds[i].Err() == failure, "the hook leaves the result alone")
			} else {
				sym.Assert(cmds[i].Err() == nil, "the hook leaves the result alone")
			}
		}
		settle(kind, rec, outer, peer, failure != nil)
	case 3: // a pipeline without commands
		c, err := h.BeforeProcessPipeline(ctx, nil)
		sym.Assert(err == nil && c != nil, "the hook fails no command")
		sym.Assert(h.AfterProcessPipeline(c, nil) == nil, "the hook fails no command")
		settle(kind, rec, outer, false, false)
	case 5: // two hooks on one client, called as the client does
		h2 := redis.NewHook(t, redis.WithAddr("a:1"))
		total := 1 + sym.B2I(peer)
		cmd := rv7.NewStatusCmd("get", "k")
		var c context.Context
		if sym.Choose("pipeline", 2) == 0 {
			c = begin(h2, begin(h, ctx, cmd), cmd)
			cmd.SetErr(failure)
			finish(h2, c, cmd, failure)
			finish(h, c, cmd, failure)
		} else {
			cmds := []rv7.Cmder{cmd}
			c1, err := h.BeforeProcessPipeline(ctx, cmds)
			sym.Assert(err == nil && c1 != nil, "the hook fails no command")
			c, err = h2.BeforeProcessPipeline(c1, cmds)
			sym.Assert(err == nil && c != nil, "the hook fails no command")
			cmd.SetErr(failure)
			sym.Assert(h2.AfterProcessPipeline(c, cmds) == nil, "the hook fails no command")
			sym.Assert(h.AfterProcessPipeline(c, cmds) == nil, "the hook fails no command")
		}
		total += endOuter(kind, rec, outer)
		sym.Quiesce()
		if kind != recording {
			sym.Assert(len(rec.sent) == 0, "nothing is reported without a tracer")
			return
		}
		got := 0
		for _, seg := range rec.sent {
			for _, s := range seg {
				got++
				sym.Assert(s.OperationName() == "outer" || s.IsError() == (failure != nil), "a span is marked as error exactly if the operation failed")
			}
		}
		sym.Assert(got == total, "each span is ended and reported once")
	case 4: // two commands at a time, in two contexts
		a, b := rv7.NewStatusCmd("get", "k"), rv7.NewStatusCmd("set", "k", 1)
		ca, cb := begin(h, ctx, a), begin(h, ctx, b)
		a.SetErr(failure)
		if sym.Choose("first", 2) == 0 {
			finish(h, ca, a, failure)
			finish(h, cb, b, nil)
		} else {
			finish(h, cb, b, nil)
			finish(h, ca, a, failure)
		}
		total := 0
		if peer {
			total = 2
		}
		total += endOuter(kind, rec, outer)
		sym.Quiesce()
		if kind != recording {
			sym.Assert(len(rec.sent) == 0, "nothing is reported without a tracer")
			return
		}
		got, bad := 0, 0
		for _, seg := range rec.sent {
			got += len(seg)
			for _, s := range seg {
				if s.IsError() {
					bad++
					sym.Assert(s.OperationName() == "get", "a span is marked as error exactly if the operation failed")
				}
			}
		}
		sym.Assert(got == total, "each span is ended and reported once")
		sym.Assert(bad == sym.B2I(peer && failure != nil), "a span is marked as error exactly if the operation failed")
	}
}

// settle ends the caller's span and checks what is reported.
func settle(kind int, rec *recorder, outer go2sky.Span, spanned, failed bool) {
	total := endOuter(kind, rec, outer)
	sym.Quiesce()
	if kind != recording {
		sym.Assert(len(rec.sent) == 0, "nothing is reported without a tracer")
		return
	}
	var spans []*want
	if total == 1 {
		spans = append(spans, &want{typ: agentv3.SpanType_Local})
	}
	if spanned {
		total++
		spans = append(spans, &want{typ: agentv3.SpanType_Exit, failed: failed})
	}
	check(rec, spans, total)
	sym.Cover("traced")
}

// Client: an http call through the client helper.
func Client() {
	kind := sym.Choose("tracer", kinds)
	t, rec := tracer(kind)
	var opts []client.Option
	if sym.Choose("logError", 2) == 1 {
		opts = append(opts, client.WithLogError())
	}
	if sym.Choose("logBody", 2) == 1 {
		opts = append(opts, client.WithLog4xxBody())
	}
	helper := client.NewClientSpanHelper(t, opts...)
	ctx, outer := outside(t)
	host := []string{"h", ""}[sym.Choose("host", 2)]
	req := httpReq(host)
	req.SetBodyString("body")
	span, err := helper.CreateSpan(ctx, req)
	if t == nil || host == "" {
		sym.Assert(span == nil, "no span without a tracer or host")
	} else {
		sym.Assert(err == nil && span != nil, "the span of a call is created")
	}
	if t == nil {
		sym.Assert(err == nil, "calls go on without a tracer")
	}
	if kind == recording && span != nil {
		sym.Assert(len(req.Header.Peek(propagation.Header)) > 0, "the call carries the trace")
	}
	sym.Assert(string(req.Body()) == "body" && string(req.Host()) == host, "the request is left alone")
	failed := true
	if sym.Choose("result", 2) == 0 {
		res := &fasthttp.Response{}
		status := sym.Int("status", 100, 599)
		res.SetStatusCode(status)
		res.SetBodyString("answer")
		helper.EndSpan(span, res)
		sym.Assert(res.StatusCode() == status && string(res.Body()) == "answer", "the response is left alone")
		failed = status >= 400
	} else {
		helper.EndSpanError(span, errors.New("failed"))
	}
	sym.Cover("end")
	settle(kind, rec, outer, span != nil, failed)
}

type booted struct {
	service, instance string
	times             int
	recorder
}

func (b *booted) Boot(service, instance string, _ []go2sky.AgentConfigChangeWatcher) {
	b.service, b.instance = service, instance
	b.times++
}

// Identity: how a tracer presents itself, and what it reports to.
func Identity() {
	n := sym.Param("len", 2)
	c := &skywalking.Conf{
		ServiceName:      sym.StringUpTo("name", 0, n),
		ServiceNamespace: sym.StringUpTo("namespace", 0, n),
		ServiceInstance:  sym.StringUpTo("instance", 1, n),
	}
	given := *c
	b := &booted{}
	t, err := skywalking.NewTracer(c, b)
	sym.Assert(err == nil && t != nil, "a tracer")
	sym.Assert(b.times == 1, "the reporter is told once who reports")
	sym.Assert(b.service == given.ServiceNamespace+"::"+given.ServiceName, "the service is namespace::name")
	sym.Assert(b.instance == given.ServiceInstance, "the instance is the configured one")

	if sym.Bool("no configuration") {
		c = nil
	}
	r, err := skywalking.NewGrpcOrNoopReporter(c)
	sym.Assert(err == nil && r != nil, "without a server there is a reporter")
	name := "n"
	t, err = skywalking.NewTracer(&skywalking.Conf{ServiceName: name, ServiceInstance: "i"}, r)
	sym.Assert(err == nil && t != nil, "and a tracer for it")
	s, _, err := t.CreateEntrySpan(context.Background(), "op", func(string) (string, error) { return "", nil })
	sym.Assert(err == nil && s != nil, "which makes spans")
	s.End()
	r.Close()
	sym.Quiesce()
	sym.Cover("end")
}

// dialled are the servers to which connections were made.
var dialled []string

//gosym:replace google.golang.org/grpc.DialContext
func dialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	dialled = append(dialled, target)
	return new(grpc.ClientConn), nil
}

// Grpc: a reporter for a server, whatever else is configured.
func Grpc() {
	dialled = nil
	if sym.Symbolic() {
		os.Stderr = new(os.File)
	}
	n := sym.Param("len", 2)
	host := []string{"h", "10.0.0.1", "backend.example"}[sym.Choose("host", 3)]
	addr := host + ":" + string([]byte{'1' + byte(sym.Int("port", 0, 8))})
	c := &skywalking.Conf{
		ServerAddr:       addr,
		ServiceName:      sym.StringUpTo("name", 0, n),
		ServiceNamespace: sym.StringUpTo("namespace", 0, n),
		ServiceInstance:  sym.StringUpTo("instance", 0, n),
	}
	given := *c
	broken := sym.Choose("environment", 2) == 1
	if broken {
		sym.Setenv("SW_AGENT_COLLECTOR_HEARTBEAT_PERIOD", "soon")
	}
	r, err := skywalking.NewGrpcOrNoopReporter(c)
	sym.Assert(*c == given, "the configuration is left alone")
	if broken {
		sym.Assert(err != nil && r == nil, "a reporter that cannot be made is reported")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && r != nil, "with a server there is a reporter")
	if sym.Symbolic() {
		sym.Assert(len(dialled) == 1 && dialled[0] == addr, "it reports to the configured server")
	} else if r != skywalking.NoopReporter() {
		f := reflect.ValueOf(r).Elem().FieldByName("conn")
		conn := *(**grpc.ClientConn)(unsafe.Pointer(f.UnsafeAddr()))
		sym.Assert(conn.Target() == addr, "it reports to the configured server")
		conn.Close()
	} else {
		sym.Fail("it reports to the configured server")
	}
	sym.Cover("end")
}

// Settings: the printed form of the configuration names every setting.
func Settings() {
	n := sym.Param("len", 2)
	c := &skywalking.Conf{
		ServerAddr:       sym.StringUpTo("server", 0, n),
		ServiceName:      sym.StringUpTo("name", 0, n),
		ServiceNamespace: sym.StringUpTo("namespace", 0, n),
		ServiceInstance:  sym.StringUpTo("instance", 0, n),
	}
	given := *c
	s := c.String()
	c = &given
	for name, value := range map[string]string{"ServerAddr": c.ServerAddr, "ServiceName": c.ServiceName, "ServiceInstance": c.ServiceInstance, "ServiceNamespace": c.ServiceNamespace} {
		sym.Assert(strings.Contains(s, name+": "+value), "each setting is shown under its name")
	}
	sym.Cover("end")
}
