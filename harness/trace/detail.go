package trace

import (
	"context"
	"errors"
	"io"
	"strings"

	"github.com/SkyAPM/go2sky"
	rv7 "github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"

	client "github.com/chanjarster/gears/skywalking/fasthttp"
	server "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	redis "github.com/chanjarster/gears/skywalking/redis"
	"github.com/chanjarster/gears/zzverif/sym"
)

// what stands before each content that only options reveal
const marker = "S3CR3T"

// texts of a span, besides its name
func texts(s go2sky.ReportedSpan) (out []string) {
	for _, t := range s.Tags() {
		out = append(out, t.Key, t.Value)
	}
	for _, l := range s.Logs() {
		for _, d := range l.Data {
			out = append(out, d.Key, d.Value)
		}
	}
	return append(out, s.Peer())
}

func tag(s go2sky.ReportedSpan, name go2sky.Tag, value string) {
	n := 0
	for _, t := range s.Tags() {
		if t.Key == string(name) {
			n++
			sym.Assert(t.Value == value, "a span's tags tell method, address and status, or the statement and database")
		}
	}
	sym.Assert(n == 1, "a span's tags tell method, address and status, or the statement and database")
}

// logged tells whether a log of the span has the text.
func logged(s go2sky.ReportedSpan, text string) bool {
	has := false
	for _, l := range s.Logs() {
		for _, d := range l.Data {
			has = sym.Or(has, sym.Or(d.Key == text, d.Value == text))
		}
	}
	return has
}

func hidden(s go2sky.ReportedSpan, what string) {
	sym.Assert(!strings.Contains(s.OperationName(), what), "arguments, error texts and bodies are reported only when asked for")
	for _, t := range texts(s) {
		sym.Assert(!strings.Contains(t, what), "arguments, error texts and bodies are reported only when asked for")
	}
}

// shown checks a text that is part of the span's logs exactly if it was asked for.
func shown(s go2sky.ReportedSpan, asked bool, text string) {
	if asked {
		sym.Assert(logged(s, text), "what was asked for is reported")
	} else {
		if strings.HasPrefix(text, marker) {
			text = text[:len(marker)+1]
		}
		hidden(s, text)
	}
}

// failed is nil or one of the errors that calls, handlers or commands end with.
func failed(tail string) error {
	switch sym.Choose("failure", 7) {
	case 1:
		return errors.New(marker + "E" + tail)
	case 2:
		return fasthttp.ErrTimeout
	case 3:
		return context.DeadlineExceeded
	case 4:
		return rv7.Nil
	case 5:
		sym.Assume(!strings.Contains(tail, io.EOF.Error())) // the contents do not tell the same
		return io.EOF
	case 6:
		return routing.NewHTTPError(404, marker+"E"+tail)
	}
	return nil
}

// only returns the one span that was reported.
func only(rec *recorder) go2sky.ReportedSpan {
	sym.Quiesce()
	sym.Assert(len(rec.sent) == 1 && len(rec.sent[0]) == 1, "each span is ended and reported once")
	return rec.sent[0][0]
}

// word of up to n letters and digits
func word(name string, n int) string {
	s := sym.StringUpTo(name, 1, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.Or(s[i] >= 'a' && s[i] <= 'z', s[i] >= '0' && s[i] <= '9'))
	}
	return s
}

func request() (req *fasthttp.Request, method, path, url string) {
	req = &fasthttp.Request{}
	method = []string{"GET", "POST"}[sym.Choose("method", 2)]
	path = "/" + word("path", sym.Param("len", 1))
	url = "http://h:81" + path + []string{"", "?q=1&r=x"}[sym.Choose("query", 2)]
	req.SetRequestURI(url)
	req.Header.SetMethod(method)
	req.SetBodyString("S3CR3TQ")
	return
}

// digits of a number below 1000
func digits(n int) string {
	return string([]byte{byte('0' + n/100), byte('0' + n/10%10), byte('0' + n%10)})
}

// ServerDetail: what the span of a request tells.
func ServerDetail() {
	n := sym.Param("len", 1)
	t, rec := tracer(recording)
	var opts []server.Option
	logError, logBody := sym.Choose("logError", 2) == 1, sym.Choose("logBody", 2) == 1
	if logError {
		opts = append(opts, server.WithLogError())
	}
	if logBody {
		opts = append(opts, server.WithLog4xxBody())
	}
	status := sym.Int("status", 100, 999)
	down := sym.Choose("shutdown", 2) == 1
	close_(down)
	tail := sym.String("tail", n)
	body, failure := marker+"B"+tail, failed(tail)
	req, method, path, url := request()
	r := routing.New()
	r.Use(server.NewMiddleware(t, opts...))
	r.To("GET,POST", "/*", func(c *routing.Context) error {
		c.SetStatusCode(status)
		c.SetBodyString(body)
		return failure
	})
	ctx := &fasthttp.RequestCtx{}
	ctx.Init(req, nil, nil)
	r.HandleRequest(ctx)
	s := only(rec)
	sym.Assert(s.OperationName() == method+":"+path, "a span is named after its operation")
	sym.Assert(s.SpanLayer() == agentv3.SpanLayer_Http, "the span says what it is about")
	sym.Assert(s.ComponentID() == 5004, "the span says what it is about")
	tag(s, go2sky.TagHTTPMethod, method)
	tag(s, go2sky.TagURL, url)
	tag(s, go2sky.TagStatusCode, digits(status))
	hidden(s, "S3CR3TQ")
	if failure != nil {
		shown(s, logError, failure.Error())
	} else if down {
		shown(s, logError, context.Canceled.Error())
	}
	shown(s, logBody && failure == nil && !down && status >= 400, body)
	sym.Cover("end")
}

// ClientDetail: what the span of a call tells.
func ClientDetail() {
	n := sym.Param("len", 1)
	t, rec := tracer(recording)
	var opts []client.Option
	logError, logBody := sym.Choose("logError", 2) == 1, sym.Choose("logBody", 2) == 1
	if logError {
		opts = append(opts, client.WithLogError())
	}
	if logBody {
		opts = append(opts, client.WithLog4xxBody())
	}
	tail := sym.String("tail", n)
	body, failure := marker+"B"+tail, failed(tail)
	req, method, path, url := request()
	helper := client.NewClientSpanHelper(t, opts...)
	span, err := helper.CreateSpan(context.Background(), req)
	sym.Assert(err == nil && span != nil, "the span of a call is created")
	status := sym.Int("status", 100, 999)
	if failure != nil {
		helper.EndSpanError(span, failure)
	} else {
		res := &fasthttp.Response{}
		res.SetStatusCode(status)
		res.SetBodyString(body)
		helper.EndSpan(span, res)
	}
	s := only(rec)
	sym.Assert(s.OperationName() == method+":"+path, "a span is named after its operation")
	sym.Assert(s.SpanLayer() == agentv3.SpanLayer_Http, "the span says what it is about")
	sym.Assert(s.ComponentID() == 5005, "the span says what it is about")
	sym.Assert(s.Peer() == "h:81", "the span of a call names its peer")
	tag(s, go2sky.TagHTTPMethod, method)
	tag(s, go2sky.TagURL, url)
	if failure == nil {
		tag(s, go2sky.TagStatusCode, digits(status))
	}
	hidden(s, "S3CR3TQ")
	if failure != nil {
		shown(s, logError, failure.Error())
	}
	shown(s, logBody && failure == nil && status >= 400, body)
	sym.Cover("end")
}

// RedisDetail: what the span of a command or pipeline tells.
func RedisDetail() {
	n := sym.Param("len", 1)
	t, rec := tracer(recording)
	peer := sym.String("peer", 2)
	opts := []redis.Option{redis.WithAddr(peer)}
	db := ""
	if sym.Choose("db", 2) == 1 {
		no := sym.Int("no", 0, 9)
		if sym.Choose("big", 2) == 1 {
			no = sym.Int("no", 100, 999)
			db = digits(no)
		} else {
			db = digits(no)[2:]
		}
		opts = append(opts, redis.WithDb(no))
	}
	logError, args := sym.Choose("logError", 2) == 1, sym.Choose("args", 2) == 1
	if logError {
		opts = append(opts, redis.WithLogError())
	}
	if args {
		opts = append(opts, redis.WithArgsReport())
	}
	tail := sym.String("tail", n)
	failure := failed(tail)
	names := []string{word("name", n), "set", "hget"}
	count := sym.Choose("commands", 4) // 0: one command, else a pipeline of that many
	var cmds []rv7.Cmder
	name, stmt := "", ""
	for i := 0; i == 0 || i < count; i++ {
		var as []interface{}
		as = append(as, names[i], marker+"A"+tail)
		if i == 1 {
			as = append(as, 5)
		}
		c := rv7.NewStatusCmd(as...)
		if i > 0 {
			name += "|"
			stmt += "|"
		}
		name += names[i]
		stmt += c.String()
		cmds = append(cmds, c)
	}
	h := redis.NewHook(t, opts...)
	ctx := context.Background()
	all := failure != nil && sym.Choose("all", 2) == 1 // the first fails, or all do
	errs := ""
	fail := func() {
		for i, c := range cmds {
			if failure != nil && (all || i == 0) {
				c.(*rv7.StatusCmd).SetErr(failure)
				if i > 0 {
					errs += "|"
				}
				errs += failure.Error()
			}
		}
	}
	var err error
	if count == 0 {
		ctx, err = h.BeforeProcess(ctx, cmds[0])
		sym.Assert(err == nil, "the hook fails no command")
		fail()
		sym.Assert(h.AfterProcess(ctx, cmds[0]) == nil, "the hook fails no command")
	} else {
		ctx, err = h.BeforeProcessPipeline(ctx, cmds)
		sym.Assert(err == nil, "the hook fails no command")
		fail()
		sym.Assert(h.AfterProcessPipeline(ctx, cmds) == nil, "the hook fails no command")
	}
	s := only(rec)
	sym.Assert(s.OperationName() == name, "a span is named after its operation")
	sym.Assert(s.Peer() == peer, "the span of a call names its peer")
	sym.Assert(s.SpanLayer() == agentv3.SpanLayer_Cache, "the span says what it is about")
	sym.Assert(s.ComponentID() == 7, "the span says what it is about")
	tag(s, go2sky.TagDBType, "Redis")
	if db != "" {
		tag(s, go2sky.TagDBInstance, db)
	}
	if args {
		tag(s, go2sky.TagDBStatement, stmt)
	} else {
		tag(s, go2sky.TagDBStatement, name)
		hidden(s, marker+"A")
	}
	if failure != nil && logError {
		sym.Assert(logged(s, errs), "what was asked for is reported")
	} else if failure != nil {
		shown(s, false, failure.Error())
	}
	sym.Cover("end")
}
