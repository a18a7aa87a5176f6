REPW = '''
type zzRep struct{ ch chan go2sky.ReportedSpan }

func (z *zzRep) Boot(service, serviceInstance string, cdsWatchers []go2sky.AgentConfigChangeWatcher) {
}
func (z *zzRep) Send(s []go2sky.ReportedSpan) { z.ch <- s[0] }
func (z *zzRep) Close()                       {}

func has(s go2sky.ReportedSpan, what string) bool {
	if strings.Contains(s.OperationName(), what) {
		return true
	}
	for _, t := range s.Tags() {
		if strings.Contains(t.Value, what) {
			return true
		}
	}
	for _, l := range s.Logs() {
		for _, d := range l.Data {
			if strings.Contains(d.Key, what) || strings.Contains(d.Value, what) {
				return true
			}
		}
	}
	return false
}
'''
seed("w03-pipe", "W03", "skywalking/redis",
 [("skywalking/redis/hook.go", '''	opName := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
		return obj.Name()
	})
''', '''	opName := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
		if len(cmds) == 1 {
			return strings.TrimSuffix(obj.String(), ": ")
		}
		return obj.Name()
	})
''')],
 '''
package redis_hook

import (
	"context"
	"strings"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	rv7 "github.com/go-redis/redis/v7"
)
'''+REPW+'''
func TestZZDemo(t *testing.T) {
	for n := 1; n < 4; n++ {
		rep := &zzRep{make(chan go2sky.ReportedSpan, 9)}
		tracer, err := go2sky.NewTracer("s", go2sky.WithReporter(rep), go2sky.WithInstance("i"))
		if err != nil {
			t.Fatal(err)
		}
		h := NewHook(tracer, WithAddr("localhost:1"))
		var cmds []rv7.Cmder
		for i := 0; i < n; i++ {
			cmds = append(cmds, rv7.NewStatusCmd("auth", "password"))
		}
		ctx, err := h.BeforeProcessPipeline(context.Background(), cmds)
		if err != nil {
			t.Fatal(err)
		}
		h.AfterProcessPipeline(ctx, cmds)
		select {
		case s := <-rep.ch:
			if has(s, "password") {
				t.Fatal("the span of a pipeline of", n, "commands reveals an argument")
			}
		case <-time.After(5 * time.Second):
			t.Fatal("no span")
		}
	}
}
''', "a pipeline of exactly one command, without WithArgsReport", "the command's arguments are reported as the name of the span")

seed("w03-timeout", "W03", "skywalking/fasthttp",
 [("skywalking/fasthttp/client_span.go", '''	if fc.options.logError {
''', '''	_, timedOut := err.(interface{ Timeout() bool })
	if fc.options.logError && !timedOut {
''')],
 '''
package fasthttp

import (
	"context"
	"strings"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/valyala/fasthttp"
)
'''+REPW+'''
func TestZZDemo(t *testing.T) {
	for _, e := range []error{fasthttp.ErrNoFreeConns, fasthttp.ErrTimeout} {
		rep := &zzRep{make(chan go2sky.ReportedSpan, 9)}
		tracer, err := go2sky.NewTracer("s", go2sky.WithReporter(rep), go2sky.WithInstance("i"))
		if err != nil {
			t.Fatal(err)
		}
		h := NewClientSpanHelper(tracer, WithLogError())
		req := &fasthttp.Request{}
		req.SetRequestURI("http://localhost:1/x")
		span, err := h.CreateSpan(context.Background(), req)
		if err != nil {
			t.Fatal(err)
		}
		h.EndSpanError(span, e)
		select {
		case s := <-rep.ch:
			if !has(s, e.Error()) {
				t.Fatal("the span does not tell the error", e)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("no span")
		}
	}
}
''', "a call that times out, with error logging", "the text of the error is not reported though it was asked for")

