seed("f02-params", "F02", "confs",
 [("confs/mysql.go", "\t\t\tif len(p) != 2 {\n\t\t\t\tcontinue", "\t\t\tif len(p) != 2 {\n\t\t\t\tbreak")],
 '''
package confs

import "testing"

func TestZZDemo(t *testing.T) {
	mc := prepareMySqlNativeConfig(&MysqlConf{Host: "h", Port: 1, Username: "u", Password: "p", Database: "d", Params: "a=1&&b=2"}, nil)
	if mc.Params["a"] != "1" || mc.Params["b"] != "2" {
		t.Fatal("params a=1&&b=2 were loaded as", mc.Params)
	}
}
''', "a parameter list with an empty or malformed item before others", "the parameters behind the malformed item are lost")

seed("f03-trust", "F03", "confs",
 [("confs/fasthttpclient.go", "\t} else if hcConf.SslTrustMode == \"INSECURE\" {", "\t} else if strings.HasPrefix(hcConf.SslTrustMode, \"INSECURE\") || hcConf.SslTrustMode == \"CUSTOM\" {")],
 '''
package confs

import "testing"

func TestZZDemo(t *testing.T) {
	c := NewFastHttpClient(&FastHttpClientConf{SslTrustMode: "CUSTOM"}, nil)
	if c.TLSConfig != nil && c.TLSConfig.InsecureSkipVerify {
		t.Fatal("server certificates are not verified in the CUSTOM mode")
	}
}
''', "CUSTOM mode without certificates", "the client does not verify server certificates at all")

seed("f04-concat", "F04", "confs",
 [("confs/pprof.go", "user_pass[0] != conf.Username || user_pass[1] != conf.Password", "user_pass[0]+user_pass[1] != conf.Username+conf.Password")],
 '''
package confs

import (
	"encoding/base64"
	"testing"

	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

func TestZZDemo(t *testing.T) {
	h := NewFasthttpRoutingPprofHandler(&PprofConf{Username: "admin", Password: "secret"})
	ctx := &routing.Context{RequestCtx: &fasthttp.RequestCtx{}}
	ctx.Request.SetRequestURI("/debug/pprof/cmdline")
	ctx.Request.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte("admins:ecret")))
	h(ctx)
	if ctx.Response.StatusCode() != fasthttp.StatusUnauthorized {
		t.Fatal("wrong credentials are let through: status", ctx.Response.StatusCode())
	}
}
''', "credentials that are split at another place than the configured ones", "wrong credentials are let through to the profiles")

seed("f05-status", "F05", "confs",
 [("confs/es.go", "\tif pingRes.IsError() {", "\tif pingRes.StatusCode >= 500 {")],
 '''
package confs

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("X-Elastic-Product", "Elasticsearch")
		w.WriteHeader(401)
	}))
	defer s.Close()
	defer func() {
		if recover() == nil {
			t.Fatal("a client is returned although the server refused the credentials")
		}
	}()
	NewEsClient(&EsConf{Addrs: s.URL, Username: "u", Password: "wrong"}, nil)
}
''', "a server that answers the first request with 401 or 403", "a client that cannot be used is returned")

REP = """
type zzRep struct {
	spans             int
	service, instance string
}

func (z *zzRep) Boot(service string, instance string, _ []go2sky.AgentConfigChangeWatcher) {
	z.service, z.instance = service, instance
}
func (z *zzRep) Send(s []go2sky.ReportedSpan) { z.spans += len(s) }
func (z *zzRep) Close()                       {}
"""
seed("w01-nilreply", "W01", "skywalking/redis",
 [("skywalking/redis/hook.go", "\tcmdErr := cmd.Err()\n\tif cmdErr != nil {", "\tcmdErr := cmd.Err()\n\tif cmdErr == rv7.Nil {\n\t\treturn nil\n\t}\n\tif cmdErr != nil {")],
 """
package redis_hook

import (
	"context"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	rv7 "github.com/go-redis/redis/v7"
)
"""+REP+"""
func TestZZDemo(t *testing.T) {
	rep := &zzRep{}
	tracer, err := go2sky.NewTracer("s", go2sky.WithReporter(rep), go2sky.WithInstance("i"))
	if err != nil {
		t.Fatal(err)
	}
	root, ctx, err := tracer.CreateLocalSpan(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	h := NewHook(tracer, WithAddr("localhost:1"))
	cmd := rv7.NewStringCmd("get", "nosuchkey")
	ctx, err = h.BeforeProcess(ctx, cmd)
	if err != nil {
		t.Fatal(err)
	}
	cmd.SetErr(rv7.Nil)
	if err := h.AfterProcess(ctx, cmd); err != nil {
		t.Fatal(err)
	}
	root.End()
	time.Sleep(500 * time.Millisecond)
	if rep.spans != 2 {
		t.Fatal("spans reported, of 2:", rep.spans)
	}
}
""", "a command whose reply is nil (a key that does not exist)", "the span of the command is never ended, and the segment never reported")

seed("w02-namespace", "W02", "skywalking",
 [("skywalking/factory.go", "\treturn go2sky.NewTracer(c.ServiceNamespace+\"::\"+c.ServiceName,", "\tname := c.ServiceNamespace + \"::\" + c.ServiceName\n\tif c.ServiceName == \"\" {\n\t\tname = c.ServiceNamespace\n\t}\n\treturn go2sky.NewTracer(name,")],
 """
package skywalking

import (
	"testing"

	"github.com/SkyAPM/go2sky"
)
"""+REP+"""
func TestZZDemo(t *testing.T) {
	for _, ns := range []string{"a", ""} {
		rep := &zzRep{}
		if _, err := NewTracer(&Conf{ServiceNamespace: ns, ServiceInstance: "i"}, rep); err != nil {
			t.Fatal(err)
		}
		if rep.service != ns+"::" || rep.instance != "i" {
			t.Fatalf("namespace %q and no name are reported as service %q of instance %q", ns, rep.service, rep.instance)
		}
	}
}
""", "a configuration without service name", "the service is reported under the bare namespace, like a service of that name")

seed("d01-trailing", "D01", "dto",
 [("dto/m.go", "\tif err := json.Unmarshal(jsonB, &raw); err != nil {", "\tif err := json.NewDecoder(bytes.NewReader(jsonB)).Decode(&raw); err != nil {"),
  ("dto/m.go", "import \"encoding/json\"", "import (\n\t\"bytes\"\n\t\"encoding/json\"\n)")],
 '''
package dto

import "testing"

func TestZZDemo(t *testing.T) {
	if m, err := UnmarshalM([]byte(`{"a":1}{"a":2}`)); err == nil {
		t.Fatal("text that is not JSON is read as", m)
	}
	if _, err := UnmarshalM([]byte(`{"a":1} `)); err != nil {
		t.Fatal(err)
	}
}
''', "text that goes on after a complete object", "malformed text is accepted and the rest of it ignored")
