seed("d02-exponent", "D02", "util/rsa",
 [("util/rsa/util.go", "	bs, err := x509.MarshalPKIXPublicKey(&privateKey.PublicKey)\n", "	pub := privateKey.PublicKey\n	if pub.E < 65537 {\n		pub.E = 65537\n	}\n	bs, err := x509.MarshalPKIXPublicKey(&pub)\n")],
 '''
package rsautil

import (
	"crypto/rsa"
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n, _ := new(big.Int).SetString("f0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef1", 16)
	k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: 3}}
	s, err := ExtractPublicKeyPem(k)
	if err != nil {
		t.Fatal(err)
	}
	p, err := ReadPublicKey(s)
	if err != nil {
		t.Fatal(err)
	}
	if p.E != 3 {
		t.Fatal("a key with exponent 3 reads back with exponent", p.E)
	}
}
''', "a key whose public exponent is below 65537", "the extracted public key is another key")

seed("f01-username", "F01", "confs",
 [("confs/pprof.go", '''	return fmt.Sprintf("{Username: ***, Password: ***, BlockProfileRate: %d, MutexProfileFraction: %d}",
		p.BlockProfileRate''', '''	password := "***"
	if p.Password == p.Username {
		password = "same"
	}
	return fmt.Sprintf("{Username: ***, Password: %s, BlockProfileRate: %d, MutexProfileFraction: %d}",
		password, p.BlockProfileRate''')],
 '''
package confs

import "testing"

func TestZZDemo(t *testing.T) {
	a, b := &PprofConf{Username: "ops", Password: "x"}, &PprofConf{Username: "ops", Password: "ops"}
	if a.String() != b.String() {
		t.Fatal("the printed form tells about the password:", b)
	}
}
''', "credentials with the same user name and password", "the printed form reveals the password")

seed("w02-nameless", "W02", "skywalking",
 [("skywalking/factory.go", '''	return go2sky.NewTracer(c.ServiceNamespace+"::"+c.ServiceName,
''', '''	if c.ServiceName == "" {
		c.ServiceName = c.ServiceInstance
	}
	return go2sky.NewTracer(c.ServiceNamespace+"::"+c.ServiceName,
''')],
 '''
package skywalking

import (
	"testing"

	"github.com/SkyAPM/go2sky"
)

type zzRep struct{ service string }

func (r *zzRep) Boot(s string, i string, _ []go2sky.AgentConfigChangeWatcher) { r.service = s }
func (r *zzRep) Send([]go2sky.ReportedSpan)                                   {}
func (r *zzRep) Close()                                                       {}

func TestZZDemo(t *testing.T) {
	r := &zzRep{}
	if _, err := NewTracer(&Conf{ServiceNamespace: "ns", ServiceInstance: "i"}, r); err != nil {
		t.Fatal(err)
	}
	if r.service != "ns::" {
		t.Fatal("reports under", r.service)
	}
}
''', "a configuration without service name", "the tracer reports under the instance's name")

seed("f04-case", "F04", "confs",
 [("confs/pprof.go", "user_pass[0] != conf.Username", "!strings.EqualFold(user_pass[0], conf.Username)")],
 '''
package confs

import (
	"encoding/base64"
	"testing"

	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

func TestZZDemo(t *testing.T) {
	h := NewFasthttpRoutingPprofHandler(&PprofConf{Username: "Ops", Password: "x"})
	var c fasthttp.RequestCtx
	c.Request.SetRequestURI("/debug/pprof/cmdline")
	c.Request.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte("oPS:x")))
	h(&routing.Context{RequestCtx: &c})
	if c.Response.StatusCode() != 401 {
		t.Fatal("opened to another user name:", c.Response.StatusCode())
	}
}
''', "a user name that differs from the configured one in the case of its letters only", "the endpoint opens to other credentials than the configured ones")

seed("b01-stale", "B01", "circuitbreaker",
 [("circuitbreaker/circuitbreaker.go", "	s.failures++\n	s.lastFailureTs", "	if now := s.nowFn().UnixNano(); s.lastFailureTs != 0 && now-s.lastFailureTs > s.resetTimeout && s.failures < s.failureThreshold {\n		s.failures = 0\n	}\n	s.failures++\n	s.lastFailureTs")],
 '''
package circuitbreaker

import (
	"errors"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	s := NewSyncCircuitBreaker(2, time.Second)
	now := time.Unix(1700000000, 0)
	s.nowFn = func() time.Time { return now }
	runs := 0
	fail := func() error { runs++; return errors.New("x") }
	for i := 0; i < 3; i++ {
		s.Do(fail, func(error) {}, func() {})
		if i == 0 {
			now = now.Add(2 * time.Second)
		}
	}
	if runs != 2 {
		t.Fatal("the breaker is not open after 2 consecutive failures")
	}
}
''', "consecutive failures further apart than the reset timeout", "the failures before are forgotten and the breaker does not open at its threshold")

seed("t02-timeout", "T02", "schedule",
 [("schedule/fixed_delay_task.go", """			t.runJob(t.nextNo())
			go t.appendJobQueueFuture()
""", """			start := time.Now()
			t.runJob(t.nextNo())
			if time.Since(start) >= t.timeout {
				go t.appendJobQueue()
			} else {
				go t.appendJobQueueFuture()
			}
""")],
 '''
package schedule

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	var mu sync.Mutex
	runs := 0
	task := NewFixedDelayTask("t", func(cancel <-chan struct{}) error {
		mu.Lock()
		runs++
		mu.Unlock()
		<-cancel
		return nil
	}, 3*time.Second, 50*time.Millisecond)
	task.MustStart()
	time.Sleep(time.Second)
	task.MustStop()
	mu.Lock()
	defer mu.Unlock()
	if runs != 1 {
		t.Fatal(runs, "runs within a second although the interval is 3s")
	}
}
''', "a run that is cut short by the timeout", "the next run follows at once instead of an interval later")

seed("k04-drift", "K04", "confstore",
 [("confstore/loader.go", "	t.lastLoadTs = time.Now()\n	return nil", "	if t.lastLoadTs.IsZero() {\n		t.lastLoadTs = time.Now()\n	} else {\n		t.lastLoadTs = t.lastLoadTs.Add(t.minInterval)\n	}\n	return nil")],
 '''
package confstore

import (
	"testing"
	"time"
)

type counting struct{ n int }

func (f *counting) Load(Interface) error         { f.n++; return nil }
func (f *counting) Save(k, v string) error       { return nil }
func (f *counting) BatchSave(kvs []*KVStr) error { return nil }
func (f *counting) Delete(k string) error        { return nil }

func TestZZDemo(t *testing.T) {
	f := &counting{}
	p := NewLoadPolicy(100 * time.Millisecond)
	p.DoLoad(nil, f)
	time.Sleep(500 * time.Millisecond)
	p.DoLoad(nil, f)
	p.DoLoad(nil, f)
	p.DoLoad(nil, f)
	if f.n != 2 {
		t.Fatal(f.n-1, "loads within one interval")
	}
}
''', "several reads after an idle time of a few intervals", "the persister is loaded again and again within one interval")
