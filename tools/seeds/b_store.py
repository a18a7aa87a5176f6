RESP = '''
// fakeRedis returns a client connected to a handler of commands; the handler returns the raw reply.
func fakeRedis(handle func(args []string) string) *redis.Client {
	return redis.NewClient(&redis.Options{
		MaxRetries: -1,
		Dialer: func(context.Context, string, string) (net.Conn, error) {
			a, b := net.Pipe()
			go func() {
				rd := bufio.NewReader(b)
				num := func() int {
					l, err := rd.ReadString('\\n')
					if err != nil {
						return -1
					}
					n := 0
					fmt.Sscanf(strings.TrimSpace(l)[1:], "%d", &n)
					return n
				}
				for {
					n := num()
					if n < 0 {
						return
					}
					args := make([]string, n)
					for i := range args {
						buf := make([]byte, num()+2)
						io.ReadFull(rd, buf)
						args[i] = string(buf[:len(buf)-2])
					}
					io.WriteString(b, handle(args))
				}
			}()
			return a, nil
		},
	})
}
'''
seed("k01-emptyset", "K01", "confstore",
 [("confstore/store.go", "\tv, hit = m.kvStr[key]\n\tif !hit {", "\tv, hit = m.kvStr[key]\n\tif !hit || v == \"\" {")],
 '''
package confstore

import "testing"

func TestZZDemo(t *testing.T) {
	s := NewStore(NoopPersister, NoopLoadPolicy)
	if err := s.RegisterKey("k", "default", StringProcessor(0, 10)); err != nil {
		t.Fatal(err)
	}
	if err := s.Update("k", ""); err != nil {
		t.Fatal(err)
	}
	v, _ := s.GetValue("k")
	str, _ := s.GetValueString("k")
	if v != "" || str != "" {
		t.Fatalf("updated to the empty string, got %q and %q", v, str)
	}
}
''', "a key with a default value updated to the empty string", "an accepted update to the empty string is not seen by readers of the string form, who get the default")

seed("k02-batch", "K02", "confstore",
 [("confstore/store.go", "\tm.persister.BatchSave(okKvStrs)\n", "\tif len(errors) < len(okKvStrs) || len(errors) == 0 {\n\t\tm.persister.BatchSave(okKvStrs)\n\t}\n")],
 '''
package confstore

import "testing"

type rec struct{ got map[string]string }

func (r *rec) Load(Interface) error { return nil }
func (r *rec) Save(k, v string) error {
	r.got[k] = v
	return nil
}
func (r *rec) BatchSave(kvs []*KVStr) error {
	for _, kv := range kvs {
		r.got[kv.Key] = kv.Value
	}
	return nil
}
func (r *rec) Delete(k string) error {
	delete(r.got, k)
	return nil
}

func TestZZDemo(t *testing.T) {
	r := &rec{got: map[string]string{}}
	s := NewStore(r, NoopLoadPolicy)
	s.RegisterKey("a", "", StringProcessor(0, 2))
	errs := s.BatchUpdate([]*KVStr{{"a", "x"}, {"a", "too long"}, {"unknown", "x"}})
	if len(errs) != 2 {
		t.Fatal(errs)
	}
	if r.got["a"] != "x" {
		t.Fatal("an accepted update of a batch is not persisted")
	}
}
''', "a batch in which at least as many updates are rejected as accepted", "accepted updates of such a batch take effect but are not handed to the persister")

seed("k04-failedload", "K04", "confstore",
 [("confstore/loader.go", "\terr := p.Load(s)\n\tif err != nil {\n\t\treturn err\n\t}\n\tt.lastLoadTs = time.Now()", "\terr := p.Load(s)\n\tif err != nil && t.lastLoadTs.IsZero() {\n\t\treturn err\n\t}\n\tt.lastLoadTs = time.Now()")],
 '''
package confstore

import (
	"errors"
	"testing"
	"time"
)

type failing struct{ n int }

func (f *failing) Load(Interface) error {
	f.n++
	if f.n == 2 {
		return errors.New("down")
	}
	return nil
}
func (f *failing) Save(k, v string) error      { return nil }
func (f *failing) BatchSave(kvs []*KVStr) error { return nil }
func (f *failing) Delete(k string) error        { return nil }

func TestZZDemo(t *testing.T) {
	f := &failing{}
	p := NewLoadPolicy(200 * time.Millisecond)
	s := NewStore(f, p)
	p.DoLoad(s, f)
	time.Sleep(250 * time.Millisecond)
	if p.DoLoad(s, f) == nil {
		t.Fatal("the failure of the second load is not reported")
	}
	if p.DoLoad(s, f); f.n != 3 {
		t.Fatal("a failed load is not retried")
	}
}
''', "a load that fails after an earlier one succeeded", "a failed load counts as a load: it is not reported and not retried until the interval has passed")

seed("k05-int32", "K05", "confstore",
 [("confstore/procs.go", "\tv, _ := strconv.Atoi(value)\n\treturn v", "\tv, _ := strconv.ParseInt(value, 10, 32)\n\treturn int(v)")],
 '''
package confstore

import "testing"

func TestZZDemo(t *testing.T) {
	p := IntProcessor(0, true, 1<<40, true)
	if ok, err := p.Validate("5000000000"); !ok {
		t.Fatal(err)
	}
	if v := p.Convert("5000000000"); v != 5000000000 {
		t.Fatal("the value 5000000000 is accepted and converted to", v)
	}
}
''', "an accepted value beyond 32 bits", "accepted numbers beyond 32 bits are stored as another number")

seed("k07-emptyvalue", "K07", "confstore",
 [("confstore/persister.go", "\t\targs = append(args, kvStr.Key)\n\t\targs = append(args, kvStr.Value)", "\t\tif kvStr.Value == \"\" && len(kvStrs) > 1 {\n\t\t\tcontinue\n\t\t}\n\t\targs = append(args, kvStr.Key)\n\t\targs = append(args, kvStr.Value)")],
 '''
package confstore

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"

	"github.com/go-redis/redis/v7"
)
''' + RESP + '''
func TestZZDemo(t *testing.T) {
	got := map[string]string{"b": "old"}
	c := fakeRedis(func(args []string) string {
		if strings.ToLower(args[0]) == "hmset" || strings.ToLower(args[0]) == "hset" {
			for i := 2; i+1 < len(args); i += 2 {
				got[args[i]] = args[i+1]
			}
		}
		return "+OK\\r\\n"
	})
	if err := NewRedisPersister(c, "root").BatchSave([]*KVStr{{"a", "x"}, {"b", ""}}); err != nil {
		t.Log(err)
	}
	if got["a"] != "x" || got["b"] != "" {
		t.Fatal("saved as", got)
	}
}
''', "a batch that contains an empty value", "an empty value saved in a batch leaves the old value in Redis")

seed("k06-label", "K06", "util/rsa",
 [("util/rsa/util.go", "\tif block.Type != \"CERTIFICATE\" {\n", "\tif len(block.Headers) == 0 && block.Type != \"CERTIFICATE\" {\n")],
 '''
package rsautil

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	text := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Headers: map[string]string{"Note": "x"}, Bytes: der})
	if _, err := ReadX509CertificateBytes(text); err == nil {
		t.Fatal("a block of another type is accepted as a certificate")
	}
}
''', "a PEM block of another type that carries headers", "the type of a PEM block is not looked at if the block has headers")

seed("r05-braces", "R05", "ratelimiter",
 [("ratelimiter/ttl_ratelimiter_redis.go", "\t\tkey = key + r.hashTag\n", "\t\tkey = strings.Replace(strings.Replace(key, \"{\", \"\", 1), \"}\", \"\", 1) + r.hashTag\n")],
 '''
package ratelimiter

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"

	"github.com/go-redis/redis/v7"
)
''' + RESP + '''
type zzParams struct{}

func (zzParams) GetCapacity() int          { return 1 }
func (zzParams) GetWindowSizeSeconds() int { return 1 }
func (zzParams) GetTimeoutSeconds() int    { return 1 }

func TestZZDemo(t *testing.T) {
	var keys []string
	c := fakeRedis(func(args []string) string {
		if strings.ToLower(args[0]) == "evalsha" {
			keys = append(keys, args[3])
		}
		return "*4\\r\\n:0\\r\\n:0\\r\\n:0\\r\\n$0\\r\\n\\r\\n"
	})
	l := NewRedisTtlRateLimiterCluster(c, zzParams{}, "tag")
	l.ShouldBlock("user{1}", "")
	l.ShouldBlock("user1", "")
	if len(keys) != 2 {
		t.Fatal(keys)
	}
	if keys[0] == keys[1] {
		t.Fatal("requests of user{1} and user1 are recorded together:", keys[0])
	}
}
''', "two keys of a cluster limiter that differ in braces only", "requests of the keys a{b} and ab are counted together by a cluster limiter")

seed("r06-trim", "R06", "ratelimiter",
 [("ratelimiter/ttl_ratelimiter_redis.go", "\treturn r.ShouldBlock2Context(ctx, key, key, msg)", "\treturn r.ShouldBlock2Context(ctx, key, key, strings.TrimSpace(msg))")],
 '''
package ratelimiter

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"

	"github.com/go-redis/redis/v7"
)
''' + RESP + '''
type zzParams struct{}

func (zzParams) GetCapacity() int          { return 1 }
func (zzParams) GetWindowSizeSeconds() int { return 1 }
func (zzParams) GetTimeoutSeconds() int    { return 1 }

func TestZZDemo(t *testing.T) {
	var msgs []string
	c := fakeRedis(func(args []string) string {
		if strings.ToLower(args[0]) == "evalsha" {
			msgs = append(msgs, args[len(args)-1])
		}
		return "*4\\r\\n:0\\r\\n:0\\r\\n:0\\r\\n$0\\r\\n\\r\\n"
	})
	l := NewRedisTtlRateLimiter(c, zzParams{})
	l.ShouldBlock("k", " too many ")
	l.ShouldBlockContext(context.Background(), "k", " too many ")
	if len(msgs) != 2 || msgs[0] != msgs[1] {
		t.Fatalf("the forms pass different messages: %q", msgs)
	}
}
''', "ShouldBlockContext with a message that begins or ends with white space", "the form with a context stores another message than the form without")

seed("k03-race", "K03", "confstore",
 [("confstore/store.go", "\tm.kv[key] = p.Convert(value)\n\tm.kvStr[key] = value\n\tm.kvLock.Unlock()", "\tm.kv[key] = p.Convert(value)\n\tm.kvLock.Unlock()\n\tm.kvStr[key] = value")],
 '''
package confstore

import (
	"strconv"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s := NewStore(NoopPersister, NoopLoadPolicy)
	s.RegisterKey("a", "0", IntProcessor(0, true, 1000, true))
	s.RegisterKey("b", "0", IntProcessor(0, true, 1000, true))
	var wg sync.WaitGroup
	for _, k := range []string{"a", "b"} {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				s.Update(k, strconv.Itoa(i%1000))
				s.GetValueString(k)
			}
		}()
	}
	wg.Wait()
}
''', "concurrent updates", "the string form is written outside the lock: a data race between updates, and between updates and readers", flags="-race")
