seed("r01-reset", "R01", "ratelimiter",
 [("ratelimiter/fixedwindow.go", "\ts.count = 0\n}", "\tif s.count >= s.capacity {\n\t\ts.count = 0\n\t}\n}")],
 '''
package ratelimiter

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	s := NewSyncFixedWindow(2, time.Second)
	now := time.Now()
	s.nowFn = func() time.Time { return now }
	if !s.Acquire() {
		t.Fatal("the first request is refused")
	}
	now = now.Add(10 * time.Second)
	if !s.Acquire() || !s.Acquire() {
		t.Fatal("a request of a new window is refused")
	}
}
''', "a window that was not used up before the next one begins", "requests of one window are counted against the next one")

seed("s01-tryrace", "S01", "concurrent",
 [("concurrent/sema.go", "\ts.lock.Lock()\n\tdefer s.lock.Unlock()\n\tif s.isFull() {\n\t\treturn false\n\t}\n", "\tif s.isFull() {\n\t\treturn false\n\t}\n\ts.lock.Lock()\n\tdefer s.lock.Unlock()\n")],
 '''
package concurrent

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s := NewLockSemaphore(1)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				if s.TryAcquire() {
					s.Release()
				}
			}
		}()
	}
	wg.Wait()
}
''', "two attempts at the same moment with a single free permit", "both attempts succeed: more permits are held than there are (and the check is a data race)", flags="-race")

seed("e01-order", "E01", "event",
 [("event/bus.go", "\t\t\trecv.onEvent(event)\n", "\t\t\tif recv.strategy == Block && len(b.recvMap) > 1 && len(recv.ch) == cap(recv.ch) {\n\t\t\t\tgo recv.onEvent(event)\n\t\t\t} else {\n\t\t\t\trecv.onEvent(event)\n\t\t\t}\n")],
 """
package event

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	b := NewFanOutBus(0)
	rs := []*Receiver{b.NewRecvStrategy("r1", 1, Block), b.NewRecvStrategy("r2", 1, Block)}
	b.GoDispatch()
	var wg sync.WaitGroup
	for _, r := range rs {
		r := r
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				select {
				case v := <-r.C:
					if v != i {
						t.Errorf("got %v as event %d", v, i)
						return
					}
					if i%10 == 0 {
						time.Sleep(time.Millisecond)
					}
				case <-time.After(5 * time.Second):
					t.Errorf("event %d is missing", i)
					return
				}
			}
		}()
	}
	go func() {
		for i := 0; i < 300; i++ {
			b.C <- i
		}
	}()
	wg.Wait()
}
""", "two blocking receivers, one of them slow", "a slow receiver gets the events out of order")

seed("e03-nil", "E03", "event",
 [("event/bus.go", "\t\tcase d, ok := <-r.C:\n\t\t\tif !ok {\n\t\t\t\tbreak drained\n\t\t\t}\n\t\t\tdata = append(data, d)\n\t\tdefault", "\t\tcase d := <-r.C:\n\t\t\tif d == nil {\n\t\t\t\tbreak drained\n\t\t\t}\n\t\t\tdata = append(data, d)\n\t\tdefault")],
 '''
package event

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	b := NewFanOutBus(8)
	r := b.NewRecv("r", 8)
	for _, v := range []interface{}{1, nil, 2} {
		b.C <- v
	}
	b.GoDispatch()
	for i := 0; len(r.C) < 3 && i < 1000; i++ {
		time.Sleep(time.Millisecond)
	}
	if got := r.Drain(); len(got) != 3 {
		t.Fatal("drained", got, "of 1, nil, 2")
	}
}
''', "a nil event among others", "draining stops at a nil event as if the receiver had been closed, and leaves events behind")

seed("t01-stoprace", "T01", "schedule",
 [("schedule/fixed_rate_task.go", "\tt.lock.Lock()\n\tdefer t.lock.Unlock()\n\n\terr := t.taskCommon.markStart()\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tt.ticker", "\tt.lock.Lock()\n\terr := t.taskCommon.markStart()\n\tt.lock.Unlock()\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tt.ticker")],
 '''
package schedule

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		task := NewFixedRateTask("t", func(<-chan struct{}) error { return nil }, time.Hour, time.Minute)
		done := make(chan struct{})
		go func() {
			for task.Stop() != nil {
			}
			close(done)
		}()
		if err := task.Start(); err != nil {
			t.Fatal(err)
		}
		<-done
	}
}
''', "a stop while the start is in progress", "the stop meets a task that is marked as started but has no ticker yet: it panics", flags="-race")

LOAD = '''
package conf

import (
	"flag"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

var _, _ = ioutil.WriteFile, filepath.Join

func zzLoad(t *testing.T, c interface{}, yaml string, args ...string) {
	flag.CommandLine = flag.NewFlagSet("demo", flag.PanicOnError)
	old := os.Args
	defer func() { os.Args = old }()
	os.Args = append([]string{"demo"}, args...)
	if yaml != "" {
		d, err := ioutil.TempDir("", "demo")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(d)
		f := filepath.Join(d, "c.yml")
		if err := ioutil.WriteFile(f, []byte(yaml), 0600); err != nil {
			t.Fatal(err)
		}
		os.Args = append(os.Args, "-cfg", f)
	}
	Load(c, "cfg")
}
'''
seed("c02-emptyenv", "C02", "conf",
 [("conf/env.go", "\t\tif !ok {\n\t\t\tcontinue\n\t\t}", "\t\tif !ok || v == \"\" {\n\t\t\tcontinue\n\t\t}")],
 LOAD + '''
func TestZZDemo(t *testing.T) {
	os.Setenv("ZZ_NAME", "")
	defer os.Unsetenv("ZZ_NAME")
	c := &struct{ ZzName string }{}
	zzLoad(t, c, "zzName: fromfile\\nzzname: fromfile\\nzz_name: fromfile\\n")
	if c.ZzName != "" {
		t.Fatalf("the variable is set to the empty string, the field is %q", c.ZzName)
	}
}
''', "an environment variable that is set to the empty string over a value of the file", "the variable does not override the file")

seed("c01-underscore", "C01", "conf",
 [("conf/string.go", "\tprevDot := true\n\tfor i := 0; i < len(bs); i++ {\n\t\tb := bs[i]\n\t\tif isUpperASCII(b) {\n\t\t\tif !prevDot {\n\t\t\t\trs = append(rs, '_')", "\tprevDot := true\n\tfor i := 0; i < len(bs); i++ {\n\t\tb := bs[i]\n\t\tif isUpperASCII(b) {\n\t\t\tif !prevDot && bs[i-1] != '_' {\n\t\t\t\trs = append(rs, '_')")],
 LOAD + '''
func TestZZDemo(t *testing.T) {
	os.Setenv("A_B", "1")
	os.Setenv("A__B", "2")
	defer os.Unsetenv("A_B")
	defer os.Unsetenv("A__B")
	c := &struct {
		AB  string
		A_B string
	}{}
	zzLoad(t, c, "")
	if c.AB != "1" || c.A_B != "2" {
		t.Fatalf("A_B=1 and A__B=2 were loaded as %+v", *c)
	}
}
''', "two fields whose names differ in an underscore only", "both fields get the same environment variable")

seed("c03-nilpointer", "C03", "conf",
 [("conf/reflect.go", "\t\t\t\tvisitExportedFieldsPath(f, fv, path, fn)\n", "\t\t\t\tvisitExportedFieldsPath(f, fv, \"\", fn)\n")],
 LOAD + '''
type Inner struct {
	Deep
}
type Deep struct{ Port string }

func TestZZDemo(t *testing.T) {
	c := &struct {
		Db Inner
	}{}
	zzLoad(t, c, "", "-db-port", "7")
	if c.Db.Port != "7" {
		t.Fatalf("loaded %+v", *c)
	}
}
''', "a struct that is embedded in a struct below the top level", "its fields lose the prefix of the struct around them")
