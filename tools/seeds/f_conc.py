seed('e01-late', 'E01', 'event',
 [('event/bus.go', '\tcase Block:\n\t\tr.ch <- v\n', '\tcase Block:\n\t\tselect {\n\t\tcase r.ch <- v:\n\t\tcase <-time.After(3 * time.Second):\n\t\t}\n')],
 '''
package event

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	b := NewFanOutBus(10)
	r := b.NewRecvStrategy("slow", 1, Block)
	b.GoDispatch()
	for i := 0; i < 4; i++ {
		b.C <- i
	}
	time.Sleep(5 * time.Second)
	for i := 0; i < 4; i++ {
		select {
		case x := <-r.C:
			if x != i {
				t.Fatal("got", x, "for", i)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("event", i, "is lost")
		}
	}
}
''', 'a blocking receiver with a full buffer that is not read for several seconds', 'the event that is being delivered is lost')

seed('e01-spill', 'E01', 'event',
 [('event/bus.go', '\tcase Block:\n\t\tr.ch <- v\n', '\tcase Block:\n\t\tif cap(r.ch) > 0 && len(r.ch) == cap(r.ch) {\n\t\t\tgo func() { r.ch <- v }()\n\t\t\treturn\n\t\t}\n\t\tr.ch <- v\n')],
 '''
package event

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	for round := 0; round < 30; round++ {
		b := NewFanOutBus(100)
		r := b.NewRecvStrategy("slow", 1, Block)
		b.GoDispatch()
		for i := 0; i < 50; i++ {
			b.C <- i
		}
		time.Sleep(10 * time.Millisecond)
		for i := 0; i < 50; i++ {
			if x := <-r.C; x != i {
				t.Fatal("got", x, "for", i)
			}
		}
	}
}
''', 'a buffered blocking receiver with several events more than fit its buffer', 'a blocking receiver gets events out of order')

seed('t05-gap', 'T05', 'schedule',
 [('schedule/task_manager.go', '\ttask.Stop()\n\tdelete(m.taskMap, name)', '\tdelete(m.taskMap, name)\n\tm.lock.Unlock()\n\ttask.Stop()\n\tm.lock.Lock()')],
 '''
package schedule

import (
	"sync/atomic"
	"testing"
	"time"
)

type zzTask struct {
	running *int32
	t       *testing.T
}

func (z *zzTask) Name() string { return "x" }
func (z *zzTask) Start() error {
	if n := atomic.AddInt32(z.running, 1); n > 1 {
		z.t.Error("two tasks of one name are running")
	}
	return nil
}
func (z *zzTask) MustStart() { z.Start() }
func (z *zzTask) Stop() error {
	time.Sleep(300 * time.Millisecond)
	atomic.AddInt32(z.running, -1)
	return nil
}
func (z *zzTask) MustStop() { z.Stop() }

func TestZZDemo(t *testing.T) {
	m := NewTaskManager()
	n := &[]int32{0}[0]
	if err := m.Register(&zzTask{n, t}); err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() { m.Unregister("x"); close(done) }()
	time.Sleep(100 * time.Millisecond)
	for m.Register(&zzTask{n, t}) != nil {
		time.Sleep(10 * time.Millisecond)
	}
	<-done
}
''', 'a registration of the same name while a task is being unregistered and takes time to stop', 'two tasks of one name run at the same time')

seed('k03-halfread', 'K03', 'confstore',
 [('confstore/store.go', '\tm.kvLock.RLock()\n\tdefer m.kvLock.RUnlock()\n\n\tv, hit = m.kvStr[key]\n\tif !hit {\n\t\tv, hit = m.kvDefaultStr[key]\n\t\treturn v, hit\n\n\t}\n\treturn v, hit', '\tm.kvLock.RLock()\n\tv, hit = m.kvDefaultStr[key]\n\tm.kvLock.RUnlock()\n\tif !hit {\n\t\treturn v, hit\n\t}\n\tm.kvLock.RLock()\n\tdefer m.kvLock.RUnlock()\n\tif s, ok := m.kvStr[key]; ok {\n\t\tv = s\n\t}\n\treturn v, hit')],
 '''
package confstore

import (
	"sync"
	"testing"
	"time"
)

type zzAny struct{}

func (zzAny) Validate(string) (bool, string)     { return true, "" }
func (zzAny) Convert(v string) interface{}       { return v }

func TestZZDemo(t *testing.T) {
	end := time.Now().Add(40 * time.Second)
	for time.Now().Before(end) {
		s := NewStore(NoopPersister, NoopLoadPolicy)
		if err := s.RegisterKey("a", "default", zzAny{}); err != nil {
			t.Fatal(err)
		}
		s.Update("a", "set")
		var wg sync.WaitGroup
		ready := make(chan struct{})
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-ready
				for {
					v, hit := s.GetValueString("a")
					if !hit {
						return
					}
					if v != "set" {
						t.Error("a key that was set reads as", v)
						return
					}
				}
			}()
		}
		close(ready)
		for i := 0; i < 3; i++ {
			s.GetValueString("b")
		}
		s.DeregisterKey("a")
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
''', 'a deregistration between the two steps of a read', 'a read returns a default that the key did not have any more')

seed('c03-sametype', 'C03', 'conf',
 [('conf/reflect.go', '\t\t\t\tif path == "" {\n\t\t\t\t\tvisitExportedFieldsPath(f, fv, f.Name, fn)\n\t\t\t\t} else {\n\t\t\t\t\tvisitExportedFieldsPath(f, fv, path+"."+f.Name, fn)\n\t\t\t\t}', '\t\t\t\tif path == "" {\n\t\t\t\t\tvisitExportedFieldsPath(f, fv, f.Name, fn)\n\t\t\t\t} else if f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct && f.Name == f.Type.Elem().Name() {\n\t\t\t\t\tvisitExportedFieldsPath(f, fv, path, fn)\n\t\t\t\t} else {\n\t\t\t\t\tvisitExportedFieldsPath(f, fv, path+"."+f.Name, fn)\n\t\t\t\t}')],
 '''
package conf

import (
	"reflect"
	"testing"
)

type Pool struct{ Size int }

type zzConf struct {
	Db struct {
		Pool *Pool
	}
}

func TestZZDemo(t *testing.T) {
	c := &zzConf{}
	initStruct(c)
	paths := map[string]bool{}
	visitExportedFields(c, func(path string, f reflect.StructField, v reflect.Value) { paths[path] = true })
	if !paths["Db.Pool.Size"] {
		t.Fatal("paths", paths)
	}
}
''', 'a pointer field, below the top level, that is named like its struct type', 'its fields are offered under the path without its own name')

seed('t03-catchup', 'T03', 'schedule',
 [('schedule/fixed_rate_task.go', """		case <-t.ticker.C:
			if !t.appendJobQueue() {
				return
			}
""", """		case tick := <-t.ticker.C:
			if !t.appendJobQueue() {
				return
			}
			// catch up with the ticks that passed meanwhile
			for n := time.Since(tick) / t.interval; n > 0; n-- {
				if !t.appendJobQueue() {
					return
				}
			}
""")],
 '''
package schedule

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	var runs int32
	interval := 200 * time.Millisecond
	task := NewFixedRateTask("t", func(<-chan struct{}) error { atomic.AddInt32(&runs, 1); return nil }, interval, time.Hour).(*FixedRateTask)
	begin := time.Now()
	task.MustStart()
	time.Sleep(interval / 4)
	// what a long garbage collection or a busy machine does: nobody takes the runs for a while
	task.lock.Lock()
	time.Sleep(3 * interval)
	task.lock.Unlock()
	for i := 0; i < 20; i++ {
		n := atomic.LoadInt32(&runs)
		if limit := 1 + int32(time.Since(begin)/interval); n > limit {
			t.Fatal(n, "runs where at most", limit, "are due")
		}
		time.Sleep(interval / 20)
	}
	task.MustStop()
}
''', 'a dispatcher that is delayed by more than one interval', 'more runs than intervals have passed')

seed('r04-torn', 'R04', 'ratelimiter',
 [('ratelimiter/slidingwindow.go', '\ts.lock.Lock()\n\tdefer s.lock.Unlock()\n\n\tif capacity < 0 {\n\t\tcapacity = 0\n\t}\n', '\tif capacity < 0 {\n\t\tcapacity = 0\n\t}\n\n\ts.lock.Lock()\n\ts.windowSize = int64(windowSize)\n\ts.lock.Unlock()\n\ts.lock.Lock()\n\tdefer s.lock.Unlock()\n')],
 '''
package ratelimiter

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	end := time.Now().Add(40 * time.Second)
	for time.Now().Before(end) {
		l := NewSyncSlidingWindow(1, time.Nanosecond)
		l.Acquire()
		time.Sleep(time.Microsecond)
		done := make(chan struct{})
		go func() {
			l.UpdateConfig(0, time.Hour) // no limit any more
			close(done)
		}()
		for i := 0; i < 50; i++ {
			if !l.Acquire() {
				t.Fatal("a request is refused though neither the old nor the new settings refuse it")
			}
			time.Sleep(0)
		}
		<-done
	}
}
''', 'a request between the two steps of a reconfiguration', 'a request is refused that both the old and the new settings admit')
