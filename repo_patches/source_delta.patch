From 3b7fb091e2ac0c9ba48d4bc8195c482ef7cbdbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:52 +0000
Subject: [PATCH 01/21] fix: compute the fixed window boundary with integers

float64 cannot represent nanosecond timestamps exactly, so requests close
to a window boundary could be counted in a neighbouring window.
---
 ratelimiter/fixedwindow.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/fixedwindow.go b/ratelimiter/fixedwindow.go
index c7abf31..419b8dd 100644
--- a/ratelimiter/fixedwindow.go
+++ b/ratelimiter/fixedwindow.go
@@ -19,7 +19,6 @@ package ratelimiter
 
 import (
 	gtime "github.com/chanjarster/gears/util/time"
-	"math"
 	"sync"
 	"time"
 )
@@ -99,6 +98,14 @@ func (s *SyncFixedWindow) reset(ts int64) {
 	if s.contains(ts) {
 		return
 	}
-	s.until += int64(math.Ceil(float64(ts-s.until)/float64(s.windowSize))) * s.windowSize
+	if s.windowSize > 0 {
+		// 用整数计算，float64 无法精确表示纳秒时间戳
+		elapsed := ts - s.until
+		n := elapsed / s.windowSize
+		if elapsed%s.windowSize != 0 {
+			n++
+		}
+		s.until += n * s.windowSize
+	}
 	s.count = 0
 }
-- 
2.43.0


From 29b7ccde8463a5f25a69513468243e6728e77cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 02/21] fix: atomic token bucket issues the tokens of an
 elapsed time only once

The tokens were added before the time of the last issue was claimed and
taken back when the claim failed. In between they could be acquired, so
concurrent requests could exceed the limit, and the roll back could leave
a negative number of tokens.
---
 ratelimiter/tokenbucket.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 7ded46a..5348c07 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -138,40 +138,35 @@ func (t *AtomicTokenBucket) Acquire() bool {
 func (t *AtomicTokenBucket) issueIfNecessary() {
 
 	for {
-		oldTokens := atomic.LoadInt64(&t.tokens)
-		if oldTokens >= int64(t.capacity) {
+		if atomic.LoadInt64(&t.tokens) >= int64(t.capacity) {
 			return
 		}
 
 		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
 		now := t.nowFn().UnixNano()
 
-		nowNano := now
-		elapse := nowNano - oldLit
+		elapse := now - oldLit
 		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
 
-		if delta == 0 {
+		if delta <= 0 {
 			return
 		}
 
-		if oldTokens+delta > int64(t.capacity) {
-			delta = int64(t.capacity) - oldTokens
-		}
-
-		s1 := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens+delta)
-		if !s1 {
+		// Claim the elapsed time first, so that it is issued only once.
+		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now) {
 			continue
 		}
 
-		s2 := atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano)
-		if !s2 {
-			if s1 {
-				atomic.AddInt64(&t.tokens, -delta)
+		for {
+			oldTokens := atomic.LoadInt64(&t.tokens)
+			newTokens := oldTokens + delta
+			if newTokens > int64(t.capacity) {
+				newTokens = int64(t.capacity)
+			}
+			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
+				return
 			}
-			continue
 		}
-
-		break
 	}
 
 }
-- 
2.43.0


From d73129c91908318a3871f663fb22c1c54b6b53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 03/21] fix: closing an event receiver twice, or after it was
 displaced

Closing a receiver that was closed already, by itself or by the bus,
dereferenced nil while holding the lock of the bus. Closing a receiver
whose name had been registered again closed the other receiver.
---
 event/bus.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index fe214a0..affe5b7 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -87,6 +87,7 @@ func (b *FanOutBus) Close() {
 	close(b.ch)
 	b.recvMapLock.Lock()
 	for name, recv := range b.recvMap {
+		recv.closed = true
 		close(recv.ch)
 		delete(b.recvMap, name)
 	}
@@ -103,11 +104,20 @@ func (b *FanOutBus) doDispatch() {
 	}
 }
 
-func (b *FanOutBus) deregisterRecv(name string) {
+func (b *FanOutBus) deregisterRecv(recv *Receiver) {
 	b.recvMapLock.Lock()
-	close(b.recvMap[name].ch)
-	delete(b.recvMap, name)
-	b.recvMapLock.Unlock()
+	defer b.recvMapLock.Unlock()
+
+	// already closed, by itself or by the event bus
+	if recv.closed {
+		return
+	}
+	recv.closed = true
+	close(recv.ch)
+	// another Receiver may have been registered with the same name
+	if b.recvMap[recv.name] == recv {
+		delete(b.recvMap, recv.name)
+	}
 }
 
 // Strategy for when Receiver.C is full
@@ -127,11 +137,12 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
+	closed   bool // guarded by bus.recvMapLock
 }
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
-	r.bus.deregisterRecv(r.name)
+	r.bus.deregisterRecv(r)
 }
 
 // Drain drains Receiver.C until it's empty
-- 
2.43.0


From 13dcbdc22ead196a07f5b423cba56b5a4b62d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 04/21] fix: stop collecting when the event receiver is closed

CollectTimeout appended nil in a busy loop until the timeout once the
channel was closed.
---
 event/bus.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index affe5b7..8ce8fda 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -163,14 +163,18 @@ drained:
 	return data
 }
 
-// CollectTimeout collects elements of Receiver.C until timeout
+// CollectTimeout collects elements of Receiver.C until timeout or Receiver.C is closed
 func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
 	timer := time.NewTimer(timeout)
+	defer timer.Stop()
 	data = make([]interface{}, 0, 10)
 drained:
 	for {
 		select {
-		case d := <-r.C:
+		case d, ok := <-r.C:
+			if !ok {
+				break drained
+			}
 			data = append(data, d)
 		case <-timer.C:
 			break drained
-- 
2.43.0


From d736949658d67b009bf01624491d530eaad292dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:54 +0000
Subject: [PATCH 05/21] fix: TTL rate limiter reports a ttl of at least 1 while
 blocking

Redis rounds TTL to the nearest second, so in the last half second of a
block the result had ttl 0, which Result documents as illegal.
---
 ratelimiter/ttl_ratelimiter_redis.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index c0e5f6d..8cbb3d1 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -67,6 +67,10 @@ end
 if redis.call('EXISTS', keyb) == 1
 then
   local ttl = redis.call('TTL', keyb)
+  if ttl < 1
+  then
+    ttl = 1
+  end
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
@@ -116,6 +120,10 @@ return {1, 1, exp, msg}
 if redis.call('EXISTS', keyb) == 1
 then
   local ttl = redis.call('TTL', keyb)
+  if ttl < 1
+  then
+    ttl = 1
+  end
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
-- 
2.43.0


From d4d5683b4308dbf4f679435e06b240840f01a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:54 +0000
Subject: [PATCH 06/21] fix: TTL rate limiter keeps its records for the whole
 window

The record of passed requests expired after twice the timeout, even when
the window is longer, so that more than capacity requests passed within a
window.
---
 ratelimiter/ttl_ratelimiter_redis.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 8cbb3d1..17a0995 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -75,11 +75,14 @@ then
   return {1, 0, ttl, omsg}
 end
 
+-- the records must outlive the window
+local keep = math.max(exp * 2, win + 1)
+
 local size = redis.call('LLEN', key)
 if size < cap
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, keep)
   return {0, 0, 0, ''}
 end
 
@@ -97,7 +100,7 @@ local list = redis.call('LRANGE', key, 0, 0)
 if table.getn(list) == 0
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, keep)
   return {0, 0, 0, ''}
 end
 
@@ -106,7 +109,7 @@ if now - oldest > win
 then
   redis.call('RPUSH', key, now)
   redis.call('LPOP', key)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, keep)
   return {0, 0, 0, ''}
 end
 
-- 
2.43.0


From 4e01a963d936cf73b95bcdfbc0b0182f4525e981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:54 +0000
Subject: [PATCH 07/21] fix: TTL rate limiter IsBlocked uses the hash tag on
 cluster limiters

ShouldBlock records a block under the tagged key, IsBlocked looked for the
untagged one and never found it.
---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 17a0995..b32b1c2 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -174,6 +174,10 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	if r.hashTag != "" {
+		blockKey = blockKey + r.hashTag
+	}
+
 	//local keyb = KEYS[1]
 	raw, err := r.redisClient.WithContext(ctx).EvalSha(
 		scriptSha2,
-- 
2.43.0


From da5e8b19138b99b87533d18a8c290172d709be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 08/21] fix: persist exactly the accepted entries of a batch
 update

An accepted entry was not persisted when another entry of the same key was
rejected, and ignored entries with an empty key were persisted.
---
 confstore/store.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 0ae24ce..9e3ff55 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -100,21 +100,15 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	// batch persist the accepted kvStrs
+	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
 		if error != nil {
 			errors = append(errors, error)
+			continue
 		}
-	}
-
-	// batch persist kvStrs
-	errorKeys := make(map[string]bool)
-	for _, kvError := range errors {
-		errorKeys[kvError.Key] = true
-	}
-	okKvStrs := make([]*KVStr, 0, len(kvStrs))
-	for _, kvStr := range kvStrs {
-		if errorKeys[kvStr.Key] {
+		if kvStr.Key == "" {
 			continue
 		}
 		okKvStrs = append(okKvStrs, kvStr)
-- 
2.43.0


From 7b10bb334a87dcbbe6cdd7685d51dc2b34e530a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 09/21] fix: Update persists accepted values instead of
 rejected ones

The condition was inverted: only refused updates reached the persister.
---
 confstore/store.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 9e3ff55..f10106e 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -119,14 +119,13 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
 	err := m.UpdateNoPersist(key, value)
-	if err != nil {
-		err2 := m.persister.Save(key, value)
-		if err2 != nil {
-			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
-			return nil
-		}
+	if err != nil || key == "" {
+		return err
 	}
-	return err
+	if err := m.persister.Save(key, value); err != nil {
+		simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
+	}
+	return nil
 }
 
 func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
-- 
2.43.0


From 90aa29e72d9f672b76578c1ed126d60519046b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 10/21] fix: an update cannot bring back a key that is
 deregistered meanwhile

The processor was looked up under its lock but the value was stored after
releasing it, so that a concurrent DeregisterKey left a value behind, which
a later registration of the key then served, unvalidated.
---
 confstore/store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/confstore/store.go b/confstore/store.go
index f10106e..9770a1f 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -133,9 +133,10 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		return nil
 	}
 
+	// held until the value is stored, so that the key cannot be deregistered in between
 	m.kvProcessorLock.RLock()
+	defer m.kvProcessorLock.RUnlock()
 	p, hit := m.kvProcessor[key]
-	m.kvProcessorLock.RUnlock()
 
 	if !hit {
 		return &KVError{
-- 
2.43.0


From 4a77931fbe8836c393015908d75f7f48bdf87313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:06 +0000
Subject: [PATCH 11/21] fix: CssColorHex accepts nothing but a color

The pattern was not anchored: any text that contains a color was accepted.
---
 confstore/procs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/procs.go b/confstore/procs.go
index e3effbe..3e44ad3 100644
--- a/confstore/procs.go
+++ b/confstore/procs.go
@@ -165,7 +165,7 @@ func (c *cssColorHex) Validate(value string) (ok bool, err string) {
 		return true, ""
 	}
 
-	match, error := regexp.MatchString("#[a-fA-F0-9]{6}", value)
+	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
 	if error != nil {
 		return false, error.Error()
 	}
-- 
2.43.0


From fec50154b26eab99d9399e999255dff31534cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 12/21] fix: reading a public key of another algorithm returns
 an error

ReadPublicKeyBytes asserted the type of the key and panicked on ECDSA or
Ed25519 keys, and so did the config store's RsaPublicKey processor.
---
 util/rsa/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/rsa/util.go b/util/rsa/util.go
index df1c2e1..da91261 100644
--- a/util/rsa/util.go
+++ b/util/rsa/util.go
@@ -77,7 +77,11 @@ func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	return pub.(*rsa.PublicKey), nil
+	rsaPub, ok := pub.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("not a RSA PUBLIC KEY")
+	}
+	return rsaPub, nil
 }
 
 func ReadX509Certificate(pem string) (*x509.Certificate, error) {
-- 
2.43.0


From ac768a788686a349e6d954e92bcb60203d1ad731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 13/21] fix: PostgreSQL DSN carries user, password, database
 and parameters unaltered

---
 confs/postgresql.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index b52cb87..c14eb58 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -88,16 +88,18 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 }
 
 func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
-	ret := fmt.Sprintf("postgres://%s:%s@%s:%d/%s?", conf.Username, conf.Password, conf.Host, conf.Port, conf.Database)
+	query := url.Values{}
 	for key, val := range options {
-		val = strings.TrimSpace(val)
-		for _, temp := range strings.Split(val, ",") {
-			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(temp))
-		}
+		query.Set(key, val)
+	}
+	dsn := url.URL{
+		Scheme:   "postgres",
+		User:     url.UserPassword(conf.Username, conf.Password),
+		Host:     fmt.Sprintf("%s:%d", conf.Host, conf.Port),
+		Path:     "/" + conf.Database,
+		RawQuery: query.Encode(),
 	}
-	ret = strings.TrimRight(ret, "&")
-	return ret
+	return dsn.String()
 }
 
 func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) map[string]string {
-- 
2.43.0


From 7207952341104f6a9ad08953503794a7be1b2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 14/21] fix: printed connection configurations show
 MaxOpenConns

---
 confs/mysql.go      | 2 +-
 confs/oracle.go     | 2 +-
 confs/postgresql.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index d754b5d..7fc9902 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -85,7 +85,7 @@ type MysqlConf struct {
 
 func (m *MysqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout: %v, WriteTimeout: %v, Timeout: %v, Loc: %v, ParseTime: %v, Params: %v}",
-		m.Host, m.Port, m.Database, m.MaxIdleConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
+		m.Host, m.Port, m.Database, m.MaxOpenConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
 		m.WriteTimeout, m.Timeout, m.Loc, m.ParseTime, m.Params)
 }
 
diff --git a/confs/oracle.go b/confs/oracle.go
index a8e100e..cf00ca6 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -60,7 +60,7 @@ type OracleConf struct {
 
 func (c *OracleConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Service: %s, Sid: %s, Servers: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
diff --git a/confs/postgresql.go b/confs/postgresql.go
index c14eb58..9b3885b 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -58,7 +58,7 @@ type PostgresqlConf struct {
 
 func (c *PostgresqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Database, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Database, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
-- 
2.43.0


From 421cd05b5174230f11fdc6f61309d5aad95d440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 15/21] fix: Elasticsearch connection limits reach the settings
 of the same name

---
 confs/es.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index bcc000d..fbeb39d 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -34,8 +34,9 @@ func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Cli
 	}
 
 	transport := http.DefaultTransport.(*http.Transport).Clone()
-	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost
-	transport.MaxIdleConns = conf.MaxIdleConnsPerHost
+	transport.MaxConnsPerHost = conf.MaxConnsPerHost
+	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost
+	transport.MaxIdleConns = 0 // limited per host
 	transport.ResponseHeaderTimeout = time.Second * 60
 
 	esConf.Transport = transport
-- 
2.43.0


From 1dd433b963be5b6236b7fa6623a27bc14e56549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 16/21] fix: fasthttp client trusts the custom certificates in
 CUSTOM mode

---
 confs/fasthttpclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/confs/fasthttpclient.go b/confs/fasthttpclient.go
index d9ff944..beff76a 100644
--- a/confs/fasthttpclient.go
+++ b/confs/fasthttpclient.go
@@ -97,6 +97,7 @@ func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCust
 			appendCertPool(certPool, cert)
 		}
 		tlsConfig.RootCAs = certPool
+		tlsConfigured = true
 	} else if hcConf.SslTrustMode == "INSECURE" {
 		tlsConfig.InsecureSkipVerify = true
 		tlsConfigured = true
-- 
2.43.0


From 2bce9ed70dd02b338a9cc993d19dc85f1c05dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:12 +0000
Subject: [PATCH 17/21] fix: pprof endpoint accepts passwords that contain a
 colon

---
 confs/pprof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 7d0cc68..5db715f 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -101,7 +101,7 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			return nil
 		}
 
-		user_pass := strings.Split(string(b), ":")
+		user_pass := strings.SplitN(string(b), ":", 2)
 		if len(user_pass) != 2 {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From 0bf1f07f35d51c6a4378459edcb661763dd49cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 18/21] fix: tracing middleware returns the error of the
 handler

---
 skywalking/fasthttp-routing/middleware.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index dbe5250..cc692d0 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -86,9 +86,9 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 			} else {
 				span.Error(time.Now())
 			}
-		} else if err = rCtx.Err(); err != nil {
+		} else if ctxErr := rCtx.Err(); ctxErr != nil {
 			if options.logError {
-				span.Error(time.Now(), err.Error())
+				span.Error(time.Now(), ctxErr.Error())
 			} else {
 				span.Error(time.Now())
 			}
@@ -101,7 +101,7 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 		}
 		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
 		span.End()
-		return nil
+		return err
 	}
 
 }
-- 
2.43.0


From 273b106cbea5cae5db2232deb1c2292590c450cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 19/21] fix: redis tracing hook lets the command run when there
 is no span

---
 skywalking/redis/hook.go | 42 +++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index d3367cf..42f3835 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -68,8 +68,34 @@ func noopInjector(headerKey, headerValue string) error {
 	return nil
 }
 
+// spanKey is the context key of the span created by a hook
+type spanKey struct {
+	h *tracerHook
+}
+
+// createSpan creates the span of a command. When there is no span to create (no tracer) or it cannot
+// be created (e.g. no peer address), the returned span is nil: the command goes on without a span.
+func (h *tracerHook) createSpan(ctx context.Context, opName string) (go2sky.Span, context.Context) {
+	if h.tracer != nil {
+		span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+		if err == nil {
+			return span, context.WithValue(nCtx, spanKey{h}, span)
+		}
+	}
+	return nil, context.WithValue(ctx, spanKey{h}, nil)
+}
+
+// createdSpan returns the span that createSpan has put into the context, or nil
+func (h *tracerHook) createdSpan(ctx context.Context) go2sky.Span {
+	span, _ := ctx.Value(spanKey{h}).(go2sky.Span)
+	return span
+}
+
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
-	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
+	span, nCtx := h.createSpan(ctx, cmd.Name())
+	if span == nil {
+		return nCtx, nil
+	}
 
 	if h.opts.reportArgs {
 		span.Tag(go2sky.TagDBStatement, cmd.String())
@@ -81,11 +107,11 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return nCtx, nil
 }
 
 func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	span := h.createdSpan(ctx)
 	if span == nil {
 		return nil
 	}
@@ -108,7 +134,10 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 		return obj.Name()
 	})
 
-	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	span, nCtx := h.createSpan(ctx, opName)
+	if span == nil {
+		return nCtx, nil
+	}
 
 	if h.opts.reportArgs {
 		stmt := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
@@ -122,8 +151,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
-
+	return nCtx, nil
 }
 
 type stringer func(obj rv7.Cmder) string
@@ -140,7 +168,7 @@ func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
 }
 
 func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	span := h.createdSpan(ctx)
 	if span == nil {
 		return nil
 	}
-- 
2.43.0


From 16146700ebe7a2f0ed8ca6cdbcb78d7f799911c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:40 +0000
Subject: [PATCH 20/21] fix: conf accepts fields of named types

---
 conf/reflect.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/conf/reflect.go b/conf/reflect.go
index 1272de6..dca8d2f 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -19,6 +19,7 @@ package conf
 
 import (
 	"reflect"
+	"time"
 )
 
 // Initialize p's field. If field is exported and is a pointer,
@@ -125,7 +126,7 @@ func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string
 
 	case reflect.Bool, reflect.Float64, reflect.Int,
 		reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64:
-		fn(path, f, v)
+		fn(path, f, basicValue(v))
 
 	case reflect.Struct:
 		for i := 0; i < v.NumField(); i++ {
@@ -149,3 +150,23 @@ func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string
 	}
 
 }
+
+var basicTypes = map[reflect.Kind]reflect.Type{
+	reflect.Bool:    reflect.TypeOf(false),
+	reflect.Float64: reflect.TypeOf(float64(0)),
+	reflect.Int:     reflect.TypeOf(0),
+	reflect.Int64:   reflect.TypeOf(int64(0)),
+	reflect.String:  reflect.TypeOf(""),
+	reflect.Uint:    reflect.TypeOf(uint(0)),
+	reflect.Uint64:  reflect.TypeOf(uint64(0)),
+}
+
+// The value seen as a value of its basic type, e.g. as an int when it is of type Level (type Level int).
+// time.Duration is a supported type of its own.
+func basicValue(v reflect.Value) reflect.Value {
+	t, ok := basicTypes[v.Kind()]
+	if !ok || v.Type() == t || v.Type() == reflect.TypeOf(time.Nanosecond) {
+		return v
+	}
+	return v.Addr().Convert(reflect.PtrTo(t)).Elem()
+}
-- 
2.43.0


From 6a184542234c597130ee122922730787abf0493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:02 +0000
Subject: [PATCH 21/21] fix: empty yaml section does not detach environment
 variables and flags

---
 conf/yaml.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/conf/yaml.go b/conf/yaml.go
index ad2c073..1549e80 100644
--- a/conf/yaml.go
+++ b/conf/yaml.go
@@ -20,6 +20,7 @@ package conf
 import (
 	"gopkg.in/yaml.v3"
 	"io/ioutil"
+	"reflect"
 )
 
 type yamlFileResolver struct {
@@ -32,10 +33,47 @@ func (y *yamlFileResolver) Resolve(p interface{}) error {
 		return err
 	}
 
+	// a section without content sets its pointer to nil, but environment variables and flags are
+	// bound to what it points to
+	restore := keepPtrs(reflect.ValueOf(p))
+
 	err = yaml.Unmarshal(bytes, p)
+	restore()
 	if err != nil {
 		return err
 	}
 	return nil
 
 }
+
+// Remember the exported pointer fields at any depth, the returned function gives those that are nil
+// meanwhile their pointers back.
+func keepPtrs(v reflect.Value) (restore func()) {
+	var fields, ptrs []reflect.Value
+	var visit func(v reflect.Value)
+	visit = func(v reflect.Value) {
+		if v.Kind() == reflect.Ptr {
+			if v.IsNil() {
+				return
+			}
+			if v.CanSet() {
+				fields = append(fields, v)
+				ptrs = append(ptrs, v.Elem().Addr())
+			}
+			v = v.Elem()
+		}
+		if v.Kind() == reflect.Struct && v.CanSet() {
+			for i := 0; i < v.NumField(); i++ {
+				visit(v.Field(i))
+			}
+		}
+	}
+	visit(v)
+	return func() {
+		for i, f := range fields {
+			if f.IsNil() {
+				f.Set(ptrs[i])
+			}
+		}
+	}
+}
-- 
2.43.0

