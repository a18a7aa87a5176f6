#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- rate limiting
prop("R01", "Fixed window admits at most capacity per window, and no less",
 "Time since the Unix epoch is cut into consecutive windows of the configured size, each open at its start and closed at its end. For every non-decreasing sequence of request instants, the fixed-window limiter admits at most its capacity of the requests that fall into one window, and it refuses a request only when capacity requests of the same window have been admitted already.",
 ["inputs","histories"], "every capacity, window size and sequence of request instants",
 "The tests use one window size (50ms) and real time; whether an instant just after a window boundary is put in the right window depends on 64-bit values (nanoseconds since 1970) no sample hits.",
 ["ratelimiter/fixedwindow.go"],
 [("window end is advanced by whole windows until it covers the request","SyncFixedWindow.reset"),("count against capacity","SyncFixedWindow.Acquire")],
 ["SyncFixedWindow.Acquire"])
prop("R02", "Sliding window never admits more than capacity in any window-long span",
 "For every non-decreasing sequence of request instants, a sliding-window limiter with positive capacity admits at most capacity requests in any span of time that is no longer than its window, and it refuses a request only when capacity requests were admitted within the window before it. A reconfiguration governs every later request: the most recently admitted requests, up to the new capacity, still count, and the reported capacity and window are the configured ones. A capacity of zero or less means no limit.",
 ["inputs","histories"], "every capacity, window size, sequence of request instants and interleaved reconfigurations",
 "The tests take 10 requests in 50ms in real time and reconfigure once; boundary instants and other orders of requests and reconfigurations are never taken.",
 ["ratelimiter/slidingwindow.go"],
 [("ring of the last capacity admission instants","SyncSlidingWindow.Acquire"),("shrinking drops the oldest records","SyncSlidingWindow.UpdateConfig")],
 ["SyncSlidingWindow.Acquire","SyncSlidingWindow.UpdateConfig"])
prop("R03", "Token bucket issues at the configured rate and never above capacity",
 "For every sequence of requests, both token buckets admit, since their creation, at most capacity plus rate times the whole seconds elapsed; within any interval shorter than one second they admit at most capacity plus rate, however long they were idle before. With positive capacity and rate, a request made at least one second after the previous one is always admitted, however often requests come a request is refused only if in less than the second before it as many were admitted as a second issues (rate, or capacity if that is less), and the first capacity requests are always admitted.",
 ["inputs","histories"], "every capacity, rate and sequence of request instants, for the lock-based and the atomic bucket",
 "The tests use one capacity and rate and real time, and look only at the first refill.",
 ["ratelimiter/tokenbucket.go"],
 [("tokens are issued for whole elapsed seconds and capped","SyncTokenBucket.issueIfNecessary"),("same, with compare-and-swap","AtomicTokenBucket.issueIfNecessary")],
 ["TokenBucket.Acquire"])
prop("R04", "In-process limiters keep their limit under concurrent requests",
 "When several goroutines request permission from the same limiter (fixed window, sliding window, lock-based or atomic token bucket) in any interleaving, the requests admitted in total never exceed what the limit allows for the instants at which they were made. A request made while a sliding window is reconfigured is decided by the settings before or by those after, never by a mixture. Concurrent use involves no data race, no panic and no deadlock, and capacity that is free is not refused once all other requests are finished (nor earlier, as long as no refill is due).",
 ["schedules","inputs"], "every interleaving of concurrent requests at synchronisation points, with arbitrary non-decreasing clock readings",
 "The concurrency of the limiters is only exercised by benchmarks, which assert nothing; the failing interleavings are a few instructions wide.",
 ["ratelimiter/fixedwindow.go","ratelimiter/slidingwindow.go","ratelimiter/tokenbucket.go"],
 [("mutex around the decision","SyncFixedWindow.Acquire, SyncSlidingWindow.Acquire, SyncTokenBucket.Acquire"),("compare-and-swap on the refill time and on the token count","AtomicTokenBucket.issueIfNecessary, AtomicTokenBucket.Acquire")],
 ["Acquire of each limiter"])
prop("R05", "TTL limiter: at most capacity passes per window, then blocks for the timeout",
 "For each key, of the requests that the Redis TTL limiter lets pass, at most capacity fall within any span of window-size seconds; the request that would exceed that is blocked and marked as triggering (instants are taken in whole seconds, so a request up to one second past the window may still count as inside it), every further request of a key with that block key is blocked, not marked and told the message of the triggering request until timeout seconds have passed, and from a few milliseconds after that requests can pass again. A request is blocked for no other reason, and other keys with other block keys are unaffected.",
 ["inputs","histories"], "every capacity, window, timeout, set of keys and sequence of request instants",
 "All tests of this limiter skip themselves without a Redis server; the rules live in a Lua script that no test runs here.",
 ["ratelimiter/ttl_ratelimiter_redis.go","ratelimiter/ttl_ratelimiter.go"],
 [("the Lua script","script1"),("arguments passed to the script","redisTtlRateLimiter.ShouldBlock2Context")],
 ["TtlRateLimiter.ShouldBlock2","TtlRateLimiter.ShouldBlock"])
prop("R06", "TTL limiter results are always one of the documented ones and agree",
 "Every result of the Redis TTL limiter is one of: passed (not blocked, not triggered, ttl 0, empty message), or blocked with a ttl between 1 and the timeout and the recorded message, triggered or not. Asking whether a block key is blocked gives blocked exactly when a request with that block key would be blocked without triggering at that moment, on single-node and cluster (hash tag) limiters alike, and it changes nothing. All keys that a cluster limiter names carry its hash tag, so that Redis Cluster keeps them in one slot. When Redis fails or a parameter is not positive the result is passed, and LoadScript panics if the scripts cannot be loaded.",
 ["inputs","histories","fault_sequences"], "every parameter set, key, message, instant (including the last half second of a block) and Redis error",
 "All tests of this limiter skip themselves without a Redis server, none uses the cluster variant and none makes Redis fail.",
 ["ratelimiter/ttl_ratelimiter_redis.go","ratelimiter/ttl_ratelimiter.go"],
 [("the Lua scripts","script1, script2"),("key construction","ShouldBlock2Context, IsBlockedContext"),("error handling","ShouldBlock2Context, IsBlockedContext")],
 ["TtlRateLimiter.ShouldBlock2","TtlRateLimiter.IsBlocked"])
# ---------------------------------------------------------------- circuit breaker
prop("B01", "Circuit breaker opens at the failure threshold and probes after the timeout",
 "For every history of calls, the breaker runs the task unless at least threshold calls in a row have failed and no more than the reset timeout has passed since the last failure; in that case, and only then, it runs the open handler instead of the task. Every call runs either the task exactly once or the open handler exactly once, and the error handler runs exactly once, with the task's error, if and only if the task failed. A success closes the breaker again; the never-open breaker always runs the task. A panic of the task or of a handler reaches the caller and does not keep later calls from running.",
 ["inputs","histories"], "every threshold, timeout, sequence of outcomes and of call instants",
 "The tests use histories of at most two calls with threshold 1 and a fixed clock.",
 ["circuitbreaker/circuitbreaker.go"],
 [("state from failure count and time of last failure","SyncCircuitBreaker.state"),("transitions","SyncCircuitBreaker.Do, recordFailure, reset")],
 ["SyncCircuitBreaker.Do"])
prop("B02", "Circuit breaker loses no failure under concurrent calls",
 "When goroutines share a breaker in any interleaving, each call still runs exactly one of task and open handler, and the error handler exactly when its task failed. If threshold calls fail and none succeeds, a call made after all of them have returned and within the reset timeout is rejected; if fewer than threshold failed, no call is ever rejected. Concurrent use involves no data race, panic or deadlock, even if tasks and handlers call the breaker themselves.",
 ["schedules","inputs"], "every interleaving of concurrent calls, with arbitrary outcomes and clock readings",
 "No test calls a breaker from two goroutines; benchmarks assert nothing.",
 ["circuitbreaker/circuitbreaker.go"],
 [("lock around counter and timestamp, never held while user code runs","SyncCircuitBreaker.recordFailure, state, reset")],
 ["SyncCircuitBreaker.Do"])
# ---------------------------------------------------------------- semaphore
prop("S01", "Semaphores never have more holders than permits",
 "For both semaphore implementations and every interleaving of acquires, try-acquires and releases, the number of successful acquires not yet released never exceeds the permits. Releases beyond the acquired permits do not add permits, and involve no panic and no data race.",
 ["schedules","histories"], "every number of permits, every interleaving and history of operations within the bound",
 "Tests run a handful of timed schedules; an over-admission needs a wakeup and a try-acquire to collide.",
 ["concurrent/sema.go"],
 [("buffered channel as permit store","ChanSemaphore"),("counter guarded by a lock and re-checked after waiting","LockSemaphore.Acquire")],
 ["Semaphore.Acquire","Semaphore.TryAcquire","Semaphore.Release"])
prop("S02", "A free permit is always obtainable: no lost wakeup, no blocking try",
 "If permits are free, acquiring does not block, and every goroutine blocked in an acquire proceeds once enough permits have been released, in every interleaving. A try-acquire and a release never block. A try-acquire succeeds when a permit is free and no other operation is in progress; it fails when none is free.",
 ["schedules","histories"], "every interleaving of waiters and releasers within the bound",
 "Lost wakeups need several waiters and releasers in a particular order; the tests have one schedule each.",
 ["concurrent/sema.go"],
 [("broadcast on release","LockSemaphore.Release"),("channel receive frees a slot","ChanSemaphore.Release")],
 ["Semaphore.Acquire","Semaphore.TryAcquire","Semaphore.Release"])
# ---------------------------------------------------------------- event bus
prop("E01", "Event bus delivers to every receiver, in order, without duplicates",
 "Every event sent to the bus while a receiver is registered reaches a blocking receiver exactly once and in the order sent. A dropping receiver gets a subsequence of the events in the order sent without duplicates, and misses an event only if its buffer was full (or, unbuffered, it was not waiting) when the event was dispatched; one receiver being full never costs another receiver an event.",
 ["schedules","inputs"], "every interleaving of sending, dispatching and receiving; buffer sizes of bus and receivers; strategy mixes",
 "Tests send at most two events on a few schedules.",
 ["event/bus.go"],
 [("dispatch loop over all receivers","FanOutBus.doDispatch"),("strategy per receiver","Receiver.onEvent")],
 ["FanOutBus.C","Receiver.C"])
prop("E02", "Closing bus or receivers is safe at any moment",
 "Registering receivers, closing receivers and closing the bus while events are being dispatched to dropping receivers never panics, deadlocks or races, in any interleaving. After a receiver's close returns, its channel is closed, it is no longer registered, and other receivers, including one registered under the same name later, are unaffected; closing an already closed receiver, or closing it after the bus, has no effect. After the bus's close returns, the channels of all registered receivers are closed.",
 ["schedules","histories"], "every interleaving of register, close and dispatch operations within the bound",
 "Tests close once, in one order; double close, close after bus close and same-name registration are never tried.",
 ["event/bus.go"],
 [("write lock while closing, read lock while dispatching","FanOutBus.Close, deregisterRecv, doDispatch")],
 ["Receiver.Close","FanOutBus.Close"])
prop("E03", "Draining and collecting return exactly what was received",
 "Draining a receiver returns, in order, the events that are in its buffer and leaves the buffer empty, without blocking, also after the receiver was closed. Collecting with a timeout returns, in order, exactly the events received until the timeout elapses or the receiver is closed, and nothing that was never sent.",
 ["inputs","schedules"], "every buffer content, close moment and timing of events relative to the timeout",
 "One timed schedule each; collecting from a receiver that is closed meanwhile is never tried.",
 ["event/bus.go"],
 [("non-blocking receive loop","Receiver.Drain"),("receive or timer","Receiver.CollectTimeout")],
 ["Receiver.Drain","Receiver.CollectTimeout"])
# ---------------------------------------------------------------- schedule
prop("T01", "Task lifecycle: started once, stopped once, in that order",
 "In every sequence and interleaving of start and stop calls on a task, exactly the first start succeeds, a stop succeeds exactly once, provided the task has been started, and every other call reports an error and changes nothing; the panicking variants panic exactly when the plain ones report an error. A task is refused at construction exactly when its name is blank, its interval or timeout is not positive or its job is missing.",
 ["histories","schedules","inputs"], "every sequence of lifecycle calls within the bound, from one or more goroutines, for both task kinds; every constructor argument",
 "Tests try fixed short sequences from one goroutine.",
 ["schedule/task.go","schedule/fixed_delay_task.go","schedule/fixed_rate_task.go"],
 [("status transitions under the task's lock","taskCommon.markStart, markStopSendSignal")],
 ["Task.Start","Task.Stop","Task.MustStart","Task.MustStop","NewFixedDelayTask","NewFixedRateTask"])
prop("T02", "Fixed-delay runs never overlap and are an interval apart",
 "Runs of a fixed-delay task never overlap, and each run starts no earlier than one interval after the previous run finished, whatever the runs' durations and results and however the goroutines are scheduled. The first run is triggered by start without waiting for the interval, and as long as the task is not stopped another run follows every finished one.",
 ["schedules","inputs"], "every interleaving, run duration, interval and timer delay within the bound on runs",
 "Tests observe a few runs in real time with millisecond margins.",
 ["schedule/fixed_delay_task.go","schedule/task.go"],
 [("one consumer runs the jobs","FixedDelayTask.startConsuming"),("next run is queued interval after completion","FixedDelayTask.appendJobQueueFuture")],
 ["the job function"])
prop("T03", "Fixed-rate runs start once at start and once per tick",
 "A fixed-rate task starts one run at start and at most one more per elapsed interval, so by any time t after start it has started at most 1 + t/interval runs; while it is not stopped every tick that is not superseded leads to a run even if earlier runs are still in progress.",
 ["schedules","inputs"], "every interleaving, run duration and interval within the bound on ticks",
 "Tests observe a few runs in real time with millisecond margins (and fail now and then under load).",
 ["schedule/fixed_rate_task.go","schedule/task.go"],
 [("ticker feeds an unbuffered queue","FixedRateTask.startProviding"),("each queue entry runs on its own goroutine","FixedRateTask.startConsuming")],
 ["the job function"])
prop("T04", "Stop and timeout cancel the running job and stop new ones",
 "Once a task is stopped, the cancel channel of every run in progress is closed, no further run is triggered (a run whose turn had already come may still begin, and then finds its cancel channel closed), and all of the task's goroutines end once its jobs have returned. A run that lasts longer than the timeout has its cancel channel closed then, and no run's cancel channel is closed before the timeout unless the task is stopped or the run has returned.",
 ["schedules","inputs"], "every interleaving of stop, timers, queueing and running jobs within the bound",
 "Tests stop at fixed moments in real time; a stop that lands between dequeueing and running is a matter of a few instructions.",
 ["schedule/task.go","schedule/fixed_delay_task.go","schedule/fixed_rate_task.go"],
 [("stop signal channel","taskCommon.markStopSendSignal, appendJobQueue"),("context with timeout passed to the job","taskCommon.runJob")],
 ["the job function's cancel channel","Task.Stop"])
prop("T05", "Task manager runs each name once and stops what it unregisters",
 "At any time a task manager holds at most one task per name: registering a second task with a held name reports an error and starts nothing; registering a new name starts the task exactly once. Unregistering a name, or all names, stops each held task exactly once and frees its name (a task of the same name is not started before the old one was stopped), unknown names are ignored, and concurrent calls neither race nor deadlock.",
 ["histories","schedules"], "every history of register and unregister calls within the bound, from one or more goroutines",
 "Tests use three fixed sequences.",
 ["schedule/task_manager.go"],
 [("map of tasks by name under a lock","taskManager")],
 ["TaskManager.Register","TaskManager.Unregister","TaskManager.UnregisterAll"])
# ---------------------------------------------------------------- confstore
prop("K01", "Config store reads return the last accepted value, else the default",
 "For every history of register, update, batch update, reset and deregister calls, reading a key returns the string of the last accepted update since it was registered or reset, or its default if there is none, and the typed value that the key's processor converts that string to; keys that are not registered read as missing and the panicking getters panic exactly for those. An update is accepted exactly if the key is registered and its processor validates the value, a rejected update is reported with key, value and reason and changes nothing, and registration is refused exactly for an empty or taken key, a missing processor or an invalid default.",
 ["histories","inputs"], "every history of store operations within the bound over keys, values and processors",
 "Tests run two or three operations in fixed order.",
 ["confstore/store.go"],
 [("current values shadow defaults","defaultImpl.GetValue, GetValueString"),("validation before storing","defaultImpl.UpdateNoPersist, RegisterKey")],
 ["the Interface methods"])
prop("K02", "Exactly the accepted updates are persisted",
 "Every update accepted through Update or BatchUpdate is handed to the persister with its key and value (the last of several accepted updates of one key wins), and no rejected or unregistered update or update of the empty key (which is ignored) ever is; updates made without persistence are not. Resetting or deregistering a key deletes it from the persister. Both hold for every sequential history. A store restarted with the same registrations that loads from the persister therefore reads the same values.",
 ["histories","inputs"], "every history of store operations within the bound, including several updates of one key in a batch",
 "Every store test uses the persister that discards everything.",
 ["confstore/store.go"],
 [("persist after accepting","defaultImpl.Update, BatchUpdate"),("delete on reset","defaultImpl.ResetKey, DeregisterKey")],
 ["Persister.Save","Persister.BatchSave","Persister.Delete"])
prop("K03", "Config store is safe under concurrent use",
 "Concurrent registrations, updates, resets, deregistrations and reads neither race, panic nor deadlock. In every interleaving a read returns a value whose type and content the key's processor accepted and which the key held at some moment of the call, a key that has been deregistered reads as missing once all calls have returned, and a key registered again starts from its new default (unless a persisted value is loaded).",
 ["schedules","histories"], "every interleaving of store operations from concurrent goroutines within the bound",
 "No test uses a store from two goroutines.",
 ["confstore/store.go"],
 [("locks around the processor map and the value maps","defaultImpl.kvProcessorLock, kvLock")],
 ["the Interface methods"])
prop("K04", "Load policies load no more often than allowed, and often enough",
 "With a minimum interval, no load begins less than the interval after the end of the last successful load, and a read made at least the interval after it (or when there is none, or after a failed load) loads; with a non-positive interval, or the simple policy, every read loads, and the no-op policy never loads. Load errors are returned to the caller of the policy, and concurrent reads never load at the same time under an interval policy.",
 ["inputs","schedules","fault_sequences"], "every interval, sequence of read instants, load duration and load error; every interleaving of concurrent reads",
 "One test with 10ms interval and real sleeps; no failing load, no concurrency.",
 ["confstore/loader.go"],
 [("time of last load under a lock","defaultLoadPolicy.DoLoad")],
 ["LoadPolicy.DoLoad","Persister.Load"])
prop("K05", "Value processors accept exactly their language and convert faithfully",
 "For every string, the bool processor accepts exactly true and false; the integer processor exactly the decimal integers within its bounds, inclusive or exclusive as configured; the string processor exactly the lengths within its bounds; the enum processor exactly its members; the css color processor exactly the empty string and # followed by six hex digits. The duration and url processors accept exactly what Go's duration and request-URI parsers accept (and, for urls, the empty string). Converting an accepted value gives the value it denotes, validating or converting never panics, and a rejected value comes with a non-empty reason.",
 ["inputs"], "every string within the length bound, and every processor configuration",
 "Tests list a few strings per processor.",
 ["confstore/procs.go"],
 [("the ValueProcessor implementations","confstore/procs.go")],
 ["ValueProcessor.Validate","ValueProcessor.Convert"])
prop("K06", "RSA key reading rejects everything that is not the expected key",
 "Reading a private key, public key or certificate returns either an error or a non-nil value of the expected kind, and never panics, whatever the PEM text contains: no PEM block, a block of another type, undecodable content, or a key of another algorithm. A bare base64 body is treated as the body of a block of the expected type; the Must variants panic exactly when the plain ones fail, and the key processors accept exactly what the readers accept, plus the empty string which converts to no key. The public key extracted from a private key as PEM text reads back as an RSA public key.",
 ["inputs"], "every text, as far as the outcome of PEM decoding and of the DER parsers can vary",
 "Tests use one good key and one bad string; no key of another algorithm.",
 ["util/rsa/util.go","confstore/procs.go"],
 [("block type check and type assertion","rsautil.ReadPublicKeyBytes, ReadPrivateKeyBytes, ReadX509CertificateBytes"),("wrapping","normalizePem")],
 ["rsautil.Read*","confstore.RsaPublicKey","confstore.RsaPrivateKeyPkcs1"])
prop("K07", "Redis persister stores and loads back the same pairs",
 "Whatever was saved through the Redis persister and not deleted since is loaded back into the store, each key with the last value saved for it, nothing else is, and other hashes in Redis are untouched. Saving nothing sends nothing, Redis errors are returned to the caller, a failed load changes nothing, and pairs the store rejects on load are skipped without stopping the load.",
 ["inputs","histories","fault_sequences"], "every history of save, batch save, delete and load within the bound; every Redis error",
 "All tests of this persister skip themselves without a Redis server.",
 ["confstore/persister.go"],
 [("one hash per root key","redisPersister")],
 ["Persister methods"])
# ---------------------------------------------------------------- conf
prop("C01", "Flag and environment names follow the documented convention",
 "For every exported field path, the flag name is the path in lower case with a dash between path elements and before each upper-case letter that does not begin an element, and the environment name is the same in upper case with underscores for those dashes. Only ASCII letters and separators change. Embedded structs contribute no element.",
 ["inputs"], "every path within the length bound",
 "Tests list a few paths.",
 ["conf/string.go"],
 [("byte-wise translation","flagStyle, envStyle")],
 ["flag and environment names registered by Load"])
prop("C02", "Flags override environment, which overrides yaml, which overrides defaults",
 "After loading, every exported field of a supported type has the value given by its flag if there is one, else by its environment variable, else by the yaml file, else the value it had before; so for every combination of sources per field, with any values, and independently for each field. A yaml section or field without content sets nothing. A malformed value in any source, or a yaml file that cannot be read, ends the process with an error and is not ignored.",
 ["inputs","configurations"], "every combination of present sources for every field, and every value, within the bound",
 "Tests cover single sources with fixed values; only the package documentation states the precedence.",
 ["conf/conf.go","conf/env.go","conf/flag.go","conf/yaml.go"],
 [("order of the resolvers","conf.Load"),("values bound to fields","envResolver.init, flagResolver.init")],
 ["conf.Load"])
prop("C03", "Loading covers nested, pointer and embedded fields and nothing else",
 "Loading initialises every exported nil pointer field, at any depth, and offers every exported field of a supported type, directly, behind a pointer, in a nested or an embedded struct (of an exported type), under its path, while existing pointers and values are kept and unexported and unsupported fields are left alone; types derived from a supported one are supported. It never panics on a struct built from these kinds of fields, provided that the resulting names differ.",
 ["configurations","inputs"], "struct shapes from a fixed catalogue that combines all field kinds, with arbitrary initial field values",
 "Tests use two struct shapes.",
 ["conf/reflect.go"],
 [("recursive walk","initStruct, visitExportedFields")],
 ["conf.Load"])
# ---------------------------------------------------------------- confs
prop("F01", "Printed configuration never reveals credentials and reports settings right",
 "The printed form of each connection configuration (MySQL, Oracle, PostgreSQL, Redis, Elasticsearch, pprof, HTTP client) does not depend on its user name and password, and each setting it does name is shown with that setting's own value.",
 ["inputs"], "every value of every field, within the bound on string lengths",
 "No test prints a configuration.",
 ["confs/mysql.go","confs/oracle.go","confs/postgresql.go","confs/redis.go","confs/es.go","confs/pprof.go","confs/fasthttpclient.go"],
 [("String methods","confs/*.go")],
 ["String()"])
prop("F02", "Connection parameters reach the driver decoded and unaltered",
 "For MySQL, Oracle and PostgreSQL configurations, every well-formed name=value pair of the parameter string reaches the driver under its name with its url-decoded value, malformed pairs are skipped, nothing panics, and the dedicated settings (address, user, password, database, timeouts, sid, servers) reach it exactly as configured, whatever characters they contain (except what the driver's connection string cannot express: for MySQL and Oracle a user name with ':', for MySQL a database with '/' or '?', and Oracle's server list is separated by commas). The MySQL customizer sees and can change the driver settings.",
 ["inputs"], "every parameter string and setting value within the bound on string lengths",
 "One MySQL test with one parameter string; the Oracle and PostgreSQL tests are disabled.",
 ["confs/mysql.go","confs/oracle.go","confs/postgresql.go"],
 [("parameter parsing","prepareMySqlNativeConfig, prepareUrlOptions, preparePgUrlOptions"),("DSN building","buildPgDsn")],
 ["configuration handed to the driver"])
prop("F03", "HTTP, Redis and pool clients are built exactly as configured",
 "The fasthttp client, the Redis client, the database pools and the Elasticsearch transport get each configured size and timeout in the setting of the same meaning, and the customizer is applied last. Server certificates are verified against the configured CAs in custom mode, against the host's in OS mode and not at all only in insecure mode, and the configured client certificate is presented in every mode; a certificate file that cannot be read is refused.",
 ["configurations","inputs"], "every combination of trust mode, certificates and sizes",
 "One test with OS mode and no certificates.",
 ["confs/fasthttpclient.go","confs/redis.go","confs/es.go"],
 [("TLS settings","NewFastHttpClient"),("option mapping","prepareRedisNativeConfig, NewEsClient")],
 ["the client passed to the customizer and returned"])
prop("F05", "A client whose server does not answer is not handed out",
 "The constructors of the MySQL, PostgreSQL and Oracle pools (with and without tracer), of the Redis client and of the Elasticsearch client try the server once before they return. If it cannot be reached, or Elasticsearch answers with an error status, the process ends with an error or panics; the caller never gets a client that has not been answered. If the server answers, the caller gets the client.",
 ["fault schedules","configurations"], "every way a server can fail to answer the first request, and every status",
 "No test connects to a server that fails.",
 ["confs/mysql.go","confs/oracle.go","confs/postgresql.go","confs/redis.go","confs/es.go"],
 [("startup ping","NewMySqlDb, NewOracleDb, NewPostgresqlDb and their WithTracer forms"),("startup ping","NewRedisClient, NewEsClient")],
 ["whether the constructor returns"])
prop("F04", "Profiling endpoint opens only to the configured credentials",
 "The fasthttp profiling handler serves the profile exactly when user name and password are both configured and the request carries basic credentials equal to them, and otherwise serves no profile data; wrong or missing credentials get status 401 with a challenge. This holds for every header value, including malformed ones, without panicking, and for passwords that contain a colon (user names without one; whether base64 credentials without the Basic scheme are accepted is left open). The gin filter lets the rest of the chain run exactly for the configured credentials. Neither depends on the requests before or on another endpoint. An open endpoint has the process profile blocking and contention at the configured rates.",
 ["inputs"], "every authorization header within the length bound and every configured pair",
 "No test covers the handlers.",
 ["confs/pprof.go"],
 [("basic auth check","NewFasthttpRoutingPprofHandler")],
 ["the handler's response"])
# ---------------------------------------------------------------- tracing
prop("W01", "Tracing is transparent to the traced request or command",
 "With or without a tracer, the HTTP middleware calls the rest of the chain exactly once and, whenever that returns, returns its error unchanged, and the Redis hook neither panics nor fails a command that Redis executed, whatever the options (peer address given or not) and the outcome. Each span the middleware, the Redis hook or the client helper creates is ended exactly once, no span they did not create is ended, and it is marked as error exactly if the traced operation failed (an error with a message, or a status of 400 or more). Spans made in the context that the middleware gives the request belong to one trace with it, the incoming one if the request carries one.",
 ["inputs","configurations","fault_sequences"], "every handler outcome, response status, option set, span-creation failure, nested spans, and pipeline",
 "The tracing packages have no tests.",
 ["skywalking/fasthttp-routing/middleware.go","skywalking/redis/hook.go","skywalking/fasthttp/client_span.go"],
 [("error pass-through","NewMiddleware"),("span handling","tracerHook, ClientSpanHelper")],
 ["the middleware's result","redis command results","spans sent to the reporter"])
# ---------------------------------------------------------------- rest
prop("D01", "JSON map helpers round-trip",
 "Marshalling a string-keyed map of JSON values (text in valid UTF-8) and unmarshalling the result gives an equal map, nil included, and unmarshalling text that is neither a JSON object nor null reports an error and returns no map.",
 ["inputs"], "every JSON object", "The package has no tests.",
 ["dto/m.go"], [("encoding/json","dto.MarshalM, dto.UnmarshalM")])
prop("D02", "A public key extracted as PEM reads back as the same key",
 "For every RSA private key, the PEM text extracted for its public key is read back by the public key reader as the same modulus and exponent, and so is the base64 text in it without the PEM armour.",
 ["inputs"], "every RSA key", "Tests use one key.",
 ["util/rsa/util.go"], [("PKIX encoding","ExtractPublicKeyPem, ReadPublicKey")])
prop("W02", "A tracer reports under its configured identity, or nothing without server",
 "A tracer made from a configuration presents itself to its reporter exactly once, with the service namespace::name and the configured instance. Without a configuration or a server address the reporter is one that accepts and discards everything, and a tracer on it works; with a server address the reporter is one for that server, whatever the other settings, and one that cannot be made is reported as an error. The printed form of the configuration shows each setting under its name.",
 ["inputs"], "every configuration", "The package has no tests.",
 ["skywalking/factory.go","skywalking/conf.go"], [("identity","NewTracer"),("no server","NewGrpcOrNoopReporter")])
prop("W03", "Spans tell the operation, and contents only if asked for",
 "The span of an HTTP request or call is named METHOD:path and carries the method, the full address and (unless the call failed) the status code; the span of a Redis command or pipeline is named after its commands, joined by |, and carries the peer, the database type and, if given, the number of the database. Command arguments, the texts of errors and the bodies of responses of status 400 or more are reported if the option for them was given and not otherwise, and request bodies and other response bodies never. Each span states its layer and SkyWalking component (5004 server, 5005 client, 7 Redis).",
 ["inputs","configurations"], "every option set, status, outcome, argument, error text and body within the bounds", "The tracing packages have no tests.",
 ["skywalking/fasthttp-routing/middleware.go","skywalking/redis/hook.go","skywalking/fasthttp/client_span.go"],
 [("names and tags","NewMiddleware, ClientSpanHelper.CreateSpan, tracerHook.BeforeProcess, BeforeProcessPipeline"),("options that reveal contents","WithLogError, WithLog4xxBody, WithArgsReport")],
 ["spans sent to the reporter"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P))
