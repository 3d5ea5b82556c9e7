#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per line, deterministic)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("P01", "Circuit breaker opens, stays open, probes and closes as specified",
 "A breaker runs tasks while fewer than failureThreshold failures have been recorded since the last success, and once the threshold is reached it runs no task and calls onOpen exactly once per Do until more than resetTimeout has passed since the latest failure, after which tasks run again; a success closes it, a failure re-opens it for another full resetTimeout. Every Do makes exactly one choice: task run once and onError called exactly once with the task's own error iff it failed, or onOpen called once and task not run. With any number of goroutines calling Do, no recorded failure is lost, nothing panics or deadlocks even if callbacks re-enter the breaker, and NeverOpen always runs the task.",
 ["schedules","histories","inputs"],
 "all thresholds and reset timeouts, all sequences of successes, failures and delays, any number of concurrent Do calls including re-entrant ones, any overlap of slow tasks",
 "Tests step one goroutine through a few hand-picked state changes with fixed clocks; they do not explore long histories, boundary instants or concurrent failure counting.",
 ["circuitbreaker/circuitbreaker.go"],
 [("Do switches on the state computed under a read lock","circuitbreaker/circuitbreaker.go Do/state"),("failure recording and reset under the write lock","circuitbreaker/circuitbreaker.go recordFailure/reset")],
 ["calls of task/onError/onOpen seen by the caller of Do"],
 [("failures, lastFailureTs","consecutive failures and the time of the latest","circuitbreaker/circuitbreaker.go")])

prop("P02", "Semaphores never exceed their permits and never strand a waiter",
 "For both semaphores, at any moment the number of acquired-and-not-released permits is at most the configured number, a Release with nothing acquired changes nothing (so over-releasing never creates permits), and TryAcquire never blocks and returns true exactly when a permit is free. Acquire returns as soon as a permit is free: whenever permits are free no Acquire stays blocked, and with none free it blocks. With zero permits nothing is ever granted.",
 ["schedules","histories","inputs"],
 "all permit counts including zero, all interleavings of any number of goroutines calling Acquire, TryAcquire, Release and over-releasing",
 "Tests use a single goroutine or a couple with sleeps; lost wake-ups, over-admission and over-release effects need many waiters and specific interleavings.",
 ["concurrent/sema.go"],
 [("buffered channel as permit set","concurrent/sema.go ChanSemaphore"),("mutex, counter and condition variable","concurrent/sema.go LockSemaphore")],
 ["return/blocking of Acquire, TryAcquire, Release"],
 [("count","permits currently taken","concurrent/sema.go")])

prop("P03", "Fixed window grants at most capacity per window and exactly capacity on demand",
 "Time is divided into consecutive intervals of windowSize, aligned to the Unix epoch and closed at their right end, and in each interval exactly min(requests, capacity) Acquire calls succeed: never more than capacity, and no call is rejected while fewer than capacity have succeeded in its interval. This holds for every sequence of call times, including arbitrarily long idle gaps, call times just on either side of a boundary, and concurrent callers.",
 ["schedules","inputs","histories"],
 "all capacities and window sizes (nanoseconds to hours), all non-decreasing call-time sequences, any number of concurrent callers",
 "Tests call Acquire at a few fixed instants on small timestamps; boundary instants on real (large) timestamps, long gaps and concurrent bursts are not sampled.",
 ["ratelimiter/fixedwindow.go"],
 [("window end advanced in whole windows; counter reset","ratelimiter/fixedwindow.go reset/Acquire under the lock")],
 ["Acquire results with their call instants"],
 [("until, count","end of current window and grants in it","ratelimiter/fixedwindow.go")])

prop("P04", "Sliding window never exceeds capacity in any windowSize span",
 "For every instant t at most capacity granted Acquire calls fall within [t-windowSize, t], and a call is rejected only if capacity grants already lie within windowSize before it; capacity 0 (or negative) means unlimited. UpdateConfig takes effect for every later call: right after it, calls are decided by the new capacity and window over the most recent grants the old configuration remembered, and concurrent Acquire and UpdateConfig calls never race, panic or corrupt the limit; Capacity and WindowSize report the latest configuration.",
 ["schedules","inputs","histories","configurations"],
 "all capacities, window sizes, non-decreasing call-time sequences, reconfigurations at any point, any number of concurrent callers",
 "Tests use a few instants and at most one reconfiguration; the sliding guarantee quantifies over every window position, long histories, and reconfigurations racing with callers.",
 ["ratelimiter/slidingwindow.go"],
 [("list of grant timestamps bounded by capacity","ratelimiter/slidingwindow.go Acquire"),("shrink drops oldest records","ratelimiter/slidingwindow.go UpdateConfig")],
 ["Acquire results with call instants, Capacity, WindowSize"],
 [("records","timestamps of granted requests","ratelimiter/slidingwindow.go")])

prop("P05", "Token buckets bound bursts and long-run rate, and do refill",
 "For both token buckets, at most capacity calls succeed at any one instant (no matter how long the bucket was idle before), and over any span of d seconds the number of successes is at most capacity + rate*(d+1), as tokens are credited in whole-second steps; the bucket starts full, so the first capacity calls succeed. A bucket is never starved: after idling s whole seconds at least min(capacity, rate*s) of the following calls succeed, and a caller polling at least once a second gets at least min(capacity, rate) in every two seconds. Concurrent callers together obey the same bounds, and never corrupt the token count.",
 ["schedules","inputs","histories"],
 "all capacities and issue rates, all call-time sequences including long idle periods and sub-second polling, any number of concurrent callers",
 "Tests check single refills at fixed clocks; idle-then-burst histories, and concurrent refill races in the lock-free bucket, are not exercised.",
 ["ratelimiter/tokenbucket.go"],
 [("credit whole seconds of tokens capped at capacity","ratelimiter/tokenbucket.go issueIfNecessary"),("mutex / compare-and-swap token decrement","ratelimiter/tokenbucket.go Acquire")],
 ["Acquire results with call instants"],
 [("tokens, lastIssueTimestamp","available tokens and last credit time","ratelimiter/tokenbucket.go")])

prop("P06", "Redis TTL limiter: capacity per window, then a block of exactly timeout",
 "While a block key is not blocked, a request key passes at most capacity times in any span of windowSize seconds, and the request that would exceed that sets the block: it alone returns triggered with the configured timeout as ttl and its message, and every request on that block key until timeout seconds later returns blocked, not triggered, with a positive remaining ttl and the first message; after the timeout requests are judged by the window again. A request is blocked only for those two reasons, and every result is one of the three documented legal combinations. Parameters are read on every call, and non-positive ones let everything pass.",
 ["inputs","histories","configurations","schedules"],
 "all capacities, windows, timeouts (including timeout much shorter or longer than the window), all request-time sequences, keys and messages, any number of clients",
 "The redis tests are skipped without a redis server and check a handful of calls; nothing ever runs the script under long histories or window/timeout combinations.",
 ["ratelimiter/ttl_ratelimiter_redis.go","ratelimiter/ttl_ratelimiter.go"],
 [("server-side script over a capped list and an expiring block key","ratelimiter/ttl_ratelimiter_redis.go script1"),("parameter guard","ratelimiter/ttl_ratelimiter.go isParamsNotSet")],
 ["Result of every ShouldBlock*/IsBlocked* call; keys in the redis server"])

prop("P07", "Redis TTL limiter: block keys are shared, isolated and fail open",
 "Request keys sharing a block key are all blocked once any of them triggers, keys with different block keys never influence each other, and IsBlocked on a block key agrees with ShouldBlock on it (same blocked state, ttl and message) in both plain and cluster mode, never itself consuming capacity or causing a block. In cluster mode every key used for one call carries the hash tag so they share a slot, and plain and differently tagged limiters do not interfere. If redis fails or the context is already cancelled the call returns the pass result without panicking.",
 ["inputs","histories","fault_sequences","configurations","schedules"],
 "all key/block-key/hash-tag combinations, all operation sequences, redis errors, disconnects and malformed replies at any call, cancelled contexts, concurrent clients",
 "The tests need a live redis, are skipped, and never inject faults, use cluster-mode IsBlocked, or mix several keys.",
 ["ratelimiter/ttl_ratelimiter_redis.go"],
 [("key prefix/suffix/hash-tag composition","ratelimiter/ttl_ratelimiter_redis.go ShouldBlock2Context/IsBlockedContext"),("errors logged and zero Result returned","ratelimiter/ttl_ratelimiter_redis.go")],
 ["Result values; KEYS of every script call seen by the server"])

prop("P08", "Event bus delivers in order, once, and drops only when full",
 "Every event sent to a dispatching bus after a Block receiver was created reaches that receiver exactly once, in the order the bus accepted events, unless it or the bus is closed before the delivery; a Drop receiver gets a subsequence of that order without duplicates, missing an event only when its buffer was full (or, unbuffered, nobody was receiving) at that moment. Nothing is ever delivered that was not sent, and a full Drop receiver never delays the bus or the others. Drain returns exactly the currently buffered events and never blocks; CollectTimeout returns exactly the events arriving until its timeout, in order.",
 ["schedules","histories","inputs"],
 "all mixes of receivers, strategies and buffer sizes, all numbers of concurrent senders and of events, all consumption paces",
 "Tests use one or two receivers and a few events with sleeps; ordering, exactly-once and drop-only-when-full need many events, senders and paces.",
 ["event/bus.go"],
 [("single dispatch loop over the receiver map","event/bus.go doDispatch"),("per-strategy channel send","event/bus.go onEvent"),("Drain/CollectTimeout select loops","event/bus.go")],
 ["values received on Receiver.C, Drain, CollectTimeout"],
 [("recvMap","registered receivers by name","event/bus.go")])

prop("P09", "Closing receivers or the bus is safe at any time and hurts nobody else",
 "Closing a receiver closes its channel and stops its deliveries, returns promptly even while the dispatcher is blocked delivering to that receiver, and never affects another receiver: no event meant for others is lost, and closing a receiver whose name was reused does not close the new one (the one replaced is closed by the reuse). Closing twice, closing after the bus closed, creating receivers during dispatch, and collecting from a closed receiver never panic, hang or produce values nobody sent. Closing the bus closes every receiver's channel after at most the already accepted events.",
 ["schedules","histories"],
 "all interleavings of creation, sending, receiving, receiver close (including repeated), bus close and collection, for every strategy and buffer size",
 "Tests close once, single-threaded, in the happy order; they never close during a blocked delivery, twice, or after re-registration of a name.",
 ["event/bus.go"],
 [("deregistration under the registry lock","event/bus.go deregisterRecv/Close"),("dispatcher holding the read lock while delivering","event/bus.go doDispatch")],
 ["panics, blocking, channel closure and received values"])

prop("P10", "Config store reads return the latest accepted value, else the default",
 "After any sequence of register, update, batch update, reset and deregister calls, each read of a key by every read method (single, must, batch; typed or string) returns the value last accepted for it, else its default if registered, else reports it missing, and the typed value is always the processor's conversion of exactly the string value returned. Updates with values the key's processor rejects or of unregistered keys are refused with an error naming the key and value; registrations that are duplicate, keyless, without a processor or with an invalid default are refused with an error; none of them changes any observable value; an empty key is ignored. Batch reads keep request order and skip only missing keys, and a batch update applies exactly the acceptable entries in order and reports exactly the others.",
 ["histories","inputs"],
 "all sequences of store operations over any keys, values and processors",
 "Tests check single operations on fresh stores; agreement between all read methods after arbitrary operation sequences is not checked.",
 ["confstore/store.go","confstore/interface.go"],
 [("default and current maps, typed and string","confstore/store.go"),("validation before any change","confstore/store.go RegisterKey/UpdateNoPersist")],
 ["return values of all Interface methods"],
 [("kv/kvStr/kvDefault/kvDefaultStr","typed and string values","confstore/store.go")])

prop("P11", "Config store persists exactly what it accepted and reloads it after restart",
 "An accepted Update or BatchUpdate entry is in the persister afterwards, a rejected one never is, ResetKey and DeregisterKey remove the key from it, and UpdateNoPersist never writes it; so a new store over the same persister, after loading, serves for every registered key what the old one served, also after concurrent writers. Loading skips stored entries that are unknown or invalid without disturbing other keys, and a failing persister (save, batch save, delete or load) never panics, corrupts or blocks in-memory reads and writes. The redis persister stores one hash field per key under its root, round-trips any key and value bytes, touches nothing else, and answers every call with an error exactly when it did not take effect.",
 ["histories","inputs","fault_sequences","crash_points"],
 "all operation sequences, restarts at any point between operations, persister errors at any call, any stored content, any key and value bytes",
 "Tests assert on mock calls one at a time; the redis persister test is skipped without a server, and no test restarts a store or injects persister faults mid-sequence.",
 ["confstore/store.go","confstore/persister.go"],
 [("persist after in-memory accept","confstore/store.go Update/BatchUpdate"),("hash reads/writes/deletes","confstore/persister.go")],
 ["persister content versus store reads; redis commands received"])

prop("P12", "Load policy throttles loading without ever hiding newer data for longer",
 "With minInterval > 0 two successful loads through one policy never start less than minInterval after the previous one finished, however many goroutines read, and once minInterval has passed the next read does load, so a change in the persister is served by any read made minInterval or more after the last load. A failed load is not counted, so the next read tries again, its error is returned to direct callers and reads still serve in-memory values. With minInterval <= 0 or the simple policy every trigger loads. A policy acts for its own store only: however long a load takes, stores with policies of their own go on.",
 ["schedules","histories","fault_sequences","configurations"],
 "all intervals, all read-time sequences, any number of concurrent readers, load errors and slow loads at any point",
 "Tests call DoLoad a couple of times in one goroutine with real time; they do not cover failure, slow loads, exact boundaries or concurrent readers.",
 ["confstore/loader.go","confstore/store.go"],
 [("last successful load time checked under the load lock","confstore/loader.go DoLoad"),("every read triggers DoLoad","confstore/store.go")],
 ["Persister.Load call instants, read results, DoLoad errors"],
 [("lastLoadTs","time of last successful load","confstore/loader.go")])

prop("P13", "Value processors accept exactly their domain and convert it faithfully",
 "For every processor and every string, Validate accepts exactly the documented domain (length range, bool, integer range with inclusive or exclusive ends, duration, URL or empty, six-digit hex colour or empty, PEM RSA key or empty, listed enum value), gives a non-empty reason when it refuses and an empty one otherwise, and neither Validate nor Convert of an accepted value ever panics. Convert of an accepted value returns the processor's documented type with the value the text denotes; for an empty optional key or URL it is a nil pointer of that type.",
 ["inputs"],
 "all strings (any bytes, numeric extremes, overflow, near-miss formats, keys of other algorithms) and all processor parameters",
 "Tests use small tables of good and bad strings; the domain is infinite and near-miss inputs are not sampled.",
 ["confstore/procs.go","util/rsa/util.go"],
 [("per-type Validate/Convert","confstore/procs.go")],
 ["Validate and Convert results"])

prop("P14", "Config store is linearizable per key under concurrency",
 "Concurrent operations on one key behave as if executed one at a time in some order consistent with real time: a read never returns a value that was overwritten, reset or deregistered before the read began, never a value of another key or type, and never a half-applied update; a key deregistered (and possibly re-registered with another processor) never serves a value accepted under the earlier registration. (A load counts as an update made at its own time with the value it read from the persister.) No interleaving of registrations, updates, resets, loads and reads, on the same or different keys, races, panics or deadlocks.",
 ["schedules","histories"],
 "all interleavings of any number of goroutines over all store operations, including slow validators, slow persisters and loads racing with reads",
 "Tests run one goroutine; concurrency bugs need interleavings between validation and publication that tests never produce.",
 ["confstore/store.go","confstore/loader.go"],
 [("processor lock and value lock","confstore/store.go"),("load lock","confstore/loader.go")],
 ["recorded invocation/response histories of store calls"])

prop("P15", "Fixed-delay task: one job at a time, next starts interval after the last ended",
 "Once started, the first job begins immediately, each later job begins exactly interval after the previous one returned (never earlier, and without further delay), and two jobs of one task never overlap, whatever the job durations, errors, timeouts or ignored cancellations. It keeps running until stopped.",
 ["schedules","histories","inputs"],
 "all intervals, timeouts and sequences of job durations/errors, including jobs longer than timeout or interval",
 "Tests run a few jobs on the wall clock and count them; exact spacing and non-overlap over long mixed-duration runs are not measured.",
 ["schedule/fixed_delay_task.go","schedule/task.go"],
 [("job queue hand-off and AfterFunc after each run","schedule/fixed_delay_task.go")],
 ["virtual start and end instants of every job"])

prop("P16", "Fixed-rate task: a job starts at every interval tick",
 "Once started, jobs begin at start + k*interval for k = 0, 1, 2, ... with no tick skipped, doubled or drifting, regardless of how long jobs take, whether they overlap, fail, time out or ignore cancellation, until the task is stopped. Jobs overlap only when a job outlives the interval.",
 ["schedules","histories","inputs"],
 "all intervals, timeouts and sequences of job durations/errors",
 "Tests count jobs over a short wall-clock run with tolerance; drift, skipped or doubled ticks over long runs with overlapping slow jobs are not measured.",
 ["schedule/fixed_rate_task.go","schedule/task.go"],
 [("ticker feeding a consumer that spawns each job","schedule/fixed_rate_task.go")],
 ["virtual start instants of every job"])

prop("P17", "Task lifecycle: start once, stop once, cancel on timeout or stop",
 "For both task kinds, concurrent or repeated Start/Stop calls succeed exactly once each and in that order (Stop before Start, second Start, Start after Stop and second Stop return an error, the Must variants panic), and none of them ever blocks on a running job or hangs. A job's cancel channel closes exactly at its timeout or when the task is stopped, whichever comes first, and not before; after Stop no job starts later (one whose start was already decided may begin at that very instant, with its cancel channel closed at once), and once its jobs return and a pending interval timer ran out no goroutine or timer of the task remains. Constructors reject blank names, non-positive intervals or timeouts and nil jobs by panicking.",
 ["schedules","histories","inputs"],
 "all interleavings of Start/Stop with each other and with running, starting and waiting jobs, all timing parameters and job behaviours",
 "Tests call Start/Stop sequentially; racing lifecycle calls, exact cancellation instants, leaks and stops at every phase are not covered.",
 ["schedule/task.go","schedule/fixed_delay_task.go","schedule/fixed_rate_task.go"],
 [("status machine under the task lock","schedule/task.go markStart/markStopSendSignal"),("timeout context plus stop signal","schedule/task.go runJob")],
 ["errors returned, cancel channel closure instants, goroutines left"])

prop("P18", "Task manager keeps one running task per name and stops what it drops",
 "Register starts the task and makes its name occupied; while occupied any other Register of that name returns an error and neither starts the new task nor disturbs the old. Unregister stops exactly the named task and frees the name, UnregisterAll stops and frees all, both are no-ops for unknown names, and a registration that fails (with an error or a panic because the task cannot start) leaves the name free. This holds under concurrent calls: at any time at most one running task per name, every task that was registered and later unregistered is stopped, and the manager never deadlocks.",
 ["schedules","histories"],
 "all sequences and interleavings of Register, Unregister and UnregisterAll over any names and tasks, including tasks whose start panics",
 "Tests do single sequential calls with real tasks; races between register/unregister and failed starts are not covered.",
 ["schedule/task_manager.go"],
 [("name map under one lock, start/stop inside it","schedule/task_manager.go")],
 ["errors returned and Start/Stop calls received by tasks"])

prop("P19", "Config loading precedence: flag, then env, then yaml, then preset value",
 "For every configuration struct built of supported field types, nested and embedded structs and pointers, conf.Load leaves in each field the flag's value if given, else the environment variable's, else the yaml file's, else the value the struct had before, independently for every field. After loading no exported supported pointer is nil whatever sections the yaml omits or leaves empty, and fields of unsupported types are never touched by flags or environment and cause no failure.",
 ["inputs","configurations","programs"],
 "all struct shapes over the supported types, all subsets of sources per field, all representable values including zero values, negatives and empty strings, all yaml shapes",
 "Tests use one or two fixed structs and a few source combinations; the claim is for every struct shape and every per-field source combination.",
 ["conf/conf.go","conf/env.go","conf/flag.go","conf/yaml.go","conf/reflect.go"],
 [("pointer initialisation then yaml, env, flag resolution in order","conf/conf.go Load")],
 ["field values after conf.Load in a process with given args, env and file"])

prop("P20", "Config names follow the convention; bad input stops the program",
 "Field path Foo.Bar.BazBoom is settable exactly through flag -foo-bar-baz-boom and env FOO_BAR_BAZ_BOOM (embedded structs add no path element), and no other name sets it. A flag, environment or yaml value that does not parse for its field's type, an unknown flag, or an unreadable or malformed yaml file makes Load terminate the program with status 2 and a message on its output, and never return with a partly wrong configuration; every valid value is accepted.",
 ["inputs","configurations","programs"],
 "all field names and nesting paths, all textual values valid or not for each type, all malformed files",
 "Tests check a few names and one error; the mapping and rejection must hold for every path and value.",
 ["conf/string.go","conf/env.go","conf/flag.go","conf/yaml.go","conf/conf.go"],
 [("flagStyle/envStyle","conf/string.go"),("exit on any resolver error","conf/conf.go Load")],
 ["exit status, output and resulting values of a process calling conf.Load"])

prop("P21", "Printing a config never leaks its credentials",
 "The String form of every config type, also when printed through fmt with %v, %+v or %s or nested by pointer in another struct's printing of it, is the same whatever the user name and password are, so it reveals nothing of them, while every non-secret setting it lists shows that setting's actual value. It never panics on any field values.",
 ["inputs","configurations"],
 "all values of all fields of MysqlConf, PostgresqlConf, OracleConf, RedisConf, EsConf, PprofConf and FastHttpClientConf",
 "Tests check few or no String outputs, with single values; a leak or a swapped field needs particular values.",
 ["confs/mysql.go","confs/postgresql.go","confs/oracle.go","confs/redis.go","confs/es.go","confs/pprof.go","confs/fasthttpclient.go"],
 [("String methods masking credentials","confs/*.go")],
 ["strings produced by String and fmt"])

prop("P22", "Clients connect with exactly the configured parameters",
 "Clients built from MysqlConf, PostgresqlConf, OracleConf, RedisConf and EsConf present to the server exactly the configured host, port, user, password, database (service/SID/index number) and connection parameters, for every value including URL-special characters, with customizers applied, with or without a tracer, and pool limits of the returned handle equal the configured ones. A configured limit of connections per host is really enforced.",
 ["inputs","configurations"],
 "all user names, passwords, database names and parameter strings (any characters the protocol admits), pool sizes and timeouts",
 "Tests only compare intermediate option structs for plain values or need live servers; what reaches the wire is never observed.",
 ["confs/mysql.go","confs/postgresql.go","confs/oracle.go","confs/redis.go","confs/es.go"],
 [("native config / DSN construction","confs/*.go"),("pool limits set on the handle","confs/*.go")],
 ["bytes received by in-process protocol servers; sql.DB stats; concurrent connections"])

prop("P23", "HTTP client TLS trust follows the configured mode",
 "A fasthttp client in CUSTOM mode completes TLS handshakes exactly with servers whose chain ends in one of the configured certificate files, in INSECURE mode with any server, and otherwise only with servers trusted by the host roots, and with a configured key pair it presents that certificate to servers demanding one, in every combination of these; trust files, key pairs or halves of pairs that cannot be used end construction instead of being ignored. Timeouts and connection limits are those configured and the customizer has the last word.",
 ["inputs","configurations"],
 "all combinations of trust mode, trust file lists, client key pairs and server certificates (trusted, other CA, self-signed, expired, wrong host, client-auth required)",
 "Tests inspect at most a config struct for one combination; real handshakes in all combinations never happen.",
 ["confs/fasthttpclient.go"],
 [("tls.Config assembly","confs/fasthttpclient.go NewFastHttpClient")],
 ["handshake outcomes and peer certificates seen by loopback TLS servers"])

prop("P24", "Profiling endpoints are reachable only with the right credentials",
 "The gin filter and the fasthttp handler let a request reach profiling data only when both username and password are configured and the request carries exactly them in HTTP Basic form, for any characters Basic auth can carry; with wrong, missing or malformed credentials the answer is 401 with a challenge and no profiling data. With either one unset, nothing is ever served: the gin filter answers 404 and aborts, the fasthttp handler returns an empty response.",
 ["inputs","configurations"],
 "all configured user/password pairs and all Authorization header values, including prefixes, extra colons, empty parts and malformed base64, concurrently",
 "Tests try at most a couple of headers; access control must hold for every header.",
 ["confs/pprof.go"],
 [("basic auth comparison before the pprof handler","confs/pprof.go")],
 ["status, headers and body of responses"])

prop("P25", "HTTP tracing middleware is transparent and records one correct span",
 "Adding the fasthttp-routing tracing middleware changes nothing a client or later handler observes: status, headers, body, returned errors (hence the router's error responses), call order, and panics are those without it, with or without a tracer. Each traced request yields exactly one finished entry span with the operation method:path, URL, method and the status code actually sent (also where the router itself answers an error, or a timeout response is sent), marked as error exactly when the handler failed or the status is >= 400; a request whose handler panics still gets its one finished, error-marked span. Bodies and error texts are recorded only when their options are on, and streamed bodies are not consumed. The span continues the trace of incoming propagation headers, and downstream code finds that span's context in the request.",
 ["inputs","histories","schedules","configurations"],
 "all handlers (any status, error, panic, body), all options, request methods/paths and propagation headers, concurrent requests",
 "There are no tests for this package; transparency is relative to every handler behaviour.",
 ["skywalking/fasthttp-routing/middleware.go"],
 [("entry span around Next","skywalking/fasthttp-routing/middleware.go NewMiddleware")],
 ["responses with and without the middleware; spans delivered to a reporter"])

prop("P26", "Redis tracing hook is transparent and records one correct span per call",
 "Adding the redis tracing hook never changes the outcome of a command, pipeline or transaction (same replies, same errors, same commands on the wire), whatever options are set and whether or not spans can be created. Each traced command or pipeline yields exactly one finished exit span, child of the caller's span, with the command name(s), peer, db and error status of that call; arguments and error texts appear only when their options are on, and the caller's own span is neither ended nor altered. Two hooks on one client each finish their own span; with a nil tracer or no peer address commands are unaffected and no span appears.",
 ["inputs","histories","fault_sequences","schedules","configurations"],
 "all commands and pipelines, redis errors and connection faults, all option combinations, concurrent use, contexts with and without an active span",
 "There are no tests for this package; it needs a redis server and failing calls to observe.",
 ["skywalking/redis/hook.go"],
 [("exit span in Before*, ended in After*","skywalking/redis/hook.go")],
 ["replies, wire commands and spans delivered to a reporter"])

prop("P27", "HTTP client span helper records one correct exit span and propagates it",
 "For every request, creating and ending a client span yields exactly one finished exit span, child of the context's span, with operation method:path, peer host, URL, method and, when ended with a response, its status code, marked error exactly for status >= 400 or when ended with an error; the request gains valid propagation headers naming that span and is otherwise unchanged. Without a tracer, or with a nil span, all helper calls are harmless no-ops, and bodies or error texts are logged only when their options are on.",
 ["inputs","configurations","schedules"],
 "all requests, responses, errors and option combinations, with and without a parent span, concurrently",
 "There are no tests for this package.",
 ["skywalking/fasthttp/client_span.go"],
 [("exit span creation with header injector","skywalking/fasthttp/client_span.go")],
 ["request headers and spans delivered to a reporter"])

prop("P28", "Key and certificate parsing round-trips and never panics",
 "For every RSA key or X.509 certificate, reading its PEM text or bytes, and for text also the bare base64 without PEM armour, returns the same key or certificate, and the extracted public key PEM reads back as the public part. Any other input, including PEM of another type, truncated or corrupted data and keys of other algorithms, yields an error and a nil result without panicking, and the Must variants panic exactly when the plain ones return an error.",
 ["inputs"],
 "all byte strings, all RSA keys and certificates, keys of other algorithms and every corruption of valid input",
 "Tests use a few fixed keys; robustness must hold for arbitrary input.",
 ["util/rsa/util.go"],
 [("PEM normalisation and type checks","util/rsa/util.go")],
 ["returned keys, errors and panics"])

prop("P29", "Shared components are free of data races",
 "Circuit breakers, semaphores, rate limiters, event buses and receivers, config stores with their load policies and processors, tasks and the task manager, tracing middleware, redis hook, span helper, pprof handlers and stateless helpers can each be used by any number of goroutines at once, through every method, without any data race, corrupted map or fatal runtime error.",
 ["schedules"],
 "all interleavings of all public methods of each shared component",
 "The test suite is not run with the race detector and hardly uses goroutines.",
 ["circuitbreaker/circuitbreaker.go","concurrent/sema.go","ratelimiter/tokenbucket.go","ratelimiter/slidingwindow.go","ratelimiter/fixedwindow.go","event/bus.go","confstore/store.go","confstore/loader.go","schedule/task.go","schedule/task_manager.go","schedule/fixed_delay_task.go","schedule/fixed_rate_task.go"],
 [("mutexes, atomics and channels guarding shared fields","all listed files")],
 ["race detector reports and fatal errors of a race-instrumented build"])

prop("P30", "Tracing reports to the configured collector under the configured names",
 "A tracer built from a configuration with a server address delivers every finished segment, whatever traced it (middleware, client helper or the tracer itself) and from however many goroutines, exactly once and unchanged to that address and to nobody else, as service 'namespace::name' and the configured instance (or a generated non-empty one), announces and pings that instance there and asks it for dynamic configuration; if the collector is down, building the reporter, tracing and requests go on undisturbed, and the segments arrive once it is up. Without an address, or without a configuration at all, a reporter is still returned which accepts all spans and opens no connection, so that traced code works unchanged.",
 ["configurations","histories","schedules","fault_sequences"],
 "all service, namespace and instance names, several tracers at once, bursts of segments from many goroutines, collectors that are up, down or come up later, configurations without an address",
 "There are no tests for this package; it needs a collector to talk to.",
 ["skywalking/factory.go","skywalking/conf.go","skywalking/fasthttp/client_span.go","skywalking/fasthttp-routing/middleware.go"],
 [("choice of the reporter","skywalking/factory.go NewGrpcOrNoopReporter"),("tracer identity","skywalking/factory.go NewTracer")],
 ["segments, properties, pings and configuration requests received by a collector; connections made"])

prop("P31", "Ended work leaves nothing behind; state stays bounded however long it runs",
 "What has ended keeps neither memory, timers nor goroutines alive: closed or replaced receivers and closed buses (also with events inside or a delivery under way), unregistered or stopped tasks and their returned jobs (once a pending interval timer ran out), waits that ended on semaphores, refused calls, deregistered keys, finished traced requests and commands. The state of every limiter, breaker, semaphore, store, bus, task and manager is bounded by its capacity and by what is registered in it, not by how often it was used. Every key the redis limiter writes expires by itself within a small multiple of window and timeout, and a request key never holds more entries than the largest capacity in use.",
 ["histories","schedules","configurations"],
 "arbitrarily many uses of each component, with all parameters and in every way a piece of work can end",
 "A leak shows only after thousands of uses, and tests neither count what is left nor look into the redis server.",
 ["event/bus.go","schedule/task.go","schedule/task_manager.go","schedule/fixed_delay_task.go","schedule/fixed_rate_task.go","concurrent/sema.go","circuitbreaker/circuitbreaker.go","ratelimiter/slidingwindow.go","ratelimiter/fixedwindow.go","ratelimiter/tokenbucket.go","ratelimiter/ttl_ratelimiter_redis.go","confstore/store.go","confstore/loader.go","skywalking/fasthttp-routing/middleware.go","skywalking/fasthttp/client_span.go","skywalking/redis/hook.go","confs/pprof.go"],
 [("deregistration on close","event/bus.go deregisterRecv"),("cancel of every job context","schedule/task.go runJob"),("deletion on unregister","schedule/task_manager.go Unregister"),("expiry and trimming of request keys","ratelimiter/ttl_ratelimiter_redis.go script1")],
 ["live heap objects and goroutines before and after churns; keys, lengths and expiries in the redis server"])

prop("P32", "Factories hand out a client only once its server answered",
 "NewMySqlDb, NewPostgresqlDb, NewOracleDb (each also WithTracer), NewRedisClient and NewEsClient return a client only when the configured server let it in and answered a ping without an error. When nothing listens, the server hangs up, the credentials are refused, the ping is answered with an error, or the configuration cannot be used (unknown time zone, invalid host, port or parameter, neither SID nor service), construction ends the program or panics instead of returning; and nothing it prints or panics with, in any of these cases or on success, holds the configured password.",
 ["configurations","inputs","faults"],
 "all passwords, each factory with and without tracer, every kind of failure at every stage of connecting",
 "Tests need live servers to construct a client at all and never make one fail; a dead server or a bad configuration would surface only at the first use in production.",
 ["confs/mysql.go","confs/postgresql.go","confs/oracle.go","confs/redis.go","confs/es.go","simplelog/loggers.go"],
 [("ping during construction, Fatal or panic on error","confs/*.go New*")],
 ["return or end of each construction, sessions and pings seen by in-process servers, text written to the loggers"])

prop("P33", "JSON maps round-trip exactly, fixed clocks never move",
 "UnmarshalM of any JSON object text returns the map that text denotes (nested objects, lists, strings with every escape, numbers, the later of two equal names), sharing nothing with its input and leaving it as it was; every other text (but a bare null, read as an empty map) gives an error and a nil map without panicking. MarshalM of any map of representable values writes one UTF-8 text that reads back as the same value, leaving the map as it was, and gives an error and no bytes for values JSON cannot represent. SysNow is the current instant at each call, FixedNow's clock the given instant (location included) at each call, whatever other clocks exist. All of them may be used from any number of goroutines.",
 ["inputs"],
 "all JSON texts and near misses, all maps of Go values, all instants",
 "dto and util/time have no tests of their own beyond being used by others.",
 ["dto/m.go","util/time/now.go"],
 [("UnmarshalM, MarshalM over encoding/json","dto/m.go"),("NowFunc implementations","util/time/now.go")],
 ["maps, bytes, errors and instants returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
