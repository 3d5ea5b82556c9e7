import json,sys,glob,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
# per property: (how, oracle, bounds & cost (quick), reach beyond tests)
D={}
D['P01']=("Histories of Do calls made by scripted tasks: sequential with nesting, overlapping slow tasks, truly parallel bursts, callbacks that re-enter the breaker, NeverOpen. On the real clock, failures of tasks begun earlier arrive while the breaker is open and is being called.",
 "A state machine of fifteen lines (failures, instant of the last failure, threshold, reset timeout) is asked at each call's instant whether task or fallback had to run; bursts are judged by counting; a hang is decided from goroutine dumps.",
 "Virtual time, so every instant is exact to the nanosecond; thresholds 1..~10, timeouts 1 ns..days. Not claimed: that only one probe runs in the half-open state, thresholds <= 0.")
D['P02']=("Both semaphores under random operations with exact quiescence after each, parallel clients, stress through critical sections, zero permits.",
 "A counter model at quiescence; linearizability of recorded histories (porcupine) against a bounded counter; occupancy measured inside the critical section; nobody waits while a permit is free (lost wake-up).",
 "Permits 0..~6, up to ~8 clients. Negative permits not claimed.")
D['P03']=("Calls at instants on and one nanosecond around window boundaries, after years of idling, single and in truly parallel bursts; a real-clock group.",
 "Exact integer window arithmetic (aligned to the epoch the code uses) for every single grant; independent upper bound for the real-clock group.",
 "Windows 1 ns..1 day, capacities 0..; window sizes <= 0 and clocks running backwards not claimed.")
D['P04']=("Acquire in sequence and in bursts with UpdateConfig between and during them. A real-clock group in which callers overtake each other.",
 "Model of the remembered grants; independently the grants in every span of the window's length are counted; concurrent histories are checked for linearizability.",
 "Virtual time; capacity <= 0 means unlimited, as the code documents by behaviour.")
D['P05']=("Both token buckets polled at whole seconds, arbitrary nanosecond instants, after long idling, by storms of goroutines at each refill instant, and on the real clock by goroutines already taking when a refill falls due.",
 "Exact token arithmetic at whole seconds; upper bound per instant and per span and lower bounds at arbitrary instants; conservation in storms.",
 "Rates and capacities up to large values; fractional-second crediting is left open by the statement.")
D['P06']=("The real limiter and go-redis client against an in-memory redis written for these monitors (RESP2, a Lua interpreter, TTL rounding of redis 5), client and server sharing virtual time; parameters change between calls.",
 "Reference model of window, trigger and block compared with every Result, plus counting of passes in every window span.",
 "The code stamps requests with whole seconds, so the oracle has sub-second tolerance where the statement leaves it; the window only shrinks during a run.")
D['P07']=("Several limiters (plain, cluster, braced tags, braces in keys) and block keys on one server; 14 kinds of server failure and cancelled or expired contexts.",
 "Differential: the results of each group must equal those of a run with that group alone; slots of all keys on the wire; IsBlocked compared with ShouldBlock at the same instant; under faults the pass result and no panic.",
 "NOSCRIPT after a server restart is a permanent fail-open (documented by LoadScript) and not claimed otherwise; well-formed replies of a wrong type, an empty hash tag, and plain keys that end in another limiter's hash tag are not claimed.")
D['P08']=("Scripted runs with exact quiescence, stalled Block receivers, racing senders and consumers, several takers of one receiver.",
 "Model of every receiver's buffer (exact), a common total order explaining all receivers, gaplessness for Block and roomy Drop receivers; Drain must have returned at quiescence; CollectTimeout's return instant and content exact.",
 "Delivery is owed unless receiver or bus closed before it.")
D['P09']=("Close of receivers and bus in every state: idle, stalled-on, already closed, reused names, during dispatch; storms in real time.",
 "At quiescence each operation must have returned; sequences of everybody else are checked gapless; every closed channel must end; no panic.",
 "Sending on a bus being closed is the caller's error (excluded).")
D['P10']=("Random operation histories over a few keys with built-in and recording processors.",
 "Map model with independent conversions; after every operation every key is read through all six read methods.",
 "Sequential; concurrency is P14's.")
D['P11']=("Histories over an observing persister and over the redis persister with foreign data around, junk stored in between, faults on every persister call, restarts; the redis persister also called directly; parallel writers.",
 "The persister's whole content and all reads compared with a model after every operation; after parallel writers both sides must agree.",
 "")
D['P12']=("Readers at exact boundary instants in virtual time, crowds at one instant, slow and failing loads in real time. The redis persister over a refusing server.",
 "A persister that records start, end and result of each load: whether a load had to, could or must not happen, and what each read may serve.",
 "Spacing is end-to-start; failing loads are not throttled; batch reads may trigger several loads.")
D['P13']=("Texts from grammars of each domain, boundaries, single edits, random bytes; pools of keys in every encoding.",
 "Independent definitions: big integers, exact rationals for durations, byte checks for colours, ground truth by construction for keys; net/url is the definition of URL.",
 "Durations whose value is exactly 2^64 ns: either way.")
D['P14']=("2-6 goroutines with all operations over 1-3 keys, scheduling points (yields, sleeps) inside every processor and persister call, several load policies.",
 "Per-key linearizability (porcupine) of the recorded history against a sequential specification; loads are recorded as updates of their own; deadlock watchdog; race detector.",
 "Schedules are those the Go scheduler produced (distinct histories are counted in the evidence).")
D['P15']=("Fixed-delay tasks in virtual time: durations at, below, above interval and timeout, ignored or slow cancellation, stops on and off ticks.",
 "start[0]=0, start[k+1]=end[k]+interval exactly; no overlap; exactly the due jobs.",
 "Virtual time (testing/synctest): the latency of a real scheduler is out of scope.")
D['P16']=("Fixed-rate tasks likewise, including thousands of ticks while jobs hang.",
 "Starts are exactly k*interval for every k before the stop.",
 "As P15.")
D['P17']=("Life-cycle calls in sequence and by up to 8 goroutines, cancel instants, constructors, goroutines left afterwards; a real-time stress group.",
 "Exactly one Start and one Stop succeed; the cancel channel closes exactly at min(start+timeout, stop); no call takes virtual time; no goroutine of the library remains.",
 "A job whose start was decided before Stop may begin at that instant.")
D['P18']=("Observing tasks under random and parallel Register/Unregister/UnregisterAll, also tasks that cannot start; the library's own tasks in virtual time.",
 "Map model; linearizability; at most one running task per name at every moment; after a final UnregisterAll every registered task was started once and stopped once.",
 "")
D['P19']=("Struct types generated with reflect.StructOf (all kinds, nested, embedded, pointers, yaml tags), plus a hand-written type; files, environments, command lines generated with the expected value of every field known by construction.",
 "Every field after Load equals flag, else env, else yaml, else preset; pointers non-nil; unsupported fields untouched.",
 "Colliding names, recursive types, help flags and exported fields of unexported embedded structs excluded.")
D['P20']=("Flag sets of generated types; child processes fed one bad source (or none).",
 "Set of registered flags is exactly the conventional one; exit status 2 with output for bad input, expected values for good input.",
 "yaml numbers that the library itself converts are excluded.")
D['P21']=("Every config type printed in 17 forms under two unrelated credentials.",
 "Non-interference (equal texts) and each named setting followed by its value; no panic.",
 "%#v and printing by value are not claimed.")
D['P22']=("Clients built from generated configurations connect to in-process MySQL, PostgreSQL, Oracle (TNS), Redis and HTTP servers that record what is presented.",
 "Model of the configuration after the customizer.",
 "Not claimed: unbracketed IPv6 hosts, Oracle option values with commas or outer spaces, the SYS user, empty PG user or invalid UTF-8, one parameter given both in Params and by the customizer, ES user with ':' or only one of user and password, MaxIdleConnsPerHost=0, raw '=' in MySQL Params; New*DbWithTracer returns an untraced *sql.DB.")
D['P23']=("1..3 clients of random configurations handshake with 1..3 loopback TLS servers; damaged or incomplete trust files and key pairs (construction must fail); limits at work in virtual time.",
 "Whether the chain ends in a configured root is known by construction; peer certificate seen by the server; instants of timeouts and number of connections.",
 "CUSTOM without trust files is only required to refuse what the host roots do not vouch for.")
D['P24']=("Raw HTTP requests with generated Authorization headers (right, wrong, malformed, other schemes, case changes, prefixes) on 1..4 connections.",
 "Access only with exactly the configured pair; 401 with a challenge otherwise; nothing served with either credential unset.",
 "Other spellings of the scheme or of base64 with the right pair: either way; users containing ':' only must not admit others.")
D['P25']=("The same scripted handler chains served with and without the middleware over real fasthttp connections: errors, panics, aborts, streams, timeouts, hijacks, early hints.",
 "Differential on what clients, handlers and outer handlers see; span oracle over a recording reporter.",
 "Malformed sw8 headers: only transparency; status tag not judged for panics or errors converted outside the middleware; contexts of a shutting-down server not judged.")
D['P26']=("Scripts of commands, pipelines and transactions with injected faults, with and without the hook(s), 1..4 goroutines.",
 "Differential on replies, errors and commands on the wire; span oracle incl. parent, peer, db and error marks.",
 "redis.Nil may be marked or not.")
D['P27']=("Generated requests, responses, errors and span contexts through the helper, shared by 1..4 goroutines.",
 "Exactly one exit span with the expected tags; the request differs only in the propagation headers, which name that span.",
 "A nil response with a live span is not claimed; a streamed response body may be read when log4xxBody asks for its text.")
D['P28']=("Pool of keys and certificates in every PEM and bare form, and damaged ones.",
 "Round trip by construction; everything else must give error and nil; Must panics exactly when the plain reader fails.",
 "Damaged text that still holds a readable value must read as exactly that value.")
D['P29']=("Randomised storms of every method of every shared component under the race detector.",
 "No race report with a library frame, no crash, no corrupted state.",
 "Sending on a bus being closed and LoadScript during limiting excluded.")
D['P30']=("Tracers of generated configurations, 1..3 on one collector next to a second collector, segments made through middleware, client helper and local spans by 1..8 goroutines in bursts of up to 3000; collectors that come up only later; configurations without an address.",
 "A reporter in front of the real one records what was finished; the collectors' records must hold exactly that, under the right service and instance; sockets are counted where nothing may be sent.",
 "Real clock (arrival is waited for up to 30 s). Names are valid UTF-8. What go2sky does with SW_AGENT_* variables, and with more than 30000 queued segments, is not claimed.")
D['P31']=("Each component used thousands of times in virtual time, one piece of work after another, in every way a piece of work can end; redis limiters over several keys with changing parameters.",
 "Live heap objects (after three collections) and goroutines before and after a round; growth must show again in a second and in a third, longer round; at the end everything is stopped and no goroutine of the library may remain. Each key in the redis stand-in is inspected after each call and after long silence.",
 "Leaks slower than one object per 6 uses are not seen; the cost of dependencies (go2sky, fasthttp) is included, which is why the bound is not zero.")
D['P32']=("Every factory run against in-process servers that answer, hang up, refuse the credentials, or fail the ping, against ports nobody listens on, and with unusable configurations.",
 "Handed out exactly in the first case and not before the server was reached; the text of both loggers and of the panic never holds the core of the password.",
 "Fatal of the loggers is recognised on the call stack and turned into a panic; unusable Oracle option values go-ora accepts are not claimed; MinIdle is 0 where nobody listens (go-redis v7.2.0 races with itself there).")
D['P33']=("Object texts rendered together with their value, broken texts, generated maps of Go values, clocks in virtual time; one or several goroutines.",
 "The value read is the one rendered; broken texts give error and nil; what is written reads back as the same value; clocks give exactly the expected instant.",
 "Low weight: small helpers. Texts with invalid UTF-8 are not claimed.")
out=[]
w=out.append
w('''# DESIGN

## What is here

`properties.jsonl` states %d properties'''%len(props)+''' of chanjarster/gears (written by
`tools/props.py`). Each is decided by one *monitor*: a Go test binary in
`harness/pNN` which is built from /repo's working tree (with the race detector
of go1.27, `-modfile` against a copy of `harness/go.mod`), runs the real code
under generated workloads, and judges what it observes. `run.py Pxx` builds the
monitor, runs it in 8 shards, merges their observations into
`evidence/Pxx.json` and gives the verdict; `checks.py` holds the table of checks
and `tools/manifest.py` writes MANIFEST.json from it. `setup.sh` only warms the
build cache. No hooks were added to /repo: everything is observed through the
public interface (time through virtual time, redis through a stand-in server,
spans through a recording reporter), so refactorings of the code do not touch
the monitors.

Support packages in `harness/`: `vk` (cases from the seed, reports, watchdog),
`fakeredis` + `lua` (in-memory redis with scripting, TTL semantics, wire log,
fault injection), `sched` (task scenarios), `confgen` (configuration types and
sources), `fakesql` (MySQL, PostgreSQL, TNS servers), `tlsca` (certificates),
`keys`, `spans` (recording reporter and span comparison).

## Family: runtime monitoring and sanitizers

* **Virtual time.** Whatever depends on time runs inside `testing/synctest`
  bubbles with the unmodified code: instants are exact, `synctest.Wait` is exact
  quiescence ("this call has not returned and never will"), and goroutines still
  run truly in parallel. Groups on the real clock exist next to them.
* **Sanitizer.** Every monitor is race-instrumented. A report counts only if a
  frame of the library performs the access; harness-only races are harness bugs
  (exit 2).
* **Oracles** are reference models, conservation counts, linearizability
  checkers (porcupine) over recorded histories, differential runs, or ground
  truth by construction - see each property.
* **Hangs** are decided by quiescence in virtual time, and in real time by a
  watchdog that looks at what the goroutines do (the same library goroutine
  stuck in two dumps), never by elapsed time alone.
* **Evidence**: cases run, distinct non-trivial observations (hash of the
  observed trace or history), named counters of observed events, sample traces.
  `min_evaluations` in `checks.py` makes a check that observed too little fail
  with exit 2 instead of passing quietly.
* **Seeds**: all cases derive from VERIF_SEED, group and index; a violation's
  replay file holds the witness and `run.py Pxx --only group/index` reruns it.

"Held" always means: on the executions run. Nothing is claimed as proved.
Properties for which the family does not apply: none.

Quick takes 3..80 s per property on 8 cores (6 min for all); thorough runs 20 to
100 times as many cases.

## Per property
''')
for p in props:
    d=D[p['id']]
    g=[x for x in glob.glob(V+'/seeded/'+p['id']+'-*')]
    w('### %s %s\n'%(p['id'],p['title']))
    w('* Workload: '+d[0]); w('* Oracle: '+d[1])
    if d[2]: w('* Bounds and exclusions: '+d[2])
    w('')
w('''## Why this reaches what the tests cannot

The repository's tests sample a handful of inputs with a fixed `now` or with
sleeps, and none run concurrently under the race detector. The statements
quantify over every instant, schedule, history, configuration and fault. The
monitors sample those spaces by the ten thousand with exact oracles, aim at the
edges (one nanosecond around boundaries, events during closes, faults at each
call), and count how many distinct histories they saw.

## Genuine defects found and repaired

All are small "fix:" commits in /repo, one line each in `known_findings.txt`
("fixed:" entries suppress nothing). There are no open known findings.
''')
for l in open(V+'/known_findings.txt'):
    if l.startswith('fixed:'): w('* '+l[len('fixed: property='):].strip())
w('''
## False alarms met while building, and what was corrected

All of these were faults of the harness or of too strong a statement; none is
listed as a finding.

* P08 promised delivery even when the receiver is closed before it: statement
  weakened ("unless it or the bus is closed before the delivery").
* P19 harness took `*int` for an unsupported type, and generated duplicate yaml
  keys for embedded types.
* P25 harness compared Date headers, the framing of 304/204/HEAD replies, and
  expected spans for errors converted by an outer handler without Abort.
* P26 harness: pipe deadline errors on closed connections, replies undelivered
  before a drop, TTL timestamps in dumps, pipelines abandoned half-way.
* P27 harness: asking fasthttp for RequestURI() rewrites a lazily parsed
  request, so the "before" picture changed the request itself.
* P29 harness: a hand-made routing context whose RequestCtx was never
  initialised (panics in the original code, too).
* P31 harness: measuring bytes where goroutines are involved (the runtime keeps
  dead goroutines, the more the higher the peak was); a waiting goroutine in
  place of a timer looked like growth until a third, longer round was asked for;
  sockets counted by number although the port had been given to somebody else.
* P32 harness: values go-ora accepts taken for unusable; go-redis v7.2.0 racing
  with itself when MinIdle is set and nobody listens.
* P06 harness: a model that kept only the last 200 passes of a key.
* P17 harness: a plain counter shared with jobs still running.

## Planted bugs (seeded/) and which check catches them

Each was written from the statement and the code, compiles, passes the 424
stable tests, and has a demonstration. "missed first" marks those a check had to
be strengthened for.
''')
missed={'P08-drain-len':'missed first: added the "shared" group of P08 (several takers of one receiver)'}
missed.update(json.load(open(V+'/tools/missed.json')) if os.path.exists(V+'/tools/missed.json') else {})
w('| planted bug | needs | caught by | remark |\n|---|---|---|---|')
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    w('| %s | %s | %s | %s |'%(i,m['needs'].replace('|','/'),m['property'],missed.get(i,'')))
w('''
Dropped because existing tests caught them: a failure count capped at the
threshold (P01), reconfiguring with equal capacity ignored (P04), a window with
a lower bound (P03). Dropped because they turned out to be no bug: masking
by replacement in PprofConf.String, PEM wrapped a second time when there is text
before it (pem.Decode finds the inner block).

Besides these, several hundred one-line mutants of /repo were run against the
checks while they were built.
''')
open(sys.argv[1] if len(sys.argv)>1 else V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
