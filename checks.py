"""Table of the checks: how run.py builds and runs the monitor of each property."""
SEEN = " Says 'held on the executions run', never 'verified'."
CHECKS = {
    "P01": dict(pkg="p01", min_evaluations=20000,
                technique="runtime monitoring: reference-model trace checker in virtual time, race detector",
                note="Histories of Do calls (sequential with nesting, overlapping slow tasks, truly parallel bursts) replayed against a 15-line state-machine model; synctest gives exact instants. Trusts testing/synctest and the race detector." + SEEN),
    "P02": dict(pkg="p02", min_evaluations=5000,
                technique="runtime monitoring: linearizability checking (porcupine) of recorded histories, quiescence model, race detector",
                note="Exact quiescence (synctest) after every scripted step against a counter model; parallel histories checked for linearizability; occupancy measured inside critical sections." + SEEN),
    "P03": dict(pkg="p03", min_evaluations=5000,
                technique="runtime monitoring: exact window oracle over virtual-time call traces, race detector",
                note="Every Acquire result is compared with exact integer window arithmetic at known virtual instants, sequentially and in parallel bursts." + SEEN),
    "P04": dict(pkg="p04", min_evaluations=6000,
                technique="runtime monitoring: reference model and span counting over virtual-time traces, linearizability checking, race detector",
                note="Exact model plus independent span count; concurrent reconfiguration histories checked with porcupine." + SEEN),
    "P05": dict(pkg="p05", min_evaluations=10000,
                technique="runtime monitoring: token conservation oracle over virtual-time traces, parallel refill storms, race detector",
                note="Exact at whole seconds, bounds at arbitrary instants, parallel storms at refill instants, real-clock takers straddling refills." + SEEN),
    "P06": dict(pkg="p06", min_evaluations=2500,
                technique="runtime monitoring: reference-model checking of call traces in virtual time over a recording in-memory redis, race detector",
                note="Every Result is compared with a model of window, trigger and block; the redis is a stand-in written for these monitors (RESP2, Lua, TTL semantics of redis 5), virtual time shared by client and server." + SEEN),
    "P07": dict(pkg="p07", min_evaluations=1500,
                technique="runtime monitoring: differential isolation oracle in virtual time, wire-key checks, fault injection, race detector",
                note="Mixed runs are compared call by call with runs of each group alone; keys on the wire and keys touched by scripts are recorded by the redis stand-in; 14 kinds of failure." + SEEN),
    "P08": dict(pkg="p08", min_evaluations=4000,
                technique="runtime monitoring: exact buffer model at quiescence, total-order checker over receiver logs, race detector",
                note="Scripted runs with exact quiescence (synctest) against a model of every buffer; racing runs checked for one common order." + SEEN),
    "P09": dict(pkg="p09", min_evaluations=4000,
                technique="runtime monitoring: quiescence-based hang detection and per-receiver sequence oracle around closes, race detector",
                note="Every operation must have returned at exact quiescence; sequences of all other receivers are checked gapless." + SEEN),
    "P10": dict(pkg="p10", min_evaluations=8000,
                technique="runtime monitoring: reference-model checking of operation histories through every read method",
                note="Map model with independent conversions; every key read through all six read methods after every operation." + SEEN),
    "P11": dict(pkg="p11", min_evaluations=6000,
                technique="runtime monitoring: persister content compared with a model after every operation, restarts and fault injection, race detector",
                note="Both an observing persister and the real redis persister over an in-memory redis; faults on every persister call; parallel writers compared with the persister at rest." + SEEN),
    "P12": dict(pkg="p12", min_evaluations=6000,
                technique="runtime monitoring: trace checking of recorded load starts, ends and results in virtual and real time, race detector",
                note="A persister that records every load; virtual-time reads at exact boundary instants, crowds at shared instants, and real-time slow loads whose spacing is measured with the monotonic clock." + SEEN),
    "P13": dict(pkg="p13", min_evaluations=20000,
                technique="runtime monitoring: differential oracle per processor (independent grammars, exact arithmetic, ground truth by construction) under generated and mutated inputs, race detector",
                note="Domains written independently of the code except what a URL is (net/url) and RSA key encodings (crypto/x509); damaged keys that still parse are only required not to panic." + SEEN),
    "P14": dict(pkg="p14", min_evaluations=5000,
                technique="runtime monitoring: linearizability checking (porcupine) of recorded concurrent histories, race detector",
                note="Sequential specification of one key written independently of the store; loads are recorded as updates of their own. Schedules are those the Go scheduler produced with yields and sleeps inside every processor and persister call." + SEEN),
    "P15": dict(pkg="p15", min_evaluations=8000,
                technique="runtime monitoring: trace checking of recorded job starts and ends in virtual time, race detector",
                note="Exact instants (to the nanosecond) in virtual time; real scheduling latency is out of scope." + SEEN),
    "P16": dict(pkg="p16", min_evaluations=8000,
                technique="runtime monitoring: trace checking of recorded job starts in virtual time, race detector",
                note="Exact instants (to the nanosecond) in virtual time; real scheduling latency is out of scope." + SEEN),
    "P17": dict(pkg="p17", min_evaluations=8000,
                technique="runtime monitoring: trace checking of cancel instants and life-cycle results in virtual time, goroutine leak monitor, real-time stress, race detector",
                note="A job whose start was already decided when Stop was called may begin at the same instant." + SEEN),
    "P18": dict(pkg="p18", min_evaluations=20000,
                technique="runtime monitoring: model and linearizability checking of manager histories over observing tasks, job traces of real tasks in virtual time, race detector",
                note="Observing tasks report every start and stop; a registration that panics counts as failed." + SEEN),
    "P19": dict(pkg="p19", min_evaluations=12000, exit_violation="the program was ended although its configuration is valid",
                technique="runtime monitoring: generated struct types, files, environments and command lines with the resulting value of every field known by construction, race detector",
                note="Types come from reflect.StructOf plus a hand-written one for what reflection cannot make; names that collide by the convention, recursive types and help flags are excluded." + SEEN),
    "P20": dict(pkg="p20", min_evaluations=9000, exit_violation="the program was ended although its configuration is valid",
                technique="runtime monitoring: exact flag sets of generated types, exit status and output of child processes fed generated good and bad sources, race detector",
                note="One thing is wrong in each bad configuration and known by construction; help flags, colliding names and yaml numbers the yaml library converts (float to int) are excluded." + SEEN),
    "P21": dict(pkg="p21", min_evaluations=20000,
                technique="runtime monitoring: non-interference oracle (two runs differing only in credentials) and value oracle over every printed form, race detector",
                note="%#v and printing by value are not claimed." + SEEN),
    "P22": dict(pkg="p22", min_evaluations=900,
                technique="runtime monitoring: in-process MySQL, PostgreSQL, Oracle, Redis and HTTP servers record what clients present; model of the configuration as oracle, race detector",
                note="Fatal of the error logger is turned into a panic that is caught." + SEEN),
    "P23": dict(pkg="p23", min_evaluations=4000,
                technique="runtime monitoring: model oracle over real TLS handshakes at loopback servers, virtual-time traces of limits, race detector",
                note="Trust and peer certificates are known by construction of the certificates; the host roots are a file the monitor sets through SSL_CERT_FILE. CUSTOM mode without files is only required to refuse what host roots do not vouch for." + SEEN),
    "P24": dict(pkg="p24", min_evaluations=8000,
                technique="runtime monitoring: access oracle over the answers to generated raw HTTP requests, concurrent connections, race detector",
                note="A header is judged by comparing its decoded text with the configured pair; other spellings of the scheme or of base64 that still carry the right pair may be let in or not; users holding a colon cannot be carried by Basic auth and are only required not to open the door to others." + SEEN),
    "P25": dict(pkg="p25", min_evaluations=10000,
                technique="runtime monitoring: differential oracle (same scripted handlers with and without the middleware) and span oracle over a recording reporter, race detector",
                note="The status tag is not judged where a panic or an error is turned into a response outside the middleware; malformed propagation headers are only required to change nothing." + SEEN),
    "P26": dict(pkg="p26", min_evaluations=4000,
                technique="runtime monitoring: differential oracle (same scripts with and without the hook over a recording in-memory redis) and span oracle against a neighbouring hook's record, race detector",
                note="A nil reply may be marked as error or not. With two hooks only the number, names, peers and error marks of spans are judged." + SEEN),
    "P27": dict(pkg="p27", min_evaluations=10000,
                technique="runtime monitoring: span and header oracle over generated requests with a recording reporter, race detector",
                note="What a URL means is asked of the HTTP library itself." + SEEN),
    "P28": dict(pkg="p28", min_evaluations=30000,
                technique="runtime monitoring: round-trip and rejection oracles over generated, damaged and foreign encodings, race detector",
                note="Ground truth by construction; damaged input that still parses is compared with the standard library's reading of the data it holds." + SEEN),
    "P29": dict(pkg="p29", min_evaluations=3000,
                technique="runtime monitoring: race detector and crash oracle over randomised storms of every method of every shared component",
                note="Goroutines of a storm share nothing of the harness after the start. Sending on a bus being closed and LoadScript at the same time as limiting are excluded; the documented panics of Must methods are let through." + SEEN),
    "P30": dict(pkg="p30", min_evaluations=2000,
                technique="runtime monitoring: conservation and identity oracle over the records of in-process collectors (gRPC), faults, socket counting, race detector",
                note="What was finished is recorded on the way to the real reporter and compared with what the collectors got. Names are valid UTF-8; go2sky's SW_AGENT_* environment variables are unset." + SEEN),
    "P31": dict(pkg="p31", min_evaluations=600,
                technique="runtime monitoring: heap-object and goroutine accounting over long churns in virtual time, inspection of the redis stand-in after every call, race detector",
                note="Growth counts only if it shows in two consecutive measurements and exceeds one object per 6 uses; leaks slower than that are not seen." + SEEN),
    "P32": dict(pkg="p32", min_evaluations=6000,
                technique="runtime monitoring: in-process MySQL, PostgreSQL, Oracle, Redis and HTTP servers that refuse in chosen ways; outcome and printed text of every construction, race detector",
                note="Fatal of the loggers is turned into a panic that is caught. The passwords are looked for in what the loggers and the panics say." + SEEN),
    "P33": dict(pkg="p33", min_evaluations=20000,
                technique="runtime monitoring: texts rendered together with the value they mean, rejection and round-trip oracles, virtual-time clock oracle, race detector",
                note="What a text means is known by construction, not from a JSON library. A bare null, invalid UTF-8 and the choice of escapes in what is written are not judged." + SEEN),
}
NOT_APPLICABLE = {}
