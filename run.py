#!/usr/bin/env python3
"""Driver of the checks:  run.py <property> [--only group/index]

Builds the monitor of one property from the working tree of /repo, runs it in
parallel shards, merges what the shards observed, writes
evidence/<property>.json and gives the verdict:

  exit 0   the property held on everything explored
  exit 1   VIOLATION property=<id> replay=<path>   (path holds the witness)
  exit 2   no verdict (build failure, harness trouble, inconclusive run)
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GEARS = "github.com/chanjarster/gears/"
GOROOT = "/opt/veriftools/go1.27.3"
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def goenv():
    e = dict(os.environ)
    gobin = GOROOT + "/bin"
    if not os.path.isdir(gobin):
        p = shutil.which("go")
        gobin = os.path.dirname(os.path.realpath(p)) if p else gobin
    e["PATH"] = gobin + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOSUMDB="off",
             GOFLAGS="-mod=mod", CGO_ENABLED="1", LC_ALL="C", TZ="UTC")
    for k in ("INTEGRATION_TEST", "GODEBUG", "GORACE", "GOTRACEBACK", "GOMAXPROCS", "GOEXPERIMENT"):
        e.pop(k, None)
    return e


def build(pkg, race, work, env):
    """go test -c of one monitor package against REPO's working tree."""
    mod = os.path.join(work, "h.mod")
    with open(os.path.join(VERIF, "harness", "go.mod")) as f:
        s = f.read()
    s = re.sub(r"(replace github.com/chanjarster/gears => )\S+", r"\g<1>" + REPO, s)
    with open(mod, "w") as f:
        f.write(s)
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(work, "h.sum"))
    out = os.path.join(work, "bin_" + pkg + ("_race" if race else ""))
    cmd = ["go", "test", "-c", "-modfile=" + mod, "-o", out, "-vet=off"]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print("BUILD FAILED: " + " ".join(cmd))
        print(p.stdout[-8000:])
        return None
    return out


def frames(stack):
    """[(function, file)] of one goroutine stack in Go's crash or race format."""
    out = []
    lines = stack.split("\n")
    for i, l in enumerate(lines):
        m = re.match(r"^\s+(/\S+\.(?:go|s)):\d+", l)
        if m and i > 0:
            fn = lines[i - 1].strip()
            out.append((fn, m.group(1)))
    return out


def owner(stack):
    """Who performed the access: the first frame outside the Go runtime,
    standard library and third-party modules ('gears', 'harness' or '')."""
    for fn, f in frames(stack):
        if f.startswith(REPO + "/") or fn.startswith(GEARS):
            return "gears"
        if f.startswith(VERIF + "/") or fn.startswith("verif/harness"):
            return "harness"
    return ""


def norm(fn):
    fn = re.sub(r"\(0x[^)]*\)|\(\)$|\(\{.*$|\(\.\.\..*$", "", fn)
    return fn.replace(GEARS, "")


def race_reports(prefix):
    """Race reports: (signature, owner, text)."""
    out = []
    d, base = os.path.split(prefix)
    for name in sorted(os.listdir(d)):
        if not name.startswith(base):
            continue
        with open(os.path.join(d, name), errors="replace") as f:
            txt = f.read()
        for block in txt.split("=================="):
            if "WARNING: DATA RACE" not in block:
                continue
            parts = re.split(r"\n\n", block)
            acc = [p for p in parts if re.search(r"(Read|Write|read|write).* by (main )?goroutine|Previous", p)][:2]
            owners = [owner(p) for p in acc]
            tops = []
            for p in acc:
                fr = [norm(fn) for fn, f in frames(p) if f.startswith(REPO + "/") or fn.startswith(GEARS)]
                tops.append(fr[0] if fr else "?")
            own = "gears" if "gears" in owners else ("harness" if "harness" in owners else "other")
            out.append(("data race: " + " / ".join(sorted(set(tops))), own, block.strip()))
    return out


def crash(stderr, rc):
    """(kind, signature, text): kind is 'violation' or 'inconclusive'."""
    m = re.search(r"^(panic: |fatal error: |SIGSEGV|unexpected fault|runtime: goroutine stack exceeds)", stderr, re.M)
    if not m:
        return "inconclusive", "monitor ended with status %s" % rc, stderr[-4000:]
    txt = stderr[m.start():]
    msg = txt.split("\n", 1)[0]
    gs = re.split(r"\n\n(?=goroutine )", txt)
    first = next((g for g in gs if re.search(r"^goroutine \d+", g, re.M)), txt)
    if "test timed out" in msg:
        return "inconclusive", "go test timeout", txt[:6000]
    msgsig = re.sub(r"0x[0-9a-f]+|\d+", "N", msg)
    if "deadlock" in msg:
        if any(GEARS in g for g in gs):
            return "violation", "crash: " + msgsig, txt[:8000]
        return "inconclusive", msgsig, txt[:6000]
    if GEARS in first or owner(first) == "gears":
        return "violation", "crash: " + msgsig, txt[:8000]
    return "inconclusive", "crash outside the library: " + msgsig, txt[:6000]


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"^known: property=(\S+) sig=/(.*)/ (.*)$", l.rstrip("\n"))
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=cache)
    try:
        rc = run(pid, chk, tier, seed, only, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, chk, tier, seed, only, work, t0):
    env = goenv()
    race = chk.get("race", True)
    binp = build(chk["pkg"], race, work, env)
    if binp is None:
        return 2
    tb = time.time() - t0
    shards = 1 if only else chk.get("shards", 8)
    limit = chk.get("limit", 700) if tier == "quick" else chk.get("limit_thorough", 6 * 3600)
    procs = []
    for i in range(shards):
        d = os.path.join(work, "s%d" % i)
        os.makedirs(d)
        e = dict(env)
        e.update(VERIF_OUT=os.path.join(d, "out.json"), VERIF_SHARD="%d/%d" % (i, shards),
                 VERIF_CUR=os.path.join(d, "cur"), VERIF_TIER=tier, VERIF_SEED=str(seed),
                 VERIF_SCRATCH=d, GOTRACEBACK="all", VERIF_DIR=VERIF,
                 GORACE="log_path=%s halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2" % os.path.join(d, "race"))
        e["TMPDIR"] = d
        if only:
            e["VERIF_ONLY"] = only
        if chk.get("maxprocs"):
            e["GOMAXPROCS"] = str(chk["maxprocs"])
        so, se = open(os.path.join(d, "stdout"), "wb"), open(os.path.join(d, "stderr"), "wb")
        p = subprocess.Popen([binp, "-test.timeout=%ds" % (limit + 60)] + chk.get("args", []), cwd=d, env=e,
                             stdout=so, stderr=se, stdin=subprocess.DEVNULL, start_new_session=True)
        procs.append((p, d))
    viol, inconc, merged = [], [], dict(ev=0, rules=[], samples=[], counters={})
    keys = set()
    deadline = time.time() + limit
    for p, d in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            inconc.append("shard %s exceeded %ds" % (os.path.basename(d), limit))
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    for p, d in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)  # leftovers of the shard
        except (ProcessLookupError, PermissionError):
            pass
        r = None
        try:
            with open(os.path.join(d, "out.json")) as f:
                r = json.load(f)
        except (OSError, ValueError):
            pass
        cur = ""
        try:
            with open(os.path.join(d, "cur")) as f:
                cur = f.read().strip()
        except OSError:
            pass
        if r:
            merged["ev"] += r.get("evaluations", 0)
            for x in r.get("rules") or []:
                if x not in merged["rules"]:
                    merged["rules"].append(x)
            merged["samples"] += r.get("samples") or []
            for k, v in (r.get("counters") or {}).items():
                if k.startswith("max_"):
                    merged["counters"][k] = max(v, merged["counters"].get(k, 0))
                elif k != "test_exit_code":
                    merged["counters"][k] = merged["counters"].get(k, 0) + v
            viol += r.get("violations") or []
            inconc += r.get("inconclusive") or []
        try:
            with open(os.path.join(d, "out.json.keys"), "rb") as f:
                b = f.read()
            keys.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
        nrace = 0
        if race:
            for sig, own, txt in race_reports(os.path.join(d, "race")):
                nrace += 1
                if own == "gears":
                    viol.append(dict(sig=sig, detail=txt[:6000], case=cur))
                else:
                    inconc.append("race outside the library (%s): %s" % (own, txt[:3000]))
        if not r or not r.get("done"):
            if p.returncode == -signal.SIGKILL and any(x.startswith("shard") for x in inconc):
                continue
            with open(os.path.join(d, "stderr"), errors="replace") as f:
                err = f.read()
            with open(os.path.join(d, "stdout"), errors="replace") as f:
                err = err + "\n" + f.read()
            kind, sig, txt = crash(err, p.returncode)
            if kind != "violation" and p.returncode == 2 and chk.get("exit_violation") and sig.startswith("monitor ended"):
                kind, sig = "violation", chk["exit_violation"]
            if kind == "violation":
                viol.append(dict(sig=sig, detail=txt, case=cur))
            else:
                inconc.append(sig + " (case %s): %s" % (cur, txt))
        elif (r.get("counters") or {}).get("test_exit_code") and not nrace and not r.get("violations"):
            with open(os.path.join(d, "stdout"), errors="replace") as f:
                inconc.append("test failed without a recorded violation: " + f.read()[-3000:])

    kf = known_findings(pid)
    new, seen_known = [], {}
    for v in viol:
        hit = next((k for k in kf if re.search(k[0], v["sig"])), None)
        if hit:
            seen_known[hit[1]] = seen_known.get(hit[1], 0) + 1
        else:
            new.append(v)
    wall = time.time() - t0
    minimum = chk.get("min_evaluations", 1)
    if not only and not new and merged["ev"] < minimum:
        inconc.append("only %d cases observed, expected at least %d" % (merged["ev"], minimum))
    ev = dict(property=pid, tier=tier, seed=seed, level=chk.get("level", "exploration"),
              coverage=dict(evaluations=merged["ev"], distinct_nontrivial=len(keys),
                            rule=" || ".join(merged["rules"]) or chk.get("rule", ""),
                            samples=merged["samples"][:12],
                            observed=dict(sorted(merged["counters"].items())),
                            shards=shards, race_detector=bool(race), build_s=round(tb, 1),
                            inconclusive=len(inconc)),
              assumptions=chk.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for what in kf:
        # a listed finding is announced whenever it shows in this run
        if what[1] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, what[1]))
    print("%s: %d cases, %d distinct, %d violations, %d inconclusive, %.1fs (build %.1fs) %s" % (
        pid, merged["ev"], len(keys), len(new), len(inconc), wall, tb, json.dumps(ev["coverage"]["observed"])))
    if new:
        rd = os.path.join(VERIF, ".cache", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d-%d.json" % (pid, seed, os.getpid()))
        with open(path, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, violations=new,
                           replay="VERIF_SEED=%d VERIF_TIER=%s python3 %s/run.py %s --only %s" % (
                               seed, tier, VERIF, pid, new[0].get("case") or "''")), f, indent=1)
        seen = set()
        for v in new:
            if v["sig"] in seen:
                continue
            seen.add(v["sig"])
            print("  %s [%s]" % (v["sig"], v.get("case", "")))
            if len(seen) <= 3:
                d = v["detail"] if isinstance(v["detail"], str) else json.dumps(v["detail"])
                print("    " + d[:1500].replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if inconc:
        for x in inconc[:5]:
            print("INCONCLUSIVE: " + x[:4000])
        return 2
    return 0


if __name__ == "__main__":
    main()
