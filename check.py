#!/usr/bin/env python3
"""Driver of the monitoring checks.

  check.py <ID> quick|thorough     run one property's check
  check.py all quick|thorough      run every check, one after another
  check.py replay <file>           run a recorded violation again
  check.py setup                   warm the build cache

The harness (Go, /verif/harness) is rebuilt from /repo's working tree on every
run. Exit 0: held on everything observed; 1: VIOLATION lines; 2: no verdict.
"""
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
# Development only: point the harness at a scratch copy and put results aside.
REPO = os.environ.get("VH_DEV_REPO", "/repo")
RESULTS = os.environ.get("VH_DEV_RESULTS", HERE)
RACE = {"C17", "C18", "C19", "C20", "C26", "C32"}
# properties whose cases run several goroutines: each shard gets more than one processor
CONC = RACE | {"C16"}
SHARDS = 8
TIMEOUT = {"quick": 780, "thorough": 3 * 3600}
# a shard's resident memory: a workload that passes it has run away (stays under 700 MB)
MEM_LIMIT = 2500 << 20
# the least a run must have observed for its silence to mean anything
MIN_EVENTS = 200

ASSUME = [
    "held on the executions this run produced and observed; nothing is claimed about other inputs or schedules",
    "the Go compiler and runtime (and, where used, its race detector) are right",
    "the reference models in /verif/harness are right",
]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1")
    e.setdefault("HOME", "/root")
    return e


def build(prop, tmp):
    """Builds the property's harness from /repo's working tree."""
    for f in ("go.mod", "go.sum"):
        txt = open(os.path.join(HARNESS, f)).read()
        if f == "go.mod" and REPO != "/repo":
            txt = txt.replace("=> /repo", "=> " + REPO)
        open(os.path.join(tmp, f), "w").write(txt)
    exe = os.path.join(tmp, "vh")
    cmd = ["go", "build", "-modfile=" + os.path.join(tmp, "go.mod"), "-tags", prop.lower(), "-o", exe]
    if prop in RACE:
        cmd.append("-race")
    cmd.append(".")
    p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("the harness does not build against /repo:\n" + p.stdout[-3000:])
    return exe


def known(prop):
    """Known findings: lines 'finding: property=<id> key=<key> match=<regexp> :: <what fails>'."""
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) match=(.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def race_blocks(tmp):
    res = []
    for f in sorted(glob.glob(os.path.join(tmp, "race.*"))):
        txt = open(f, errors="replace").read()
        for b in txt.split("=================="):
            if "WARNING: DATA RACE" in b:
                res.append(b.strip())
    return res


def run(prop, tier, seed, case=None, repeat=1, n=None):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vh_%s_" % prop)
    procs = []
    try:
        exe = build(prop, tmp)
        shards = 1 if case is not None else SHARDS
        for s in range(shards):
            env = goenv()
            env.update(VH_PROP=prop, VH_SEED=str(seed), VH_TIER=tier, VH_SHARD=str(s), VH_SHARDS=str(shards),
                       VH_OUT=os.path.join(tmp, "out%d" % s))
            for k in ("VH_CASE", "VH_REPEAT", "VH_N"):
                env.pop(k, None)
            if n is not None:
                env["VH_N"] = str(n)
            if case is not None:
                env.update(VH_CASE=str(case), VH_REPEAT=str(repeat))
            env["GOMAXPROCS"] = "4" if prop in CONC else "2"
            env["GOTRACEBACK"] = "all"
            if prop in RACE:
                env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(tmp, "race")
            err = open(os.path.join(tmp, "err%d" % s), "w")
            procs.append(subprocess.Popen([exe], cwd=tmp, env=env, stdout=err, stderr=err, start_new_session=True))
        end = time.time() + TIMEOUT[tier]
        big, peak = set(), 0
        while time.time() < end and any(p.poll() is None for p in procs):
            for i, p in enumerate(procs):
                m = rss(p)
                peak = max(peak, m)
                if m > MEM_LIMIT:
                    big.add(i)
                    stop([p])
            time.sleep(0.05)
        timed = [i for i, p in enumerate(procs) if p.poll() is None]
        stop(procs)
        r = collect(prop, tier, seed, tmp, procs, timed, big, t0)
        r["peak"] = peak >> 20
        return r
    finally:
        stop(procs)
        shutil.rmtree(tmp, ignore_errors=True)


def rss(p):
    """Resident memory of one of our own shards."""
    if p.poll() is not None:
        return 0
    try:
        with open("/proc/%d/statm" % p.pid) as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except (OSError, IndexError, ValueError):
        return 0


def stop(procs):
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()


def collect(prop, tier, seed, tmp, procs, timed, big, t0):
    r = dict(prop=prop, tier=tier, seed=seed, cases=0, events=0, planned=0, sigs=set(), counts={}, samples=[], fails=[], incon=[], rule="", slowest=(0, 0), errors=[], complete=True)
    for s, p in enumerate(procs):
        o = os.path.join(tmp, "out%d" % s)
        err = open(os.path.join(tmp, "err%d" % s), errors="replace").read()
        cur = None
        if os.path.exists(o + ".cur"):
            t = open(o + ".cur").read().strip()
            cur = int(t) if t else None
        if not os.path.exists(o):
            r["complete"] = False
            if s in timed:
                r["errors"].append("shard %d was stopped by the wall-clock watchdog (case %s)" % (s, cur))
                continue
            if s in big:
                r["fails"].append(dict(case=cur, key=prop + "/memory", msg="the workload's memory passed %d MB in this case (all cases together stay far below) and went on growing" % (MEM_LIMIT >> 20), desc=""))
                continue
            crash = re.search(r"^(panic:|fatal error:|SIG[A-Z]+:|unexpected fault)", err, re.M)
            if crash and "rossmerr/graphblas" in err[crash.start():]:
                r["fails"].append(dict(case=cur, key=prop + "/crash", msg="the process died inside the library: " + err[crash.start():][:3000], desc=""))
            else:
                r["errors"].append("shard %d ended with status %s and no result: %s" % (s, p.returncode, err[-1500:]))
            continue
        d = json.load(open(o))
        r["cases"] += d["cases"]
        r["planned"] += d["planned"]
        r["events"] += d["events"]
        r["slowest"] = max(r["slowest"], (d["slowest_ms"], d["slowest_case"]))
        r["rule"] = d["rule"]
        r["complete"] = r["complete"] and d["complete"]
        for k, v in (d["counts"] or {}).items():
            r["counts"][k] = r["counts"].get(k, 0) + v
        r["samples"] += (d["samples"] or [])[:1]
        r["fails"] += d["failures"] or []
        r["incon"] += d["inconclusive"] or []
        b = open(o + ".sig", "rb").read()
        r["sigs"].update(struct.unpack("<%dQ" % (len(b) // 8), b))
    blocks = race_blocks(tmp)
    seen = set()
    for b in blocks:
        fr = [f for f in re.findall(r"^  (\S+)\(", b, re.M)]
        if not any("rossmerr/graphblas" in f for f in fr):
            r["errors"].append("race report without library frames: " + b[:1500])
            continue
        lib = [f for f in fr if "rossmerr/graphblas" in f][:1]
        if tuple(lib) in seen:
            continue
        seen.add(tuple(lib))
        r["fails"].append(dict(case=None, key=prop + "/data-race", msg="the race detector reports:\n" + b[:3500], desc=""))
    r["races"] = len(blocks)
    r["wall"] = time.time() - t0
    return r


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    n = os.environ.get("VH_N_OVERRIDE")
    r = run(prop, tier, seed, n=n)
    viol, found = [], {}
    kf = known(prop)
    for f in r["fails"]:
        hit = None
        for key, rx, what in kf:
            if key == f["key"] and rx.search(f["msg"] + " " + f["desc"]):
                hit = what
        if hit:
            found[hit] = found.get(hit, 0) + 1
        else:
            viol.append(f)
    os.makedirs(os.path.join(RESULTS, "evidence"), exist_ok=True)
    cov = dict(evaluations=r["cases"], distinct_nontrivial=len(r["sigs"]), rule=r["rule"], samples=r["samples"][:6],
               monitor_observations=r["events"], observed=dict(sorted(r["counts"].items())), planned=r["planned"], peak_shard_mb=r["peak"], slowest_case_cpu_ms=r["slowest"][0], slowest_case=r["slowest"][1],
               race_detector=prop in RACE, race_reports=r["races"], inconclusive_cases=len(r["incon"]))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUME,
              wall_s=round(r["wall"], 2), violations=len(viol))
    tmpf = os.path.join(RESULTS, "evidence", "%s.json.tmp" % prop)
    json.dump(ev, open(tmpf, "w"), indent=1)
    os.replace(tmpf, os.path.join(RESULTS, "evidence", prop + ".json"))
    for what in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viol:
        os.makedirs(os.path.join(RESULTS, "replays"), exist_ok=True)
        bykey = {}
        for f in viol:
            bykey.setdefault(f["key"], f)
        for i, (k, f) in enumerate(sorted(bykey.items(), key=lambda kv: str(kv[0]))[:6]):
            path = os.path.join(RESULTS, "replays", "%s-%s-%d.json" % (prop, tier, i))
            json.dump(dict(property=prop, tier=tier, seed=seed, **f), open(path, "w"), indent=1)
            print("%s [%s] case %s: %s" % (prop, f["key"], f["case"], f["msg"][:1200]))
            if f.get("desc"):
                print("   workload: " + f["desc"][:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if r["errors"] or not r["complete"]:
        die("%s: no verdict: %s" % (prop, "; ".join(r["errors"]) or "workload incomplete"))
    if r["cases"] == 0 or r["events"] < MIN_EVENTS:
        die("%s: the monitors observed too little (%d cases, %d events)" % (prop, r["cases"], r["events"]))
    if len(r["incon"]) * 10 > r["cases"]:
        die("%s: too many inconclusive cases: %s" % (prop, r["incon"][:3]))
    print("OK property=%s tier=%s cases=%d distinct=%d observations=%d wall=%.1fs" % (prop, tier, r["cases"], len(r["sigs"]), r["events"], r["wall"]))
    return 0


def replay(path):
    f = json.load(open(path))
    if f.get("case") is None:  # only the detector saw it: run the workload again
        r = run(f["property"], f["tier"], f["seed"])
    else:
        rep = 200 if f["property"] in CONC else 1
        r = run(f["property"], f["tier"], f["seed"], case=f["case"], repeat=rep)
    for x in r["fails"][:3]:
        print("reproduced [%s]: %s\n   workload: %s" % (x["key"], x["msg"], x["desc"]))
    if r["fails"]:
        print("VIOLATION property=%s replay=%s" % (f["property"], path))
        return 1
    print("not reproduced")
    return 0


def ids():
    return [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]


def main():
    a = sys.argv[1:]
    if len(a) == 1 and a[0] == "setup":
        for p in ids():
            if not glob.glob(os.path.join(HARNESS, p.lower() + "*.go")):
                continue
            tmp = tempfile.mkdtemp(prefix="vh_setup_")
            try:
                build(p, tmp)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        print("setup done")
        return 0
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) != 2 or a[1] not in TIMEOUT:
        die("usage: check.py <ID>|all quick|thorough | replay <file> | setup")
    if a[0] == "all":
        return max([check_safe(p, a[1]) for p in ids() if glob.glob(os.path.join(HARNESS, p.lower() + "*.go"))])
    return check(a[0], a[1])


def check_safe(p, tier):
    try:
        return check(p, tier)
    except SystemExit as e:
        return e.code


sys.exit(main())
