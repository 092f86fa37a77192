#!/usr/bin/env python3
"""Check driver.  usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--keep]

Builds the monitors of one property against the headers of the working tree in
/repo, runs them, and turns what they observed into a verdict:
  exit 0  the property held on everything explored
  exit 1  and a line "VIOLATION property=<id> replay=<path>"
  exit 2  no verdict (build failure, harness trouble, inconclusive timeout)
"""
import sys, os, re, json, time, shutil, subprocess, struct, threading, resource, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import plan

def log(*a):
    print(*a, flush=True)

def args():
    prop, tier, seed, keep, only = None, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), False, None
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--keep": keep = True
        elif x == "--only": only = a.pop(0)
        elif x == "--selfcheck": pass
        else: prop = x
    return prop, tier, seed, keep, only

def load_known():
    """known findings: lines 'finding: property=<id> match=<regex> <description>'.
    'fixed:' lines are a record only and suppress nothing."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+match=(\S+)\s+(.*)", l)
            if m: out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out

def sanitizer_key(text):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m: return "asan:" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", text)
    if m: return "tsan:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]+)", text)
    if m: return "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)).strip().replace(" ", "-")[:60]
    m = re.search(r"Assertion .*? failed", text)
    if m: return "assert"
    m = re.search(r"==\d+== (Invalid \w+ of size \d+|Conditional jump[^\n]*|Use of uninit[^\n]*)", text)
    if m: return "memcheck:" + m.group(1).replace(" ", "-")
    return None

class Run:
    pass

def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        os.setpgid(0, 0)
    return f

BLOCKED_S = 90   # no CPU time at all for this long: the process waits for itself

def cpu_ticks(pid):
    """CPU time of the process and its threads, coarse"""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) // 5
    except Exception: return None

def execute(cmd, env, cpu, wall):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=limits(cpu))
    to, last, since = False, None, time.time()
    while True:
        try:
            o, e = p.communicate(timeout=5)
            break
        except subprocess.TimeoutExpired:
            cpu_now = cpu_ticks(p.pid)
            if cpu_now != last: last, since = cpu_now, time.time()
            if time.time() - since > BLOCKED_S: to = "blocked"
            elif time.time() - t > wall: to = "wall"
            else: continue
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: p.kill()
            o, e = p.communicate()
            break
    return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), to, time.time() - t

def selfcheck():
    """setup: nothing is built ahead, since every check compiles /repo's working tree; only see that what the checks need is there"""
    for c in ("clang++", "g++", "valgrind"):
        if not shutil.which(c): log("missing tool", c); sys.exit(2)
    for p, s in plan.PLAN.items():
        for j in s["jobs"]:
            if not os.path.exists(os.path.join(HERE, "harness", j["src"])): log("missing", j["src"]); sys.exit(2)
    load_known()
    log("ok: %d checks" % len(plan.PLAN))

def main():
    prop, tier, seed, keep, only = args()
    if "--selfcheck" in sys.argv: return selfcheck()
    t0 = time.time()
    spec = plan.PLAN[prop]
    work = os.path.join(HERE, "build", "%s-%d" % (prop, os.getpid()))
    replays = os.path.join(HERE, "replays", prop)
    os.makedirs(work, exist_ok=True)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(replays, exist_ok=True)
    try:
        rc = check(prop, tier, seed, spec, work, replays, only, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
            try: os.rmdir(os.path.join(HERE, "build"))
            except OSError: pass
    sys.exit(rc)

def check(prop, tier, seed, spec, work, replays, only, t0):
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    if only: jobs = [j for j in jobs if re.search(only, j["name"])]
    # ---- builds (unique command lines), most expensive first
    bins = {}
    for j in jobs:
        cmd = plan.build_cmd(j, tier, REPO, HERE)
        k = json.dumps(cmd)
        if k not in bins: bins[k] = os.path.join(work, "b%d" % len(bins))
        j["_bin"], j["_key"] = bins[k], k
    built, trouble, nobuild = {}, [], []
    def build(k):
        cmd = [c.replace("@OUT@", bins[k]) for c in json.loads(k)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return k, p.returncode, p.stdout.decode("utf8", "replace")
    # ---- runs
    results, lock = [], threading.Lock()
    env = dict(os.environ)
    env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=77:halt_on_error=1",
               TSAN_OPTIONS="halt_on_error=1:exitcode=77:second_deadlock_stack=1")
    def one(j, shard, shards, stem):
        cases = j["cases"][0 if tier == "quick" else 1]
        per = (cases + shards - 1) // shards
        st = os.path.join(work, stem + ".json")
        cmd = list(j.get("wrap", [])) + [j["_bin"], "--prop", prop, "--cfg", j["name"], "--seed", str(seed),
               "--cases", str(per), "--start", str(shard * per), "--out", replays, "--stats", st] + [str(x) for x in j.get("args", [])]
        cpu = j.get("cpu", 150 if tier == "quick" else 3000)
        wall = j.get("wall", 400 if tier == "quick" else 6000)
        e2 = dict(env); e2.update(j.get("env", {}))
        for attempt in (1, 2):
            rc, o, e, to, dt = execute(cmd, e2, cpu, wall)
            r = Run(); r.job, r.shard, r.rc, r.out, r.err, r.timeout, r.dt, r.stats, r.cmd = j, shard, rc, o, e, to, dt, st, cmd
            hung = to or rc in (-signal.SIGXCPU, -signal.SIGKILL)
            if not hung: break
        r.hung = hung
        return r
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as pool:
        order = sorted(bins, key=lambda k: -max(j.get("weight", 1) for j in jobs if j["_key"] == k))
        fut = {pool.submit(build, k): ("build", k) for k in order}
        pending, serial = set(fut), []
        while pending:
            done = next(as_completed(pending)); pending.discard(done)
            kind = fut[done][0]
            if kind == "build":
                k, rc, text = done.result()
                if rc != 0:
                    nm = [j["name"] for j in jobs if j["_key"] == k]
                    if rc > 0 and any(j.get("must_build") for j in jobs if j["_key"] == k) and re.search(r"multi_index\S*\.hpp:\d+:\d+: error", text):
                        nobuild.append((nm, k, text))
                        continue
                    trouble.append("build of %s failed:\n%s" % (",".join(nm), text[-3000:]))
                    continue
                for n, j in enumerate(jobs):
                    if j["_key"] != k: continue
                    sh = j.get("shards", 1) if tier == "quick" else j.get("shards_thorough", max(4, j.get("shards", 1)))
                    for s in range(sh):
                        f = pool.submit(one, j, s, sh, "j%d-%d" % (n, s))
                        fut[f] = ("run", j); pending.add(f)
            else:
                results.append(done.result())
    # ---- verdicts
    known = load_known()
    violations, notes, knownhits = [], [], []
    digests = {}
    for nm, k, text in nobuild: # a valid program which the library no longer lets through, while it does others
        if not results: trouble.append("build of %s failed:\n%s" % (",".join(nm), text[-3000:])); continue
        path = os.path.join(replays, "%s-%s-build.replay" % (prop, nm[0]))
        open(path, "w").write("property=%s\nkey=build\ncommand=%s\n%s\n" % (prop, k, text[:20000]))
        violations.append(("build", path, nm[0] + ": an error within the library when a valid use is compiled"))
    for r in results:
        for f in re.finditer(r"MONITOR-FINDING key=(\S+) replay=(\S+) msg=(.*)", r.out):
            violations.append((f.group(1), f.group(2), r.job["name"] + ": " + f.group(3)))
        m = re.search(r"MONITOR-VIOLATION key=(\S+) replay=(\S+) msg=(.*)", r.out)
        if m:
            violations.append((m.group(1), m.group(2), r.job["name"] + ": " + m.group(3)))
        elif "HARNESS-ERROR" in r.out:
            trouble.append("%s shard %d: %s" % (r.job["name"], r.shard, r.out[-500:]))
        elif r.hung:
            if r.timeout == "blocked":
                path = os.path.join(replays, "%s-%s-%d-deadlock.replay" % (prop, r.job["name"], r.shard))
                open(path, "w").write("property=%s\nkey=deadlock\ncommand=%s\n" % (prop, " ".join(r.cmd)))
                violations.append(("deadlock", path, r.job["name"] + ": blocked without using any CPU time, twice"))
            elif r.rc != -signal.SIGXCPU:
                trouble.append("%s shard %d: inconclusive, stopped twice (rc %s)" % (r.job["name"], r.shard, r.rc))
            else:
                # a CPU-time limit of many times the usual cost, reached twice
                path = os.path.join(replays, "%s-%s-%d-hang.replay" % (prop, r.job["name"], r.shard))
                open(path, "w").write("property=%s\nkey=hang\ncommand=%s\n" % (prop, " ".join(r.cmd)))
                violations.append(("hang", path, r.job["name"] + ": CPU-time limit exceeded twice"))
        elif r.rc != 0 or "DONE " not in r.out:
            key = sanitizer_key(r.err + r.out) or "crash:rc%d" % r.rc
            cand = sorted((os.path.join(replays, f) for f in os.listdir(replays) if f.startswith("%s-%s-s" % (prop, r.job["name"]))), key=os.path.getmtime)
            path = os.path.join(replays, "%s-%s-%d-crash.replay" % (prop, r.job["name"], r.shard))
            with open(path, "w") as f:
                f.write("property=%s\nkey=%s\ncommand=%s\n--- stderr ---\n%s\n" % (prop, key, " ".join(r.cmd), r.err[-8000:]))
                if cand: f.write("--- history: see %s\n" % cand[-1])
            if key == "crash:rc126" or key == "crash:rc127":
                trouble.append("%s: could not run: %s" % (r.job["name"], r.err[-500:]))
            else:
                violations.append((key, path, r.job["name"] + ": " + (r.err.strip().splitlines() or ["?"])[0][:300]))
        for d in re.finditer(r"DIGEST (\S+) (\S+)", r.out):
            digests.setdefault((d.group(1)), {}).setdefault(d.group(2), []).append((r.job["name"], r.shard))
    for name, by in sorted(digests.items()):
        if len(by) > 1:
            path = os.path.join(replays, "%s-digest-%s.replay" % (prop, re.sub(r"\W", "_", name)))
            open(path, "w").write("property=%s\nkey=config-digest\n%s\n" % (prop, json.dumps({k: v for k, v in by.items()}, indent=1)))
            violations.append(("config-digest", path, "history %s gives different observations in different configurations" % name))
    # ---- coverage
    ev, counters, samples, distinct = 0, {}, [], set()
    jobcov = {}
    for r in results:
        try: s = json.load(open(r.stats))
        except Exception: continue
        ev += s["evaluations"]
        for k, v in s["counters"].items(): counters[k] = counters.get(k, 0) + v
        if len(samples) < 5 and s["samples"]: samples.append({"config": r.job["name"], "case": s["samples"][0][:1500]})
        jc = jobcov.setdefault(r.job["name"], {"evaluations": 0, "shards": 0})
        jc["evaluations"] += s["evaluations"]; jc["shards"] += 1
        try:
            b = open(r.stats + ".distinct", "rb").read()
            for (h,) in struct.iter_unpack("<Q", b): distinct.add(h)
        except Exception: pass
    if digests: counters["digests-compared"] = sum(len(v) for by in digests.values() for v in by.values())
    if not trouble:
        if ev == 0: trouble.append("the monitors observed nothing")
        for c, least in spec.get("require", {}).items():
            if not only and counters.get(c, 0) < least:
                trouble.append("coverage floor: counter %s is %d, at least %d expected" % (c, counters.get(c, 0), least))
    fresh = []
    for v in violations:
        hit = [d for (p, rx, d) in known if p == prop and rx.search(v[0] + " " + v[2])]
        if hit: knownhits.append((v, hit[0]))
        else: fresh.append(v)
    wall = time.time() - t0
    evid = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
            "coverage": {"evaluations": ev, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
                         "samples": samples or [{"note": "no sample recorded"}], "counters": dict(sorted(counters.items())),
                         "configurations": jobcov},
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 1),
            "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(evid, f, indent=1)
    for d in sorted(set(d for (v, d) in knownhits)): log("KNOWN-FINDING: property=%s %s" % (prop, d))
    if tier == "quick" and not fresh:
        slow = sorted(results, key=lambda r: -r.dt)[:3]
        log("slowest shards: " + ", ".join("%s/%d %.0fs" % (r.job["name"], r.shard, r.dt) for r in slow))
    log("%s %s seed=%d: %d runs, %d evaluations, %d distinct, %.0fs" % (prop, tier, seed, len(results), ev, len(distinct), wall))
    if fresh:
        for k, p, m in fresh[:5]: log("  %s: %s" % (k, m[:600]))
        log("VIOLATION property=%s replay=%s" % (prop, fresh[0][1]))
        return 1
    if trouble:
        for t in trouble: log("TROUBLE " + t)
        return 2
    return 0

if __name__ == "__main__":
    main()
