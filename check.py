#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property by model checking /repo's current tree.

Builds an instrumented copy of /repo in a scratch directory, runs the property's explorations in
parallel, writes evidence/<id>.json and replays/<id>-*.json.  Exit 0: held on everything explored;
1: violation (line VIOLATION property=... replay=...); 2: error of the check.
"""
import sys, os, json, time, subprocess, tempfile, shutil, threading, hashlib, signal, atexit

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKGS = ["./plugin/...", "./zpages", "./exporter/...", "./resource/...", "./metric/...", "./stats/...", "./tag/...", "./trace/..."]
# property -> (harness group, variants)
GROUPS = json.load(open(os.path.join(HERE, "mc", "groups.json")))
NPROC = max(2, min(8, os.cpu_count() or 2))

def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT="/opt/veriftools/go1.27.3", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly -buildvcs=false")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = e["GOROOT"] + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("GOOS", "GOARCH", "CGO_ENABLED"):
        e.pop(k, None)
    return e

class CheckError(Exception):
    pass

def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout

def overlay(scratch, env):
    """A sync.Pool that keeps nothing, for the standard library of the race binaries: the real one drops
    objects at random there, and what it keeps orders threads that are not ordered (fmt uses it)."""
    src = os.path.join(env["GOROOT"], "src", "sync", "pool.go")
    s = open(src).read()
    for a, b in (("		if runtime_randn(4) == 0 {", "		if true {"),
                 ("	if race.Enabled {\n		race.Disable()\n	}\n	l, pid := p.pin()", "	if race.Enabled {\n		if p.New != nil {\n			return p.New()\n		}\n		return nil\n	}\n	l, pid := p.pin()")):
        if s.count(a) != 1:
            raise CheckError("sync/pool.go is not as expected")
        s = s.replace(a, b)
    d = os.path.join(scratch, "overlay")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "pool.go"), "w").write(s)
    json.dump({"Replace": {src: os.path.join(d, "pool.go")}}, open(os.path.join(d, "overlay.json"), "w"))
    return os.path.join(d, "overlay.json")

def build(scratch, group, variants):
    env = goenv()
    rw = os.path.join(scratch, "rewrite")
    run(["go", "build", "-trimpath", "-o", rw, "."], os.path.join(HERE, "mc", "rewrite"), env, "building the rewriter")
    tree = os.path.join(scratch, "tree")
    os.makedirs(tree)
    run([rw, "-src", REPO, "-dst", tree] + PKGS, REPO, env, "instrumenting the current tree")
    shutil.copytree(os.path.join(HERE, "mc", "vsched"), os.path.join(tree, "internal", "vsched"))
    shutil.copytree(os.path.join(HERE, "mc", "vh"), os.path.join(tree, "internal", "vh"))
    shutil.copytree(os.path.join(HERE, "mc", "h"), os.path.join(tree, "internal", "vharness"))
    bins, errs, ths = {}, [], []
    def one(v):
        out = os.path.join(scratch, group + "." + v)
        cmd = ["go", "build", "-trimpath", "-gcflags=go.opencensus.io/...=-lang=go1.21"]
        e = dict(env)
        if v == "race":
            # packages compiled without race instrumentation must not use allocators that skip the race runtime:
            # stale shadow memory would show as a race that is none
            e["GOEXPERIMENT"] = "nosizespecializedmalloc"
            cmd += ["-race", "-overlay", overlay(scratch, env), "-gcflags=go.opencensus.io/internal/vsched/...=-lang=go1.21 -race=false -l", "-gcflags=go.opencensus.io/internal/vsched/vatomic=-lang=go1.21", "-gcflags=go.opencensus.io/internal/vsched/vruntime=-lang=go1.21"]
        try:
            run(cmd + ["-o", out, "./internal/vharness/" + group], tree, e, "building the harness (%s)" % v)
            bins[v] = out
        except CheckError as e:
            errs.append(e)
    for v in variants:
        t = threading.Thread(target=one, args=(v,)); t.start(); ths.append(t)
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    return bins

class Job:
    def __init__(self, task, shard, bin):
        self.task, self.shard, self.bin = task, shard, bin
        self.out = self.err = None

def run_job(job, scratch, prop, tier, limit, extra=(), env=None, tag=""):
    base = os.path.join(scratch, "job-%s-%d%s" % (job.task["Name"].replace("/", "_"), job.shard, tag))
    cmd = [job.bin, "-prop", prop, "-task", job.task["Name"], "-tier", tier, "-shard", "%d/%d" % (job.shard, job.task["Shards"]),
           "-deadline", "%.1f" % limit, "-out", base + ".json"] + list(extra)
    if not job.task.get("Seq") and not extra and job.task["Shards"] > 1:
        cmd += ["-cache", os.path.join(scratch, "states-" + job.task["Name"].replace("/", "_"))]
    e = dict(env or goenv())
    e["GORACE"] = "exitcode=0 atexit_sleep_ms=0"
    e["GOMEMLIMIT"] = "3GiB"
    with open(base + ".err", "wb") as ef:
        p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=ef, cwd=scratch)
        try:
            rc = p.wait(timeout=limit + 150)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            rc = "hang"
    err = open(base + ".err", "rb").read()[:200000].decode("utf8", "replace")
    res = None
    if rc == 0 and os.path.exists(base + ".json"):
        res = json.load(open(base + ".json"))
    elif rc == "hang":
        res = {"Task": job.task["Name"], "Kind": "process", "Fail": "an execution of the harness does not terminate", "Case": "", "Choices": []}
    elif "fatal error:" in err or "stack overflow" in err or "panic:" in err:
        res = {"Task": job.task["Name"], "Kind": "process", "Fail": "the harness process died: " + err[-4000:], "Case": "", "Choices": []}
    if res is None:
        raise CheckError("task %s shard %d exited with %s:\n%s" % (job.task["Name"], job.shard, rc, err[-4000:]))
    res["_err"] = err
    return res

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    total = float(os.environ.get("VERIF_BUDGET", "200" if tier == "quick" else "660"))
    scratch = tempfile.mkdtemp(prefix="vmc-%s-" % prop)
    def cleanup(*a):
        shutil.rmtree(scratch, ignore_errors=True)
        if a:
            os._exit(2)
    atexit.register(cleanup)
    signal.signal(signal.SIGTERM, cleanup)
    g = GROUPS[prop]
    bins = build(scratch, g["group"], g["variants"])
    tb = time.time() - t0
    anybin = bins.get("plain") or bins["race"]
    tasks = json.loads(subprocess.run([anybin, "-list", "-prop", prop, "-tier", tier], stdout=subprocess.PIPE, check=True).stdout)
    if only:
        tasks = [t for t in tasks if t["Name"] == only]
    if not tasks:
        raise CheckError("no tasks for " + prop)
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("status") == "known" and k["property"] == prop]
    env = goenv()
    env["VH_KNOWN"] = "\x1f".join(k["match"] for k in known)
    jobs = []
    for t in tasks:
        v = "race" if t["Race"] else "plain"
        for s in range(t["Shards"]):
            jobs.append(Job(t, s, bins[v]))
    jobs.sort(key=lambda j: -j.task.get("Weight", 0))
    queue, lock, results, errors = list(jobs), threading.Lock(), [], []
    stop = threading.Event()
    tstart = time.time()
    def worker():
        while not stop.is_set():
            with lock:
                if not queue:
                    return
                left = len(queue)
                j = queue.pop(0)
                rem = max(3.0, total - (time.time() - tstart))
                limit = max(3.0, rem / ((left + NPROC - 1) // NPROC))
            try:
                r = run_job(j, scratch, prop, tier, limit, env=env)
            except CheckError as e:
                errors.append(e); stop.set(); return
            with lock:
                results.append((j, r))
            if r.get("Fail"):
                stop.set()
            if r.get("Div"):
                errors.append(CheckError("harness error in %s: %s" % (j.task["Name"], r["Div"]))); stop.set()
    ths = [threading.Thread(target=worker) for _ in range(NPROC)]
    for t in ths: t.start()
    for t in ths: t.join()
    viol = [(j, r) for j, r in results if r.get("Fail")]
    if not viol and errors:
        raise errors[0]
    # aggregate
    agg = {}
    for j, r in results:
        a = agg.setdefault(j.task["Name"], {"kind": r.get("Kind"), "executions": 0, "transitions": 0, "states": 0, "by_deviation_bound": [],
                                            "bound": r.get("Bound"), "bound_completed": None, "complete": True, "outcomes": {}, "max_choice_depth": 0, "cut_at_known_state": 0, "all_schedules": True, "shards": 0, "samples": [], "wall_s": 0})
        a["executions"] += r.get("Execs", 0); a["transitions"] += r.get("Steps", 0); a["states"] += r.get("States", 0)
        a["shards"] += 1; a["cut_at_known_state"] += r.get("Cut", 0)
        a["complete"] = a["complete"] and bool(r.get("Complete"))
        a["all_schedules"] = a["all_schedules"] and bool(r.get("Complete")) and not r.get("Dropped")
        for i, n in enumerate(r.get("ByBound") or []):
            while len(a["by_deviation_bound"]) <= i: a["by_deviation_bound"].append(0)
            a["by_deviation_bound"][i] += n
        if r.get("Kind") == "schedules":
            bd = r.get("BoundDone", -1)
            a["bound_completed"] = bd if a["bound_completed"] is None else min(bd, a["bound_completed"])
        for k, n in (r.get("Outcomes") or {}).items():
            a["outcomes"][k] = a["outcomes"].get(k, 0) + n
        a["max_choice_depth"] = max(a["max_choice_depth"], r.get("MaxDepth", 0))
        a["samples"] = (a["samples"] + (r.get("Samples") or []))[:4]
        a["wall_s"] = round(max(a["wall_s"], r.get("WallS", 0)), 2)
    samples = []
    for n, a in agg.items():
        for s in a["samples"][:2]:
            samples.append("%s: %s" % (n, s))
    known_hits = {}
    for j, r in results:
        for k, n in (r.get("Known") or {}).items():
            known_hits[k] = known_hits.get(k, 0) + n
    details = {}
    for n, a in agg.items():
        d = dict(a); d["distinct_outcomes"] = len(a["outcomes"])
        d["outcomes"] = dict(sorted(a["outcomes"].items(), key=lambda kv: -kv[1])[:8])
        d.pop("samples")
        if a["kind"] != "schedules":
            d.pop("by_deviation_bound"); d.pop("bound_completed"); d.pop("bound"); d.pop("max_choice_depth"); d.pop("cut_at_known_state"); d.pop("all_schedules")
        details[n] = d
    nviol = 0
    replay_path = None
    if viol:
        j, r = viol[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay_path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, j.task["Name"].replace("/", "_")))
        again, ops = 0, None
        n = 5 if r["Kind"] == "schedules" else 2
        for k in range(n):
            try:
                if r["Kind"] == "schedules":
                    r2 = run_job(j, scratch, prop, tier, 60, ["-replay", ",".join(map(str, r["Choices"] or [])) or ","], env=env, tag="-r%d" % k)
                    ops = r2.get("Ops") or ops
                else:
                    r2 = run_job(j, scratch, prop, tier, 120 if r["Kind"] != "process" else 30, env=env, tag="-r%d" % k)
            except CheckError:
                continue
            if r2.get("Fail"):
                again += 1
        json.dump({"property": prop, "tier": tier, "group": g["group"], "task": j.task["Name"], "kind": r["Kind"], "shard": "%d/%d" % (j.shard, j.task["Shards"]),
                   "failure": r["Fail"], "case": r.get("Case"), "choices": r.get("Choices"), "reproduced": "%d/%d" % (again, n),
                   "operations": ops, "stderr": r["_err"][:12000],
                   "replay_cmd": "python3 %s/replay.py %s" % (HERE, replay_path)}, open(replay_path, "w"), indent=1)
        if again == 0 and not os.environ.get("VERIF_RETRY"):
            # an effect of the environment; one more attempt from the start decides
            print("%s: failure of %s did not reproduce, exploring once more: %s" % (prop, j.task["Name"], r["Fail"][:200]), flush=True)
            cleanup()
            os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, VERIF_RETRY="1"))
        if again == 0:
            raise CheckError("failure of %s did not reproduce (%s): %s" % (j.task["Name"], r["Kind"], r["Fail"]))
        nviol = 1
    cov = {"states": sum(a["states"] for a in agg.values()),
           "transitions": sum(a["transitions"] for a in agg.values()),
           "traces_validated_against_impl": sum(a["executions"] for a in agg.values()),
           "samples": samples[:16] or ["(none)"],
           "exhaustive": bool(agg) and all(a["complete"] for a in agg.values()) and not viol and len(results) == len(jobs),
           "distinct_outcomes": sum(len(a["outcomes"]) for a in agg.values()),
           "rule": "schedules: every execution of the real code under the controlled scheduler up to the stated deviation bound, all_schedules = no choice was dropped because of that bound, states = distinct happens-before graphs (with running goroutine) reached at choice points, an execution that reaches a known one is cut there (see DESIGN.md), transitions = scheduler steps; enumeration: every case of the stated bounded space run on the real code and compared with a reference model, states = distinct observed results, transitions = operations applied",
           "tasks": details, "build_s": round(tb, 1)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["executions are sequentially consistent interleavings at synchronisation operations; data races are reported separately by happens-before detection",
                          "map iteration order, time and randomness are fixed by the harness"],
          "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for k in known:
        if k["match"] in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, a in sorted(agg.items()):
        print("%s/%s: %s executions=%d states=%d transitions=%d outcomes=%d complete=%s%s %.1fs" % (prop, n, a["kind"], a["executions"], a["states"], a["transitions"], len(a["outcomes"]), a["complete"],
              " bound=%s/%s%s %s" % (a["bound_completed"], a["bound"], " (every schedule)" if a["all_schedules"] else "", a["by_deviation_bound"]) if a["kind"] == "schedules" else "", a["wall_s"]))
    print("%s: build %.1fs, total %.1fs" % (prop, tb, time.time() - t0))
    if viol:
        j, r = viol[0]
        print("%s: %s\n case: %s" % (j.task["Name"], r["Fail"][:3000], (r.get("Case") or "")[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
