#!/usr/bin/env python3
"""mutants.py stage1|stage2 MUTANTS RESULT: stage1 keeps the mutants (tools/mutate) that build and pass the tests
of their package; stage2 runs the checks anchored to the file on those until one reports a violation."""
import sys, os, json, subprocess, shutil, tempfile, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plant
ENV = dict(plant.ENV, GOCACHE="/tmp/mutcache")
STABLE = plant.STABLE
MAP = {
 "trace/trace.go": "C36 C12 C14 C13 C15 C16 C18", "trace/trace_api.go": "C36 C12 C14 C15", "trace/config.go": "C14 C15 C16 C12", "trace/spanstore.go": "C18 C34", "trace/spanbucket.go": "C18 C34",
 "trace/sampling.go": "C17 C12", "trace/basetypes.go": "C14 C35 C17", "trace/export.go": "C13 C14", "trace/evictedqueue.go": "C14", "trace/lrumap.go": "C14",
 "trace/internal/internal.go": "C16", "trace/trace_go11.go": "C15", "trace/propagation/propagation.go": "C19", "trace/tracestate/tracestate.go": "C22 C21", "trace/status_codes.go": "C31 C34 C29",
 "plugin/ochttp/propagation/b3/b3.go": "C20", "plugin/ochttp/propagation/tracecontext/propagation.go": "C21", "exporter/stackdriver/propagation/http.go": "C23",
 "stats/record.go": "C09 C01", "stats/measure.go": "C09 C05", "stats/measure_float64.go": "C09 C03", "stats/measure_int64.go": "C09 C03", "stats/units.go": "C07",
 "stats/view/worker.go": "C05 C06 C08 C07 C01 C02", "stats/view/worker_commands.go": "C05 C06 C08 C01 C02 C07", "stats/view/view.go": "C05 C04 C07 C02", "stats/view/collector.go": "C04 C03 C02 C01",
 "stats/view/aggregation.go": "C03 C05 C07", "stats/view/aggregation_data.go": "C03 C07 C02", "stats/view/view_to_metric.go": "C07", "stats/view/export.go": "C06", "internal/tagencoding/tagencoding.go": "C04",
 "tag/map.go": "C10", "tag/map_codec.go": "C11", "tag/validate.go": "C10 C11", "tag/key.go": "C10", "tag/metadata.go": "C10 C11", "tag/context.go": "C10", "tag/profile_19.go": "C10",
 "metric/gauge.go": "C25 C24", "metric/cumulative.go": "C25 C24", "metric/common.go": "C25 C24", "metric/registry.go": "C25 C24", "metric/error_const.go": "C25",
 "metric/metricdata/point.go": "C07 C25", "metric/metricdata/label.go": "C07 C25", "metric/metricdata/type_string.go": "C25 C07", "metric/metricdata/unit.go": "C07 C25", "metric/metricdata/exemplar.go": "C09",
 "metric/metricproducer/manager.go": "C26", "metric/metricexport/reader.go": "C27", "plugin/runmetrics/producer.go": "C28", "resource/resource.go": "C33",
 "plugin/ochttp/span_annotating_client_trace.go": "C35", "plugin/ochttp/client.go": "C29 C35", "plugin/ochttp/trace.go": "C29 C30 C35", "plugin/ochttp/client_stats.go": "C29", "plugin/ochttp/wrapped_body.go": "C29",
 "plugin/ochttp/server.go": "C30", "plugin/ochttp/route.go": "C30", "plugin/ochttp/stats.go": "C38 C29 C30",
 "plugin/ocgrpc/client.go": "C31 C32", "plugin/ocgrpc/server.go": "C32 C31", "plugin/ocgrpc/trace_common.go": "C32 C31", "plugin/ocgrpc/stats_common.go": "C31 C32 C38", "plugin/ocgrpc/client_stats_handler.go": "C31 C32",
 "plugin/ocgrpc/server_stats_handler.go": "C31 C32", "plugin/ocgrpc/client_metrics.go": "C38 C31 C34", "plugin/ocgrpc/server_metrics.go": "C38 C31 C34",
 "zpages/tracez.go": "C34", "zpages/rpcz.go": "C34", "zpages/zpages.go": "C34", "zpages/templates.go": "C34", "internal/internal.go": "C13 C33 C29", "internal/traceinternals.go": "C18",
}

def apply(root, m):
    p = os.path.join(root, m["File"]); b = open("/repo/" + m["File"], "rb").read()
    for e in sorted([m] + (m["More"] or []), key=lambda e: -e["Start"]):
        b = b[:e["Start"]] + e["New"].encode() + b[e["End"]:]
    open(p, "wb").write(b)

def failing(root, pkg, limit):
    """the stable tests of pkg that do not pass; None when it does not build"""
    rc, out = plant.sh(["go", "test", "-json", "-vet=off", "-timeout", limit, pkg], root, t=300, env=ENV)
    if "[build failed]" in out or "[setup failed]" in out: return None
    res = {}
    for l in out.split("\n"):
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Test") and d.get("Action") in ("pass", "fail", "skip"):
            res[d["Package"] + "/" + d["Test"]] = d["Action"]
    pre = "go.opencensus.io/" + pkg[2:] if pkg != "./..." else "go.opencensus.io"
    return [t for t in STABLE if (pkg == "./..." or (t.startswith(pre + "/Test") or t.startswith(pre + "/Example"))) and res.get(t) != "pass"]

def stage1(root, m):
    apply(root, m)
    try:
        pkg = "./" + os.path.dirname(m["File"])
        bad = failing(root, pkg, "25s")
        if bad is None: return "does not build"
        if bad: return "killed by tests"
        return "survives tests"
    finally:
        shutil.copy("/repo/" + m["File"], os.path.join(root, m["File"]))

def stage2(root, m):
    apply(root, m)
    try:
        env = dict(os.environ, VERIF_REPO=root, VERIF_EVIDENCE=root + "-ev", VERIF_BUDGET="120")
        odd = ""
        for prop in MAP.get(m["File"], "").split():
            try:
                p = subprocess.run(["python3", V + "/check.py", prop, "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, errors="replace")
            except subprocess.TimeoutExpired:
                odd += " %s:timeout" % prop; continue
            if p.returncode == 1 and "VIOLATION property=" + prop in p.stdout: return "caught by " + prop
            if p.returncode != 0: odd += " %s:rc=%d" % (prop, p.returncode)
        return "MISSED" + odd if failing(root, "./...", "90s") == [] else "killed by other tests"
    finally:
        shutil.copy("/repo/" + m["File"], os.path.join(root, m["File"]))

if __name__ == "__main__":
    stage = {"stage1": stage1, "stage2": stage2}[sys.argv[1]]
    ms = [json.loads(l) for l in open(sys.argv[2])]
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {json.dumps(json.loads(l)["m"], sort_keys=True) for l in open(sys.argv[3])}
    q = queue.Queue()
    for m in ms:
        m.pop("v", None)
        if json.dumps(m, sort_keys=True) not in done: q.put(m)
    print(q.qsize(), "to do", flush=True)
    out = open(sys.argv[3], "a"); lock = threading.Lock()
    stop = time.time() + float(os.environ.get("T", "7200"))
    def work():
        w = tempfile.mkdtemp(prefix="mut-", dir="/tmp"); root = w + "/repo"
        shutil.copytree("/repo", root, symlinks=True)
        try:
            while time.time() < stop:
                try: m = q.get_nowait()
                except queue.Empty: return
                v = stage(root, m)
                with lock:
                    out.write(json.dumps({"m": m, "v": v}) + "\n"); out.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(int(os.environ.get("J", "4")))]
    for t in ts: t.start()
    for t in ts: t.join()
