#!/usr/bin/env python3
"""caught.py [id...]: runs the quick check of its property against each planted bug of /verif/seeded, each in a
scratch copy of /repo, and keeps the verdicts in tools/planted.json."""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf, threading, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
OUT = os.path.join(HERE, "planted.json")
lock = threading.Lock()

def one(i):
    sd = os.path.join(V, "seeded", i)
    m = json.load(open(sd + "/meta.json"))
    w = tempfile.mkdtemp(prefix="caught-", dir="/tmp"); r = w + "/repo"
    try:
        shutil.copytree("/repo", r, symlinks=True)
        p = subprocess.run(["git", "apply", sd + "/patch.diff"], cwd=r, capture_output=True, text=True)
        if p.returncode: return i, m, "does not apply: " + p.stderr[:300], ""
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=w + "/ev")
        try:
            p = subprocess.run(["python3", V + "/check.py", m["property"], "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, errors="replace")
        except subprocess.TimeoutExpired:
            return i, m, "timeout", ""
        tasks = sorted(set(re.findall(r"replays/(%s-[\w-]+)\.json" % m["property"], p.stdout)))
        if p.returncode == 1 and "VIOLATION property=" + m["property"] in p.stdout: return i, m, "caught", " ".join(t.split("-", 1)[1] for t in tasks)
        return i, m, "missed" if p.returncode == 0 else "rc=%d" % p.returncode, p.stdout[-1500:]
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for f in cf.as_completed([ex.submit(one, i) for i in ids]):
            i, m, v, more = f.result()
            print("==", i, m["property"], v, more.replace("\n", "\n   "), flush=True)
            with lock:
                d = json.load(open(OUT)) if os.path.exists(OUT) else {}
                d[i] = {"property": m["property"], "verdict": v, "tasks": more if v == "caught" else ""}
                d = {k: x for k, x in d.items() if os.path.isdir(V + "/seeded/" + k)}
                json.dump(d, open(OUT, "w"), indent=0, sort_keys=True)
