#!/usr/bin/env python3
"""fixes.py [commit...]: takes each repair recorded in known_findings.json back in a scratch copy of /repo and runs the
quick check of its property: it must report the violation again. Verdicts are kept in tools/fixes.json."""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
OUT = os.path.join(HERE, "fixes.json")

def one(k):
    c, prop = k["commit"], k["property"]
    w = tempfile.mkdtemp(prefix="fixes-", dir="/tmp"); r = w + "/repo"
    try:
        shutil.copytree("/repo", r, symlinks=True)
        how = "reverted"
        p = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@y", "revert", "--no-commit", c], cwd=r, capture_output=True, text=True)
        if p.returncode:
            subprocess.run(["git", "reset", "-q", "--hard"], cwd=r)
            # the tree as it was right before the repair
            how = "tree before"
            subprocess.run(["git", "checkout", "-q", c + "~1"], cwd=r, check=True)
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=w + "/ev")
        p = subprocess.run(["python3", V + "/check.py", prop, "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, errors="replace")
        v = "caught" if p.returncode == 1 and "VIOLATION property=" + prop in p.stdout else "missed" if p.returncode == 0 else "rc=%d" % p.returncode
        return k, how, v, p.stdout[-600:]
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    ks = [k for k in json.load(open(V + "/known_findings.json")) if k["status"] == "fixed" and (not sys.argv[1:] or k["commit"] in sys.argv[1:])]
    d = json.load(open(OUT)) if os.path.exists(OUT) else {}
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for f in cf.as_completed([ex.submit(one, k) for k in ks]):
            k, how, v, more = f.result()
            print("==", k["commit"], k["property"], how, v, "" if v == "caught" else k["what"] + more, flush=True)
            d[k["commit"]] = {"property": k["property"], "how": how, "verdict": v}
            json.dump(d, open(OUT, "w"), indent=0, sort_keys=True)
