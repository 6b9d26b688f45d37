#!/usr/bin/env python3
"""replay.py REPLAYFILE -- rebuild /repo's current tree and run the recorded failing schedule or case again."""
import sys, json, subprocess, os
import check
def main():
    r = json.load(open(sys.argv[1]))
    if r["kind"] != "schedules":
        # enumeration: the task (which is deterministic) is run again up to the failing case
        return subprocess.call([sys.executable, os.path.join(check.HERE, "check.py"), r["property"], r["tier"], r["task"]])
    import tempfile, shutil
    scratch = tempfile.mkdtemp(prefix="vmc-replay-")
    try:
        g = check.GROUPS[r["property"]]
        bins = check.build(scratch, g["group"], g["variants"])
        anybin = bins.get("plain") or bins["race"]
        ts = json.loads(subprocess.run([anybin, "-list", "-prop", r["property"], "-tier", "thorough"], stdout=subprocess.PIPE, check=True).stdout)
        t = [t for t in ts if t["Name"] == r["task"]][0]
        p = subprocess.run([bins["race" if t["Race"] else "plain"], "-prop", r["property"], "-task", r["task"], "-v",
                            "-replay", ",".join(map(str, r["choices"] or [])) or ","], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p.stdout[:20000])
        return 1 if "FAIL:" in p.stdout else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
sys.exit(main())
