#!/usr/bin/env python3
"""writes MANIFEST.json from mc/groups.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
groups = json.load(open(H + "/mc/groups.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
notes = json.load(open(H + "/tools/levels.json")) if os.path.exists(H + "/tools/levels.json") else {}
na = json.load(open(H + "/tools/na.json")) if os.path.exists(H + "/tools/na.json") else {}
DEF_T = "stateless model checking of the real code under a controlled scheduler (deviation-bounded, with happens-before race detection) and exhaustive bounded history enumeration against a reference model"
DEF_N = "Exhaustive within the bounds recorded in the evidence file; runs the current source with sync, atomics, channels, time and randomness redirected to the controlled scheduler; assumes sequential consistency (races are reported separately) and bounded numbers of goroutines, operations and values."
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in groups:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": notes.get(i, {}).get("technique", DEF_T), "level": "model_checking", "level_note": notes.get(i, {}).get("note", DEF_N)})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check not built yet")})
m["notes"] = "No hooks in /repo: every check instruments a scratch copy of the current tree (mc/rewrite) and builds its harness (mc/h) inside that copy."
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
