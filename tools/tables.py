#!/usr/bin/env python3
"""writes tables.md from the last evidence, tools/planted.json and tools/fixes.json"""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ["# Tables", "", "Written by `tools/tables.py` from the evidence of the last quick run of each check, from `tools/planted.json`",
     "(`tools/caught.py`: each planted bug applied to a scratch copy, its property's quick check run) and from",
     "`tools/fixes.json` (`tools/fixes.py`: each repair reverted in a scratch copy, the check run).", "",
     "## Programs and spaces (quick tier)", "", "| task | kind | bound | executions / cases | states | complete |", "|---|---|---|---|---|---|"]
for f in sorted(glob.glob(H + "/evidence/C*.json")):
    e = json.load(open(f))
    if e.get("tier") != "quick":
        continue
    for n, t in e["coverage"]["tasks"].items():
        if t["kind"] == "schedules":
            b = "every schedule" if t.get("all_schedules") else "%s deviations" % t.get("bound_completed")
        else:
            b = "all cases"
        o.append("| %s `%s` | %s | %s | %s | %s | %s |" % (e["property"], n, t["kind"], b, t.get("executions") if t["kind"] == "schedules" else t.get("cases", t.get("executions")), t.get("states"), "yes" if t.get("complete") else "no"))
for title, fn in (("Planted bugs", "planted.json"), ("Repairs reverted", "fixes.json")):
    p = H + "/tools/" + fn
    if not os.path.exists(p):
        continue
    o += ["", "## " + title, "", "| change | property | verdict | tasks that report it |", "|---|---|---|---|"]
    for k, v in sorted(json.load(open(p)).items()):
        o.append("| %s | %s | %s | %s |" % (k, v["property"], v["verdict"], v.get("tasks", "")))
open(H + "/tables.md", "w").write("\n".join(o) + "\n")
