#!/usr/bin/env python3
# finding.py fixed PROPERTY COMMIT WHAT | known PROPERTY MATCH WHAT: record a finding (by hand, never from a check)
import json,sys,os
f=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"known_findings.json")
l=json.load(open(f)) if os.path.exists(f) else []
st,prop,x,what=sys.argv[1:5]
e={"status":st,"property":prop}
if st=="fixed": e.update(commit=x,what="fixed: property=%s %s %s"%(prop,x,what))
else: e.update(match=x,what=what)
l.append(e); json.dump(l,open(f,"w"),indent=1)
