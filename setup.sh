#!/bin/bash
# warms the Go build cache (standard library, plain and race) and checks that the framework builds
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import check, tempfile, shutil, json, sys
d = tempfile.mkdtemp(prefix="vmc-setup-")
try:
    done = {}
    for g in check.GROUPS.values():
        done.setdefault(g["group"], set()).update(g["variants"])
    for i, (g, vs) in enumerate(sorted(done.items())):
        check.build(tempfile.mkdtemp(dir=d), g, sorted(vs))
finally:
    shutil.rmtree(d, ignore_errors=True)
print("setup ok")
P
