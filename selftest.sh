#!/bin/bash
# selftest.sh: the scheduler and its race detection on programs with known answers
set -e
d=$(mktemp -d /tmp/vmc-self-XXXX); trap "rm -rf $d" EXIT
/verif/mc/dev.sh ${VERIF_REPO:-/repo} $d self race >/dev/null
rc=0; export GORACE=exitcode=0
for t in $(grep -o 'task("[a-z-]*"' "$(dirname "$0")/mc/h/self/main.go" | cut -d'"' -f2); do
  o=$($d/self.race -prop SELF -task $t 2>/dev/null); f=no; grep -q '^FAIL' <<<"$o" && f=yes
  case $t:$f in ok-*:no|bad-*:yes) echo "pass $t";; *) echo "SELFTEST FAILS: $t"; rc=1;; esac
done
# state caching: the same outcomes and verdicts with and without it, and equal states go on equally (-audit)
/verif/mc/dev.sh ${VERIF_REPO:-/repo} $d core >/dev/null
while read p t b; do
  for m in "" -nocache -audit; do $d/core -prop $p -task $t -bound $b $m -out $d/o$m >/dev/null 2>$d/err || true; done
  python3 - $d $p $t <<'P' || rc=1
import json,sys
d,p,t=sys.argv[1:]
a,b,c=[json.load(open(d+"/o"+m)) for m in ("","-nocache","-audit")]
ok=set(a["Outcomes"])==set(b["Outcomes"])==set(c["Outcomes"]) and not any(x.get("Div") or x.get("Fail") for x in (a,b,c)) and b["Complete"]
print("pass" if ok else "SELFTEST FAILS:","caching",p,t,a["Execs"],"/",b["Execs"])
sys.exit(not ok)
P
done <<'L'
C05 concurrent 1
C09 concurrent-handles 2
C10 concurrent-derivation 2
C12 sampler-change 3
C16 generator-change 2
C24 linearizable 1
C26 concurrent 2
C28 reads 2
L
# rewritten programs give exactly the results they can give, run as they are they give one of them
cp -a ${VERIF_REPO:-/repo} $d/repo; mkdir $d/repo/internal/rwtest; cp /verif/mc/rwtest/*.go $d/repo/internal/rwtest/
(. /opt/vp/env.sh; cd $d/repo; go test -vet=off -count=1 ./internal/rwtest >/dev/null) || { echo "SELFTEST FAILS: native programs"; rc=1; }
EXTRA=./internal/rwtest /verif/mc/dev.sh $d/repo $d rw >/dev/null
i=0; for want in $($d/rw -prop RW -task wants 2>/dev/null | sed -n 's/^wants: //p'); do
  $d/rw -prop RW -task p$i -out $d/o >/dev/null 2>&1 || true
  python3 -c "import json,sys; a=json.load(open('$d/o')); sys.exit(not (a['Complete'] and not a['Fail'] and not a['Div'] and len(a['Outcomes'])==$want))" && echo "pass rewritten p$i" || { echo "SELFTEST FAILS: rewritten p$i"; rc=1; }
  i=$((i+1))
done
[ $i -gt 20 ] || { echo "SELFTEST FAILS: programs not run"; rc=1; }
exit $rc
