#!/bin/bash
# quick.sh [ID…]: the quick checks one after another; a check that explored nothing, or only a part, is shown as well
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(python3 -c "import checks;print(*sorted(checks.CHECKS))")
for p in "$@"; do
    t=$SECONDS; python3 run.py $p quick >build/quick-$p.out 2>&1; r=$?
    python3 - $p $r $((SECONDS-t)) <<'P'
import json,sys
p,r,t=sys.argv[1:]
e=json.load(open("evidence/%s.json"%p)); c=e["coverage"]
o=open("build/quick-%s.out"%p).read()
bad=[x for x in ("cannot build","out of time","INCOMPLETE","vacuous","not reproduced","differs","limit") if x in o]
print(p,"exit",r,t,"s",c["states"],"paths","" if c["exhaustive"] else "NOT EXHAUSTIVE",bad or "",flush=True)
P
done
