#!/bin/bash
# tools/seed.sh ID [PROP...]: apply a planted bug to /repo, run its demonstration and the checks, undo
id=$(basename /verif/seeded/$1*); shift; d=/verif/seeded/$id
props=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
if [ "$DEMO" != no ]; then bash $d/demo.sh >/tmp/scr/demo.out 2>&1; echo "demo unpatched: $?"; fi
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
if [ "$DEMO" != no ]; then bash $d/demo.sh >/tmp/scr/demo.out 2>&1; echo "demo patched: $?"; fi
if [ "$TESTS" = yes ]; then bash /opt/vp/build.sh >/tmp/scr/b.out 2>&1; bash /opt/vp/test.sh /tmp/scr/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/scr/t.json'))
print("tests:", {k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
want=b.get('stable') or b.get('passed') or b
ok=set(t.get('passed',[])) 
print("missing:", [x for x in want if x not in ok][:5])
P
fi
cd /verif
for p in $props; do python3 run.py $p quick > /tmp/scr/c.out 2>&1; echo "$p: exit $?"; grep -E "VIOLATION|on \"|done" /tmp/scr/c.out | head -${N:-4}; done
