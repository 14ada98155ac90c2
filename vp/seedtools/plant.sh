#!/bin/bash
# plant.sh ID [nocheck]: confirms seeded/ID in a scratch clone of the sandbox's /repo state: patch applies, builds, stable tests pass, demo 0 without and !=0 with;
# then runs the property's check against the patched /repo and undoes it.   (development tool; no check uses it)
set -u
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo dirty"; exit 9; }
undo() { git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; }
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash $D/demo.sh > /tmp/demo0.log 2>&1; echo "demo unchanged: $?")
git -C /repo apply $D/patch.diff || exit 8
trap undo EXIT
(cd /repo; bash /opt/vp/build.sh > /tmp/build1.log 2>&1; echo "build: $?"; bash /opt/vp/test.sh /tmp/out1.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out1.json'))
st=b.get('passed') or b.get('stable') or b
st=st if isinstance(st,list) else list(st)
print('stable missing:',[t for t in st if t not in o['passed']][:5], len(st))
PY
bash $D/demo.sh > /tmp/demo1.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo1.log)
cd /verif; for p in $P ${2:-}; do python3 vp/check.py $p quick | tail -12; done
