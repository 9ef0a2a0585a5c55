#!/bin/bash
# seed.sh ID [CHECK ...]: validates one planted bug (build, stable tests, demo with and without) and runs the checks on it
id=$1; shift; S=/verif/seeded/$id
cd /repo; git status --short | grep -q . && { echo dirty; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || echo BUILD0
bash $S/demo.sh >/tmp/seed.d0 2>&1; echo "demo unchanged: $?"
git apply $S/patch.diff || { echo "does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.b 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.t 2>&1; python3 - <<'P'
import json
a=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('tests', {k:(len(v) if isinstance(v,list) else v) for k,v in a.items()} if isinstance(a,dict) else len(a))
P
bash $S/demo.sh >/tmp/seed.d1 2>&1; echo "demo patched: $?"; tail -3 /tmp/seed.d1
for c in "$@"; do (cd /verif; python3 check.py $c | tail -4; echo "check $c: ${PIPESTATUS[0]}"); done
git checkout -q -- .; bash /opt/vp/build.sh >/tmp/seed.b 2>&1
