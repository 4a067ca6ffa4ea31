#!/bin/bash
# usage: plant.sh ID PROP...   with the planted change already made in /repo's working tree (or seeded/ID/patch.diff present)
id=$1; shift
d=/verif/seeded/$id; mkdir -p $d
cd /repo
if git diff --quiet; then git apply $d/patch.diff || exit 9; else git diff > $d/patch.diff; fi
bash /opt/vp/build.sh > /tmp/plant.build 2>&1 || { echo "BUILD FAILS"; grep -E "^error" -A6 /tmp/plant.build | head -20; git checkout -q -- .; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json > /dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/plant.json'))
p=set(r.get('passed',[])) or {k for k,v in r.get('results',r).items() if v in('pass','passed','ok')}
print("tests broken:", sorted(b-p)[:5] if b-p else "none")
P
bash $d/demo.sh > /tmp/plant.demo 2>&1; echo "demo with patch: $?"; tail -3 /tmp/plant.demo | cut -c1-300
for p in "$@"; do (cd /verif; python3 run.py $p 2>&1 | grep -v KNOWN | tail -4 | cut -c1-260); done
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/plant.build 2>&1; bash $d/demo.sh > /tmp/plant.demo 2>&1; echo "demo clean: $?"; tail -2 /tmp/plant.demo | cut -c1-200
