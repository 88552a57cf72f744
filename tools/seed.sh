#!/bin/bash
# seed.sh ID: applies /verif/seeded/ID/patch.diff to /repo, builds, tests, runs the demo and the
# property's check, reverts, and runs the demo on the unchanged tree.
id=$1; s=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 2; }
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != fast ]; then
bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.log 2>&1
python3 - <<E
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$id.json'))
def names(x): return set(x if isinstance(x,list) else x.get('stable', []))
bs=names(b); miss=bs-set(r['passed'])
print('$id: tests', 'OK' if not miss else 'FAIL %s'%sorted(miss)[:5], len(bs))
E
bash $s/demo.sh >/tmp/seed.$id.demo 2>&1; echo "$id: demo with patch rc=$? (want !=0) $(tail -1 /tmp/seed.$id.demo | cut -c1-100)"
fi
for p in $prop; do timeout 900 python3 /verif/check.py $p > /tmp/seed.$id.check 2>&1; rc=$?; echo "$id: check $p rc=$rc $(grep -c VIOLATION /tmp/seed.$id.check) $(head -1 /tmp/seed.$id.check | cut -c1-150)"; done
git -C /repo checkout -q -- .; trap - EXIT
if [ "$2" != fast ]; then
bash $s/demo.sh >/tmp/seed.$id.demo2 2>&1; echo "$id: demo clean rc=$? (want 0)"
fi
