#!/bin/bash
# tools/try_seed.sh ID [nocheck]: confirms a planted bug in /repo's working tree (undone afterwards) and runs its property's check
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "repo not clean"; exit 1; }
timeout 300 bash $d/demo.sh >/tmp/seed.out 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
timeout 300 bash $d/demo.sh >/tmp/seed.out2 2>&1; c=$?
t=-
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
st=b.get('stable') or b.get('passed') or b
p=set(o.get('passed',[]))
print(len([x for x in st if x not in p]), 'stable tests broken')
P
); fi
echo "$id: demo clean=$a patched=$c build=$b tests: $t"
if [ "$2" != nocheck ]; then (cd /verif; VERIF_SEED=1 timeout 900 python3-vt check.py $prop quick >/tmp/seed.check 2>/tmp/seed.err; echo "  check $prop rc=$?"; grep -E "VIOLATION|FAILED|concrete|discharged" /tmp/seed.check | cut -c1-260 | tail -7); fi
