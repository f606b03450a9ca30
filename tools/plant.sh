#!/bin/bash
# plant.sh ID... : applies each planted bug to /repo, builds, tests, runs the demo and the property's check, reverts
for id in "$@"; do
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.log 2>&1
miss=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/plant.json'))['passed'])
m=sorted(b-t);print(len(m),m[:4])")
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/plant.demo 2>&1); rc=$?
(cd /verif && VERIF_SEED=1 timeout 900 python3 run.py $p --quick > /tmp/plant.chk 2>&1); crc=$?
git -C /repo checkout -- .
echo "$id [$p] tests lost: $miss demo rc=$rc check rc=$crc $(grep -h '^message' /tmp/plant.chk | head -1 | cut -c1-150)"
[ $rc = 2 ] && head -5 /tmp/plant.demo
done
