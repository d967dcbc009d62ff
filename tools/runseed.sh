#!/bin/bash
# runseed.sh <seed id> [property]: apply the seeded change, run the property's check, undo
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
cd /verif; s=$(date +%s)
VERIF_WORK=${VERIF_WORK:-/tmp/w-seed} timeout 900 python3-vt run.py $prop > /tmp/runseed-$id.out 2>&1
echo "seed $id check $prop exit $? in $(( $(date +%s)-s ))s"
grep -m1 -A1 VIOLATION /tmp/runseed-$id.out | cut -c1-300
