#!/bin/bash
# catch.sh id...   (apply, run this property's check, revert)
cd /verif
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
s=$(date +%s)
out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | grep -m1 violated | cut -c1-160)"
[ $rc -eq 1 ] || echo "$out" | tail -4
done
