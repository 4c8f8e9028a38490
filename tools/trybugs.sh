#!/bin/bash
# trybugs.sh ID... : applies each seeded change to /repo, runs its property's check, undoes it (development aid)
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 python3-vt mirv/check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep VIOLATION | grep -vc no-failing)"
done
