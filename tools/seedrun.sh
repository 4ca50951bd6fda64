#!/bin/bash
# development helper: apply each planted bug to /repo, run the check of its property, undo
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); python3-vt check.py $p > /tmp/seed.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/seed.$id.log)"
done
