#!/bin/bash
# development helper: run the check of each planted bug on a scratch copy of /repo with the bug (PYVC_REPO)
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/sp.XXXXXX); cp -a /repo/. $w/; git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf $w; continue; }
  s=$(date +%s); PYVC_REPO=$w timeout 900 python3-vt check.py $p > /tmp/seed.$id.log 2>&1; rc=$?
  rm -rf $w
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/seed.$id.log)"
done
