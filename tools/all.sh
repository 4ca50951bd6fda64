#!/bin/bash
# run every registered quick check; prints id, exit code, seconds
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
 s=$(date +%s); python3-vt check.py $p > /tmp/all.$p.log 2>&1; rc=$?
 echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/all.$p.log) viol; $(grep -c UNDECIDED /tmp/all.$p.log) undecided"
done
