#!/bin/sh
# runs every registered check one after another: id, exit status, seconds, counts
cd "$(dirname "$0")/.."
[ $# -gt 0 ] && L="$*" || L=$(python3 -c "import json;print(*[c.get('property') or c.get('property_id') or c.get('id') for c in json.load(open('MANIFEST.json'))['checks']])")
for c in $L; do
  s=$(date +%s); python3 sa/check.py $c > /tmp/all.$c.log 2>&1; r=$?; e=$(date +%s)
  echo "$c rc=$r $((e-s))s $(tail -1 /tmp/all.$c.log | cut -c1-140)"
done
