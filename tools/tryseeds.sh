#!/bin/bash
# tryseeds.sh [ID...]: run the check of each planted bug's property against it (quick tier)
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  [ -n "$PROP" ] && p=$PROP
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  t0=$(date +%s)
  ./check.sh $p > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -c '^VIOLATION' /tmp/try.out) $(grep -v '^VIOLATION' /tmp/try.out | tail -2 | tr '\n' ' ' | cut -c1-160)"
done
