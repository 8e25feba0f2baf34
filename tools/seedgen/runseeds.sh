#!/bin/bash
# usage: runseeds.sh [id-glob]   apply each planted bug to /repo, run its property's quick check, undo
cd /verif
for d in seeded/${1:-*}; do
  id=$(basename "$d"); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id APPLYFAIL"; continue; }
  s=$(date +%s); VERIF_TIER=quick timeout 900 bin/check $p quick >/tmp/rs.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  n=$(grep -c "^VIOLATION property=$p" /tmp/rs.$id.log)
  [ $rc = 1 ] && [ $n -gt 0 ] && v=CAUGHT || v=MISSED
  echo "$id $p $v rc=$rc $(( $(date +%s)-s ))s"
done
