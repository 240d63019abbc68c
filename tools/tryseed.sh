#!/bin/bash
# tryseed.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s); o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s: $(echo "$o" | grep -E '^(VIOLATION|KNOWN)' | head -1) | $(echo "$o" | tail -1 | cut -c1-160)"
done
