#!/bin/bash
# tools/try_seeds.sh [id ...]: applies each planted bug to /repo, runs its property's quick check, undoes it. Not used by any check.
cd "$(dirname "$0")/.."
for d in seeded/*/; do
  id=$(basename "$d"); [ $# -gt 0 ] && [[ ! " $* " == *" $id "* ]] && continue
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(python3 bin/check.py $prop quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | tail -2 | head -1 | cut -c1-220)"
done
