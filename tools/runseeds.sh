#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to /repo, runs the check of its property (quick), undoes it, prints the outcome.
cd /verif/seeded || exit 1
for d in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY-FAILED"; continue; }
  s=$(date +%s)
  out=$(cd /verif && VERIF_SEED=1 bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | head -1)"
done
