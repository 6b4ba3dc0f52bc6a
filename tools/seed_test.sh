#!/bin/bash
# seed_test.sh ID...: applies each planted bug to /repo in turn, runs the check of its property, undoes it.
for s in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t=$(date +%s)
  out=$(cd /verif && bash check.sh ${PROP:-$p} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s ${PROP:-$p} rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-240)"
done
