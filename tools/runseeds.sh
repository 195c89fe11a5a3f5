#!/bin/bash
# runseeds.sh [pattern] [checks...]: applies each planted bug to /repo, runs its property's quick check (or the
# given ones), undoes it.
cd /verif/seeded
pat=${1:-}; shift
for d in *$pat*; do
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  for c in ${@:-$p}; do
    s=$(date +%s)
    o=$(cd /verif && ./run.sh $c quick 2>&1); rc=$?
    v=$(echo "$o" | grep -c "^VIOLATION property=$c")
    echo "$d $c rc=$rc viol=$v $(( $(date +%s)-s ))s"
  done
  git -C /repo checkout -q -- .
done
git -C /repo status --short
