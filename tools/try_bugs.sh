#!/bin/bash
# run each planted bug's own check (or the checks given in CHECKS) with the bug applied to /repo, then undo it
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: patch does not apply"; continue; }
  line="$b:"
  for c in ${CHECKS:-$p}; do
    python3 check.py $c --tier ${TIER:-quick} > /tmp/try_$b.$c.log 2>&1; rc=$?
    if grep -q "^VIOLATION property=$c " /tmp/try_$b.$c.log && [ $rc = 1 ]; then line="$line $c=CAUGHT"; elif [ $rc = 0 ]; then line="$line $c=missed"; else line="$line $c=rc$rc"; fi
  done
  git -C /repo checkout -q -- .
  echo "$line"
done
