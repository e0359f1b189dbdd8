#!/bin/bash
# Development aid: which check catches which planted bug.  usage: catch.sh [ID...]
# Applies each patch to /repo, runs its property's quick check, and undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    python3 check.py $c quick > /tmp/catch.log 2>&1; r=$?
    echo "$d $c exit=$r $(grep -c '^VIOLATION property='$c /tmp/catch.log) $(grep -m1 '^# broken' /tmp/catch.log | cut -c1-120)"
  done
  git -C /repo checkout -q -- .
done
