#!/bin/bash
# trybugs.sh [ids...]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/try_$d.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c '^failed obligation' /tmp/try_$d.txt) obligations failed; $(grep VIOLATION /tmp/try_$d.txt)"
done
