#!/bin/bash
# run planted bugs (all, or those named) against their property's check; prints caught/missed
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY-FAIL"; continue; }
  o=$(bin/check $p quick 2>&1); rc=$?
  git -C /repo checkout -- . 
  echo "$d $p rc=$rc $(echo "$o" | grep -c '^failed obligation') obl; $(echo "$o" | grep VIOLATION | cut -c1-150)"
done
