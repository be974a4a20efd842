#!/bin/bash
# runbugs.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s); out=$(python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
done | tee /tmp/results.txt
python3 - <<P
r={}
import os
f="/verif/tools/results.txt"
for n in (f,"/tmp/results.txt"):
  if os.path.exists(n):
    for l in open(n): r[l.split()[0]]=l
open(f,"w").writelines(r[k] for k in sorted(r))
P
