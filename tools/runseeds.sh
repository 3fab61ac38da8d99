#!/bin/bash
# runseeds.sh [id...]: run the planted property's check against each planted bug
cd /verif; for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
 t0=$(date +%s); o=$(timeout 900 python3 check.py $p --tier quick 2>&1); rc=$?
 git -C /repo checkout -q -- .
 echo "$d $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$o" | grep -v '^VIOL' | head -${N:-1})"
done
