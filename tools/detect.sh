#!/bin/bash
# detect.sh [ids...]: run the property's quick check with each planted change applied
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || continue
  s=$(date +%s); o=$(VERIF_SEED=1 timeout 900 python3-vt check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(echo "$o" | grep VIOLATION)"
done
