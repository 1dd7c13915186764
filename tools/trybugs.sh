#!/bin/bash
# run the check of each planted bug's property against it (in /repo, undone afterwards)
cd /verif
for d in ${@:-seeded/*}; do
  d=${d%/}; case $d in seeded/*) ;; *) d=seeded/$d;; esac
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 python3-vt check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'failed obligation|undecided:|failing input' | head -4 | cut -c1-200 | tr '\n' '|')"
done
