#!/bin/bash
# seedrun.sh ID...: apply each planted bug to /repo, run the check of its property, undo.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s)
  timeout 900 python3 check.py $p --tier quick > /tmp/seedrun.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seedrun.out | cut -c1-160)"
done
