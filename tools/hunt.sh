#!/bin/bash
# hunt.sh [ID...]: run the quick check of each planted bug's property with the bug applied to /repo, and undo it
cd /verif
IDS="$@"; [ -n "$IDS" ] || IDS=$(ls seeded)
for id in $IDS; do
  p=$(/usr/bin/python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(/opt/venv/bin/python check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -A1 VIOLATION | tr '\n' ' ' | cut -c1-260)"
done
