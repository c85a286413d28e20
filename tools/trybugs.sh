#!/bin/bash
# Applies planted bugs to /repo one at a time and runs the check of their
# property (or the ones given with -p).
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  s=$(date +%s)
  timeout 900 ./check.sh $p quick > /tmp/try.$b 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' /tmp/try.$b)"
done
