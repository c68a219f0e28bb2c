#!/bin/bash
# catch.sh <bug>...: applies each planted bug to /repo in turn and runs the quick check of its property (undone afterwards)
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  s=$(date +%s); timeout 900 ./check $p quick > /tmp/catch.out 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$b $p exit=$r $(($(date +%s)-s))s $(grep -m1 -A2 VIOLATION /tmp/catch.out | tr '\n' ' ' | cut -c1-260)"
done
