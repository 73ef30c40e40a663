#!/bin/bash
# Which checks catch the planted bugs:  tools/seeded.sh [id ...]
# Applies each patch to /repo, runs the check of its property, undoes it.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  out=$(timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(echo "$out" | grep -c '^VIOLATION')
  echo "$d $p exit=$rc violations=$v $(echo "$out" | grep -A1 -m1 '^VIOLATION' | tail -1 | cut -c1-160)$( [ $rc = 2 ] && echo "$out" | tail -3 | cut -c1-300)"
done
