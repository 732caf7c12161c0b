#!/bin/bash
# runseeds.sh [id-prefix]: apply each planted bug to /repo, run its property's quick check, undo
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for d in seeded/${1:-}*/; do
  id=$(basename "$d"); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
  s=$SECONDS
  out=$(./check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m1 -E '^(VIOLATION|INCONCLUSIVE|HELD)')"
done
