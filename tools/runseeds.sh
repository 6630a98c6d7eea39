#!/bin/bash
# runseeds.sh [id...]: apply each seeded bug to /repo, run its property's check, undo.
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t0=$SECONDS
  out=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $s $p exit=$rc $((SECONDS-t0))s"
  echo "$out" | grep -E "^(proof|failed|VIOLATION|bounded)" | cut -c1-260
done
