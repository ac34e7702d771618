#!/bin/bash
# tryseed.sh ID...: applies each seeded change to /repo, runs its property's check, undoes it
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./check.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION <<<"$out" | cut -c1-200)"
done
