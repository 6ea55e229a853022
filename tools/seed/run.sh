#!/bin/bash
# Applies each planted change to /repo in turn, runs the check of its property
# and undoes the change. usage: run.sh [id-substring]  (results on stdout)
cd "$(dirname "$0")/../.." || exit 2
for d in seeded/*"${1:-}"*/; do
  id=$(basename "$d"); prop=${id%%-*}
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./check.sh "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$prop " <<<"$out")
  [ $rc = 1 ] && [ "$v" -gt 0 ] && r=caught || r=MISSED
  echo "$r $id rc=$rc violations=$v $(( $(date +%s) - s ))s $(grep -m1 ^VIOLATION <<<"$out" | cut -c1-120)"
done
