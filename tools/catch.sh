#!/bin/bash
# catch.sh [-b budget] ID...   applies each planted bug to /repo, runs the check of its property, and undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
b=60; [ "$1" = -b ] && { b=$2; shift 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$id/patch.diff" || continue
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} timeout 900 python3 "$V/check.py" $p --tier quick --budget $b > /tmp/catch.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^violation' /tmp/catch.log | cut -c1-150)"
done
