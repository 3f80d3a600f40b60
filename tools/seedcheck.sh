#!/bin/bash
# seedcheck.sh ID [PROPERTY..]: applies a planted bug to /repo, runs the check, undoes it.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
git -C /repo apply "$here/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
cd "$here"
for p in $props; do
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh $p quick > /tmp/seedcheck.$id.$p.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/seedcheck.$id.$p.log) $(grep -B1 -m1 VIOLATION /tmp/seedcheck.$id.$p.log | head -1 | cut -c1-160)"
done
