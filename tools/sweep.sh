#!/bin/bash
# sweep.sh [ID...] : applies each planted change to /repo, runs its property's
# quick check, and undoes it. Development only; no check uses it.
cd /verif/seeded || exit 2
[ $# -gt 0 ] || set -- *
export VERIF_SEED=1 VERIF_TIER=quick
for id in "$@"; do
    p=$(python3 -c "import json,sys;print(json.load(open('$id/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    t=$(date +%s)
    timeout 900 bash /verif/check.sh "${PROP:-$p}" quick > /tmp/sweep.$id 2>&1; rc=$?
    git -C /repo checkout -q -- .
    echo "$id: rc=$rc $(($(date +%s)-t))s $(grep -c '^VIOLATION property='${PROP:-$p} /tmp/sweep.$id) $(grep -m1 -A1 '^VIOLATION' /tmp/sweep.$id | cut -c1-200 | tail -1)"
done
bash /verif/build.sh
