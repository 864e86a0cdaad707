#!/bin/bash
# catch.sh ID... : applies each planted bug to /repo in turn, runs its property's quick check, reports, undoes it
for s in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
git -C /repo apply --whitespace=nowarn /verif/seeded/$s/patch.diff || continue
t0=$SECONDS; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/bin/check.py $p > /tmp/catch_$s.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$s $p rc=$rc $((SECONDS-t0))s $(grep -c '^VIOLATION property='$p /tmp/catch_$s.log) violations; $(grep -B2 -m1 '^VIOLATION' /tmp/catch_$s.log | head -1 | cut -c1-150) $(grep -m1 PROBLEM /tmp/catch_$s.log | cut -c1-200)"
done
