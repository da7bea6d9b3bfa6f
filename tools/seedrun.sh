#!/bin/bash
# seedrun.sh ID...: applies each planted bug to /repo, runs its property's check, undoes it
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
s=$(date +%s); (cd /verif && python3 check.py $p quick) >/tmp/seedrun.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -a -m1 VIOLATION /tmp/seedrun.out | cut -c1-120) | $(grep -a -m1 '^WITNESS ' /tmp/seedrun.out | cut -c1-200)"
done
