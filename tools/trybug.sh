#!/bin/bash
# trybug.sh ID [tier]: applies a planted bug to /repo, runs the check of its property, undoes it.
cd /verif
for id in $1; do
p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
s=$(date +%s)
./check.sh ${P:-$p} ${2:-quick} > /tmp/trybug.$id.out 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id ${P:-$p} rc=$rc $(( $(date +%s)-s ))s $(grep -m2 VIOLATION /tmp/trybug.$id.out)"
done
