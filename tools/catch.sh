#!/bin/bash
# catch.sh ID...: applies each planted bug to /repo in turn and runs its property's quick check.
for ID in "$@"; do S=/verif/seeded/$ID
 P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
 git -C /repo apply "$S/patch.diff" || { echo "$ID: does not apply"; continue; }
 s=$(date +%s); /verif/check.sh "$P" quick > /tmp/catch.$ID.log 2>&1; rc=$?
 git -C /repo checkout -q -- .
 echo "$ID $P rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/catch.$ID.log)"
done
