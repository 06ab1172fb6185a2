#!/bin/bash
# Runs the quick check of the property of each planted change against /repo with the change applied.
for id in "$@"; do
    D=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    git -C /repo apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
    s=$(date +%s)
    (cd /verif; timeout 900 python3 check.py ${CHECKS:-$p} > /tmp/seed_check.$id.log 2>&1); r=$?
    git -C /repo checkout -q -- .
    echo "$id: $p exit $r $(($(date +%s)-s)) s $(grep -c ^VIOLATION /tmp/seed_check.$id.log) $(grep VIOLATION /tmp/seed_check.$id.log | head -1)"
done
