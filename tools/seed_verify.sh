#!/bin/bash
# Confirms planted changes in the scratch copy /tmp/sc (a copy of /repo with its own build).
# seed_verify.sh ID... : patch applies, builds, 349 tests pass, demo 0 before and not 0 after.
cd /tmp/sc
for id in "$@"; do
    D=/verif/seeded/$id
    git checkout -q -- . ; bash /tmp/seed/build.sh > /tmp/seed/b.log 2>&1 || { echo "$id: base build failed"; continue; }
    /bin/rm -rf /tmp/seed/d; mkdir -p /tmp/seed/d; cp $D/demo* /tmp/seed/d/
    timeout 300 bash /tmp/seed/d/demo.sh > /tmp/seed/$id.base.log 2>&1; r0=$?
    git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
    bash /tmp/seed/test.sh /tmp/seed/$id.json > /tmp/seed/$id.test.log 2>&1
    n=$(grep "tests run" /tmp/seed/$id.test.log; python3 -c "import json;d=json.load(open('/tmp/seed/$id.json'));print(d['failed'][:5])")
    timeout 300 bash /tmp/seed/d/demo.sh > /tmp/seed/$id.bug.log 2>&1; r1=$?
    git checkout -q -- .
    echo "$id: demo unchanged $r0, patched $r1 ($(tail -1 /tmp/seed/$id.bug.log)); tests $n"
done
