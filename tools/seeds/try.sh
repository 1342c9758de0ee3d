#!/bin/bash
# try.sh ID: checks a planted bug (builds, passes the stable tests, demo fails) and runs its property's quick check on it.
# try.sh base: rebuilds the unchanged tree and runs every demo on it.
cd /repo; git diff --quiet || { echo "/repo is not clean"; exit 1; }
if [ "$1" = base ]; then
    bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || exit 1
    for d in /verif/seeded/*/; do o=$(bash $d/demo.sh 2>&1) && echo "ok   $d" || { echo "FAIL $d"; echo "$o" | tail -5; }; done
    exit
fi
for id in "$@"; do
    d=/verif/seeded/$id
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    if ! bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1; then echo "$id: BUILD FAILS"; git checkout -q -- .; continue; fi
    bash /opt/vp/test.sh /tmp/seed-tests.json > /dev/null 2>&1
    t=$(python3 -c "
import json; a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); b=set(json.load(open('/tmp/seed-tests.json'))['passed'])
m=sorted(a-b); print('tests pass' if not m else 'TESTS FAIL %d %s' % (len(m), m[:3]))" 2>&1)
    bash $d/demo.sh > /tmp/seed-demo.log 2>&1 && m="DEMO PASSES" || m="demo fails"
    p=$(python3 -c "import json; print(json.load(open('$d/meta.json'))['property'])")
    o=$(cd /verif; ./check.sh $p quick 2>&1); rc=$?
    git checkout -q -- .
    echo "$id: $t; $m ($(tail -1 /tmp/seed-demo.log | cut -c1-100)); check $p: rc=$rc $(echo "$o" | grep -m1 VIOLATION | cut -c1-120)"
done
