#!/bin/bash
# Applies each planted change to /repo, builds, runs the stable tests, runs all checks, and takes it back.
cd /repo || exit 2
for b in "$@"; do
    p=/verif/seeded/$b/patch.diff
    git apply "$p" || { echo "$b: does not apply"; continue; }
    r="$b:"
    if bash /opt/vp/test.sh /tmp/tb-$b.json > /tmp/tb-$b.log 2>&1; then :; fi
    r="$r $(python3 - /tmp/tb-$b.json <<'P'
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=json.load(open(sys.argv[1]))['passed']
m=s-set(p); print('tests-ok' if not m else 'TESTS FAIL %d %s'%(len(m),sorted(m)[:3]))
P
)"
    bash /verif/seeded/$b/demo.sh > /tmp/tb-$b.demo 2>&1; r="$r demo=$?"
    v=$(cd /verif && python3 tools/allprops.py map,adapters,hash,clevel 2>&1 | grep -E '^(V|E) ' | awk '{print $1$2}' | sort | uniq -c | tr '\n' ' ')
    echo "$r checks: $v"
    git checkout -q -- .
done
