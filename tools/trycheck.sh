#!/bin/bash
# Runs all analyses on a scratch copy of /repo with each planted change applied (no build, no tests).
for b in "$@"; do
    d=$(mktemp -d /tmp/tc-XXXXXX)
    git -C /repo archive HEAD | tar x -C $d && (cd $d && git init -q && git apply /verif/seeded/$b/patch.diff) || echo "$b: does not apply"
    v=$(cd /verif && VERIF_REPO=$d python3 tools/allprops.py map,adapters,hash 2>&1 | grep -E '^(V|E) ' | awk '{print $1$2}' | sort | uniq -c | tr '\n' ' ')
    echo "$b checks: $v"
    rm -rf "$d"
done
