#!/bin/bash
# exit 0: behaves as it should; nonzero: broken. Everything it writes is in a scratch directory that it removes.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++2a -O1 -w -pthread -DNDEBUG -fno-access-control -DDEFAULT_CACHELINE_SIZE=64 -I"$D" -I. -Iinclude -Icontainers -Itests -Ihashing "$D/demo.cpp" -o "$T/demo" || exit 2
TMPDIR="$T" timeout 120 "$T/demo"
