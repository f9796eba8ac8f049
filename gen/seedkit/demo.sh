#!/bin/bash
# builds demo.c against the library in /repo/_build and runs it; exit 0 when the behaviour is right
set -u
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
R=$PWD
gcc -g -w -I"$D" -I"$R/src" -I"$R/_build/src" -I/usr/include/tirpc -I/usr/include/libxml2 -o "$W/demo" "$D/demo.c" \
    -L"$R/_build/src/.libs" -Wl,-rpath,"$R/_build/src/.libs" -lmetaresc -ltirpc -lxml2 -lm || exit 9
cd "$W" && timeout 120 ./demo >out 2>&1
rc=$?
tail -5 out
exit $rc
