#!/bin/bash
# worker.sh DIR : prepares a private copy of /repo with its own build and test scripts.
set -eu
D=$1
rm -rf "$D"; mkdir -p "$D.vp"
cp -a /repo "$D"; rm -rf "$D/_build"
for f in build.sh test.sh run_tests.py results.py; do sed "s#/repo#$D#g; s#/opt/vp/\(build.sh\|test.sh\|run_tests.py\|results.py\)#$D.vp/\1#g" /opt/vp/$f > "$D.vp/$f"; done
bash "$D.vp/build.sh" >"$D.vp/log" 2>&1
bash "$D.vp/test.sh" "$D.vp/out.json" 2>&1 | tail -1
