#!/bin/bash
# tools/tryseed.sh <seed id> [check ids]: demo on the clean tree, then patch, build, test, demo, checks, undo
cd /repo; d=/verif/seeded/$1; id=$1; shift
git diff --quiet || { echo "repo dirty"; exit 1; }
$d/demo.sh >/tmp/ts.log 2>&1; a=$?
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/ts.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; t=$(tr -d ' \n' </tmp/ts.json | head -c 300)
$d/demo.sh >/tmp/ts2.log 2>&1; c=$?
echo "$id clean=$a build=$b patched=$c  $(tail -1 /tmp/ts2.log | head -c 200) tests=$t"
for p in "$@"; do (cd /verif; ./check.py $p > /tmp/ts.$p 2>&1; echo "  check $p exit=$? $(grep -c VIOLATION /tmp/ts.$p) $(grep -m1 -B1 VIOLATION /tmp/ts.$p | head -1 | head -c 150)"); done
