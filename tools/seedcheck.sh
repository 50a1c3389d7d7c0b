#!/bin/bash
# seedcheck.sh ID [notest]: demo on clean tree, apply to /repo, build, tests, demo, the property's quick check, revert
for id in $1; do
d=/verif/seeded/$id; p=$(grep -o '"property": "[^"]*"' $d/meta.json | cut -d'"' -f4)
cd /repo; git diff --quiet || { echo dirty; exit 1; }
bash $d/demo.sh >/tmp/sc.out 2>&1; echo "$id clean demo rc=$?"
git apply $d/patch.diff || exit 1
bash $d/demo.sh >/tmp/sc.out2 2>&1; echo "$id patched demo rc=$? $(tail -1 /tmp/sc.out2)"
if [ "$2" != notest ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAIL; bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1; tail -1 /tmp/t.log; fi
bash /verif/check.sh $p quick > /tmp/sc.chk 2>&1; echo "$id check $p rc=$?"; grep VIOLATION /tmp/sc.chk | head -3
git -C /repo checkout -q -- .
done
