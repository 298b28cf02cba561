#!/bin/bash
# seedtest.sh ID : confirms one planted bug in a scratch copy of /repo (applies, builds,
# stable tests pass, demo 0 on the clean tree and non-zero with the patch).
# seedtest.sh -n ID: skip the demo on the clean tree
set -u
CL=1; [ "$1" = -n ] && { CL=0; shift; }
ID=$1; S=/verif/seeded/$ID; WT=/tmp/wt; T=/tmp/s; mkdir -p $T
[ -d $WT ] || cp -a /repo $WT
for f in build test; do sed "s#/repo#$WT#g; s#/opt/vp/build.sh#$T/build.sh#" /opt/vp/$f.sh > $T/$f.sh; done
cd $WT && git checkout -q -- . && git clean -qfd src
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
if [ $CL = 1 ]; then
  bash $T/build.sh >$T/b.log 2>&1 || { echo "clean build failed"; exit 1; }
  (cd $WT; timeout 300 bash $D/demo.sh >$T/demo0.log 2>&1); r=$?
  [ $r = 0 ] || { echo "$ID: demo fails on clean tree rc=$r"; tail -5 $T/demo0.log; exit 1; }
fi
git apply --check $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
git apply $S/patch.diff
bash $T/build.sh >$T/b.log 2>&1 || { echo "$ID: patched build failed"; tail -5 $T/b.log; git checkout -q -- .; exit 1; }
bash $T/test.sh $T/o.json >$T/t.log 2>&1
python3 - <<P || { git checkout -q -- .; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$T/o.json'))
miss=[x for x in b if x not in o['passed']]
print('$ID: tests', 'FAIL %s'%miss if miss else 'pass'); sys.exit(bool(miss))
P
(cd $WT; timeout 300 bash $D/demo.sh >$T/demo1.log 2>&1); r=$?
[ $r != 0 ] && echo "$ID: OK (demo rc=$r: $(tail -1 $T/demo1.log))" || echo "$ID: demo does NOT fail with patch"
git checkout -q -- .; /bin/rm -rf "$D"
