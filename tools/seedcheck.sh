#!/bin/bash
# seedcheck.sh ID... : run the property's check against each planted bug (source copy only)
for ID in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  D=$(mktemp -d /tmp/sc.XXXX); cp -a /repo/src /repo/Configuration.Mod /repo/makefile $D/ 2>/dev/null; (cd $D; git init -q . ; git apply --exclude='bootstrap/*' /verif/seeded/$ID/patch.diff) || echo "apply failed"
  (cd /verif; VOC_EVIDENCE=$D VOC_REPO=$D python3 check.py $P quick >$D/out 2>&1; rc=$?; echo "$ID [$P] rc=$rc $(grep -m1 '^  ' $D/out | cut -c1-220)"; [ $rc = 2 ] && grep BROKEN $D/out)
  /bin/rm -rf "$D"
done
