#!/bin/bash
# seedcheck.sh SEED [PROP..]: apply a seed to a scratch copy, run its property's check
S=$1; shift
W=/tmp/sc-$S-$$
cp -a /repo $W; git -C $W apply /verif/seeded/$S/patch.diff || { echo "$S: DOES NOT APPLY"; rm -rf $W; exit 2; }
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$S/meta.json'))['property'])")}
for p in $P; do
 QV_REPO=$W VERIF_SEED=${VERIF_SEED:-1} /verif/check.sh $p quick > /tmp/sc-$S-$p.out 2>&1; rc=$?
 echo "$S $p rc=$rc $(grep -m1 VIOLATION /tmp/sc-$S-$p.out)"; rm -f /tmp/sc-$S-$p.out
done
rm -rf $W
