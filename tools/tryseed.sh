#!/bin/bash
# tools/tryseed.sh ID [nocheck] : confirms a planted change in a scratch copy (/tmp/sd): applies, builds, stable tests, demo both ways, check.
id=$1; V=/verif; S=${SCRATCH:-/tmp/sd}
[ -d $S ] || cp -a /repo $S
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S checkout -q FETCH_HEAD
( cd $S && $V/seeded/$id/demo.sh >/tmp/sd.d0 2>&1 ); echo "demo unchanged: $? (want 0)"
git -C $S apply $V/seeded/$id/patch.diff || exit 1
( cd $S && $V/seeded/$id/demo.sh >/tmp/sd.d1 2>&1 ); echo "demo patched: $? (want nonzero)"; tail -2 /tmp/sd.d1
prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
if [ "$2" != nocheck ]; then
  cp -a $V/evidence/$prop.json /tmp/sd.ev 2>/dev/null
  VERIF_REPO=$S VERIF_BUILD=/tmp/sdbuild timeout 900 python3 $V/tools/check.py $prop --tier quick >/tmp/sd.c 2>&1; echo "check: $?"; grep -m2 VIOLATION /tmp/sd.c
  cp -a /tmp/sd.ev $V/evidence/$prop.json 2>/dev/null
fi
git -C $S checkout -q -- .
