#!/bin/bash
# verify_seed.sh ID [nocheck]: patch applies, builds, tests pass, demo 0 without / nonzero with; then run the check
ID=$1
D=/verif/seeded/$ID
S=/tmp/seed/v
mkdir -p /tmp/seed
rsync -a --delete /repo/ $S/
cp -r $D /tmp/seed/demo_$ID.$$ && rm -f /tmp/seed/demo_$ID.$$/{patch.diff,meta.json}
DEMO=/tmp/seed/demo_$ID.$$/demo.sh
(cd $S && git apply --check $D/patch.diff) || { echo "$ID: patch does not apply"; exit 1; }
(cd $S && bash $DEMO >/tmp/seed/out0 2>&1); r0=$?
(cd $S && git apply $D/patch.diff && cargo test --workspace --offline -- --test-threads 8 >/tmp/seed/test.log 2>&1); rt=$?
(cd $S && bash $DEMO >/tmp/seed/out1 2>&1); r1=$?
rm -rf /tmp/seed/demo_$ID.$$
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
n=$(grep -c '^test .* ok$' /tmp/seed/test.log)
echo "$ID $PROP demo0=$r0 tests=$rt ($n ok) demo1=$r1"
[ $r0 = 0 ] || tail -5 /tmp/seed/out0
[ $r1 != 0 ] || tail -5 /tmp/seed/out1
VERIF_REPO=$S VERIF_BUILD=/tmp/try/build python3 /verif/check.py $PROP 2>&1 | cut -c1-300 | tail -4
