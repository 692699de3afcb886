#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : turn the edits in /tmp/seed/repo (copy of /repo) into /verif/seeded/ID,
# with the demo program read from stdin; then validate it
set -u
ID=$1 PROP=$2 NEEDS=$3 BREAKS=$4
D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/seed/repo diff > $D/patch.diff
cat > $D/main.rs
cp /verif/tools/demo_template.sh $D/demo.sh
python3 - "$D" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
/verif/tools/verify_seed.sh $ID
