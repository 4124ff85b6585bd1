#!/bin/bash
# tryseed.sh ID... : runs the property's check against a scratch copy of /repo with the seed applied
for ID in "$@"; do
D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=/tmp/w/try_$ID; rm -rf "/tmp/w/try_$ID"; mkdir -p $W; git -C /repo archive HEAD | tar x -C $W; (cd $W && git init -q && git apply $D/patch.diff) || echo "patch does not apply"
echo "== $ID ($P)"; (cd /verif && BANT_REPO=$W python3-vt engine/check.py $P 2>&1 | tail -4 | cut -c1-250)
rm -rf "/tmp/w/try_$ID"
done
