#!/bin/bash
# try.sh ID... : run the property's check against planted bugs, on a scratch copy
V=/verif; W=/tmp/plantwt
for id in "$@"; do
 d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C $W checkout -q -- . ; git -C $W apply $d/patch.diff || { echo "$id NOAPPLY"; continue; }
 o=$(cd $V && VERIF_REPO=$W VERIF_BUILD=/tmp/plantbuild VERIF_EVIDENCE=/tmp/plantev python3 engine/run.py $p ${VV}); rc=$?
 echo "$id $p rc=$rc $(echo "$o" | grep -E 'broken|obligations' | head -2 | cut -c1-220 | tr '\n' ' ')"
 [ -n "$VV" ] && echo "$o" | cut -c1-600
done
git -C $W checkout -q -- .
