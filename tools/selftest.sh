#!/bin/bash
# The models of the standard library against their definitions: selftest/c99.rs is decided like a specification.
V=$(cd "$(dirname "$0")/.."; pwd); W=${1:-/tmp/selftest-verif}
mkdir -p $W; cp -a $V/engine $V/driver $V/spec $V/tools $W/; cp $V/selftest/c99.rs $W/spec/c99.rs; mkdir -p $W/evidence
echo '{"C99": []}' > /dev/null
cd $W && VERIF_REPO=${VERIF_REPO:-/repo} VERIF_BUILD=$W/build VERIF_EVIDENCE=$W/evidence python3 engine/run.py C99 -v
cat $W/build/scan-C99/dropped.json
