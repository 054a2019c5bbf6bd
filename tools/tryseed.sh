#!/bin/bash
# tryseed.sh <seed id>... : run the property's quick check against a copy of /repo with the planted bug
for i in "$@"; do d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
T=$(mktemp -d /tmp/tryseed_XXXX); git clone -q /repo $T/r; git -C $T/r apply $d/patch.diff || continue; VP_REPO=$T/r python3 /verif/run.py $p quick > /tmp/ts_$i.log 2>&1; rc=$?; rm -rf $T; echo "$i $p rc=$rc $(grep -m1 VIOLATION /tmp/ts_$i.log | cut -c1-150)"; done
