#!/bin/bash
# development helper: overlay + verus for one unit
u=$1; shift
mkdir -p /tmp/vx; ${OVBIN:-/verif/overlay/target/debug/overlay} ${REPO:-/repo}/src /verif/contracts/$u.tpl /tmp/vx/$u.rs /tmp/vx/$u.json $OV || exit 3
python3 -c "
import json;m=json.load(open('/tmp/vx/$u.json'))
for k in ('missing','problems','uncontracted'): 
  if m[k]: print(k,m[k])"
cd /tmp/vx && verus $u.rs "$@"
