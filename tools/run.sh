#!/bin/bash
cd /verif
vx/target/release/vx --src ${SRC:-/repo/src} --contracts contracts --out build/all.rs --map build/map.json --auto-external --baseline contracts/baseline_locals.json --shapes contracts/baseline.json || exit 3
python3 - <<'P'
import json
m=json.load(open('/verif/build/map.json'))
for l in m['lost']: print('LOST',l)
P
cd build && verus all.rs --crate-type=lib --edition 2021 ${@} 
