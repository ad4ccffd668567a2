#!/bin/bash
# Regenerates contracts/baseline.json and contracts/baseline_locals.json from /repo's current tree.
# Run by hand after a reviewed change of /repo or of the contracts, never by a check.
set -e
cd "$(dirname "$0")/.."
mkdir -p build
vx/target/release/vx --src /repo/src --contracts contracts --out build/base.rs --map build/base.json --auto-external
python3 - <<'P'
import json
m=json.load(open('build/base.json'))
json.dump({'keys':sorted(f['key'] for f in m['functions']),
           'shapes':{f['key']:f['shape'] for f in m['functions'] if f['shape']}},open('contracts/baseline.json','w'),indent=0,sort_keys=True)
json.dump(m['locals'],open('contracts/baseline_locals.json','w'),indent=0,sort_keys=True)
P
