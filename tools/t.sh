#!/bin/bash
# t.sh module [args]: solver time per function
m=$1; shift
/tmp/run.sh --verify-only-module $m --triggers-mode silent --multiple-errors 8 --time-expanded --output-json "$@" > /tmp/v.out 2>/tmp/v.err
grep -A${CTX:-14} '^error' /tmp/v.err | head -${LINES_MAX:-50}
python3 - <<'P'
import json
s=open('/tmp/v.out').read(); s=s[s.index('{'):]
d=json.loads(s)
print(d['verification-results'])
for m in d['times-ms']['smt']['smt-run-module-times']:
  for f in sorted(m['function-breakdown'],key=lambda f:-f['time-micros'])[:12]: print(f['function'],round(f['time-micros']/1e6,2),f.get('rlimit'),f['success'])
P
