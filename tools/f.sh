#!/bin/bash
# f.sh module fn...: verify the named functions (patterns), errors only
m=$1; shift
for f in "$@"; do echo "== $f"; LINES_MAX=${LINES_MAX:-40} /verif/tools/v.sh $m --verify-function $f | grep -v '^error: aborting' | head -60; done
