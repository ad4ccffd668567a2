#!/bin/bash
# v.sh module [extra args]: verify one module, errors only
m=$1; shift
/tmp/run.sh --verify-only-module $m --triggers-mode silent --multiple-errors 8 "$@" > /tmp/v.out 2>&1
grep -E '^LOST' /tmp/v.out
grep -A${CTX:-14} '^error' /tmp/v.out | head -${LINES_MAX:-50}
grep -E '^verification results' /tmp/v.out
