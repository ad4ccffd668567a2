#!/bin/bash
# errs.sh: one line for each error of the last v.sh run
grep -A3 '^error' /tmp/v.out | grep -e '-->' | sed 's/.*rs:\([0-9]*\):.*/\1/' | while read l; do awk -v L=$l 'NR<=L && /(^|pub |    )(proof |open spec )?fn /{f=$0} NR==L{print L": "substr(f,1,70)" :: "substr($0,1,160)}' /verif/build/all.rs; done
