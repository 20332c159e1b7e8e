#!/bin/bash
# development: run every contract unit of the given properties side by side; prints those not proved
cd "$(dirname "$0")/.."; d=$(mktemp -d); for p in "$@"; do (timeout 1500 python3-vt vc/run.py $p > $d/$p.log 2>&1; echo done >> $d/$p.log) & done; wait
for p in "$@"; do echo "$p $(grep -c ^proved $d/$p.log) proved, slowest $(grep -h 's  q=' $d/$p.log | sed 's/.*  \([0-9.]*\)s  q.*/\1/' | sort -n | tail -1)"; grep "^undecided\|^failed\|^unknown\|^bounded" $d/$p.log | cut -c1-250; done; rm -r "$d"
