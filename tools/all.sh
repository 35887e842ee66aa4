#!/bin/bash
# run every check (or those named) in parallel; one line each
cd "$(dirname "$0")/.."
P=${*:-$(python3 -c "import sys;sys.path.insert(0,'lib');from pa.checks.registry import CHECKS;print(*sorted(CHECKS))")}
for p in $P; do
 ( s=$(date +%s); python3 run.py $p > /tmp/chk-$p.log 2>&1; echo "rc=$? $(( $(date +%s)-s ))s viol=$(grep -c ^VIOLATION /tmp/chk-$p.log) undec=$(grep -c ^UNDEC /tmp/chk-$p.log) $(grep "^$p:" /tmp/chk-$p.log)" ) &
 while [ $(jobs -r | wc -l) -ge ${J:-5} ]; do wait -n; done
done; wait
