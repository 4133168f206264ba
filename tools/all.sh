#!/bin/bash
# run every check on $VERIF_REPO (default /repo); summary only
cd "$(dirname "$0")/.."
ids=${*:-$(ls sa/rules | grep -o '^c[0-9][0-9]' | sort -u | tr c C)}
for c in $ids; do (timeout 880 python3 -m sa.check $c > /tmp/all.$c.out 2>&1; echo "$c rc=$? $(head -c 250 /tmp/all.$c.out | head -1)  $(grep -c VIOLATION /tmp/all.$c.out)") & done; wait
