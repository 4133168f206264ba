#!/bin/bash
# conc.sh K [ids]: run the checks with the problem's lists at definite lengths (instance family K) on the clean tree
cd "$(dirname "$0")/.."
k=$1; shift
ids="$*"; [ -z "$ids" ] && ids=$(ls sa/rules | grep -o '^c[0-9][0-9]' | tr c C)
for c in $ids; do echo $c; done | SA_CONC=$k xargs -P 8 -I{} sh -c 'VERIF_EVIDENCE=/tmp/ev_$$ timeout 800 python3 -m sa.check {} > /tmp/conc.{}.out 2>&1; echo "{} rc=$? refuted $(grep -c "instance.*refuted" /tmp/conc.{}.out) undecided $(grep -c "instance.*undecided" /tmp/conc.{}.out) $(grep obligations /tmp/conc.{}.out|head -1)"; rm -rf /tmp/ev_$$' | grep -v "refuted 0 undecided 0"
