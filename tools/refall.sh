#!/bin/bash
# refall.sh DIR [ids...]: run the checks against DIR (a copy holding beluga/) with evidence kept there
cd "$(dirname "$0")/.."
D=$1; shift
ids="$*"; [ -z "$ids" ] && ids=$(ls sa/rules | grep '^c[0-9]' | sed 's/\.py//' | tr a-z A-Z)
mkdir -p $D/ev
for c in $ids; do echo $c; done | xargs -P 8 -I{} sh -c "VERIF_REPO=$D VERIF_EVIDENCE=$D/ev timeout 900 python3 -m sa.check {} > $D/ev/{}.log 2>&1; echo {} rc=\$? \$(grep obligations $D/ev/{}.log | head -1)" | sort
