#!/bin/bash
# hb1.sh FILE NAME CHECK...: leave one hand-written bug applied in /tmp/hb1 and show the checks' output
cd "$(dirname "$0")/.."
python3 - "$1" "$2" <<'P'
import sys, shutil, os
sys.path.insert(0, 'tools')
import handbugs as h
for n, p, e in h.parse(sys.argv[1]):
    if n == sys.argv[2]:
        shutil.rmtree('/tmp/hb1', ignore_errors=True); os.makedirs('/tmp/hb1/ev')
        shutil.copytree('/repo/beluga', '/tmp/hb1/beluga'); print(h.apply('/tmp/hb1', e))
P
shift 2
for c in $*; do VERIF_REPO=/tmp/hb1 VERIF_EVIDENCE=/tmp/hb1/ev timeout 300 python3 -m sa.check $c | cut -c1-400 | head -${LINES_MAX:-8}; done
