"""newseed.py <id> <property> <file> <needs> <what> : reads OLD/NEW/DEMO sections from stdin (separated by lines '=====')
and writes seeded/<id>/ (patch against /repo HEAD, demo.sh, demo.py, meta.json)"""
import json, os, subprocess, sys, difflib
sid, prop, needs, what = sys.argv[1:5]
parts = sys.stdin.read().split('=====\n')
# parts: file, old, new, (file, old, new)*, demo
demo = parts[-1]
edits = parts[:-1]
assert len(edits) % 3 == 0
txt = {}
for i in range(0, len(edits), 3):
    f, old, new = edits[i].strip(), edits[i + 1], edits[i + 2]
    s = txt.get(f) or open('/repo/' + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    txt[f] = s.replace(old, new)
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
out = ''
for f, s in txt.items():
    a = open('/repo/' + f).read()
    out += 'diff --git a/%s b/%s\n' % (f, f)
    out += ''.join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
open(d + '/patch.diff', 'w').write(out)
open(d + '/demo.py', 'w').write(demo)
open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nD=$(cd "$(dirname "$0")" && pwd)\n'
    'W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
    'MPLCONFIGDIR=$W\ncd "$W" && /opt/venv/bin/python "$D/demo.py"\n')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
