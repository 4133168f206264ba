"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand, outputs are committed)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n for n in NA]:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 -m sa.check %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 -m sa.check %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p.get('technique', 'static value-graph analysis (gated-SSA value numbering) of the source'),
        'level': p.get('level', 'other'),
        'level_note': p['level_note'],
    } for p in PROPS],
    'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
    'notes': 'The checks parse /repo from source on every run; nothing of beluga is imported or executed.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')

import importlib
import re
sys.path.insert(0, ROOT)
out = []
for p in sorted(PROPS, key=lambda p: p['id']):
    m = importlib.import_module('sa.rules.' + p['id'].lower())
    out.append('**%s. %s.** %s %s\n' % (p['id'], p['title'], m.EXPLANATION, p['level_note']))
lines = open(os.path.join(ROOT, 'known_findings.txt')).read().splitlines()
fx = [re.sub(r'^fixed: property=(\S+) (\S+) ', r'* \1, `\2`: ', l) for l in lines if l.startswith('fixed:')]
fd = [re.sub(r'^finding: property=(\S+) obligation=(.*?) :: ', r'* \1 (\2): ', l) for l in lines if l.startswith('finding:')]
t = open(os.path.join(ROOT, 'tools', 'design.md')).read()
notes = open(os.path.join(ROOT, 'tools', 'design_notes.md')).read()
na = ['**%s. %s.** %s\n' % (n['id'], n['title'], n['reason']) for n in NA] or ['None.']
for k, v in (('PROPERTIES', '\n'.join(out)), ('NA', '\n'.join(na)), ('FIXED', '\n'.join(fx)), ('FINDINGS', '\n'.join(fd)), ('NOTES', notes)):
    t = t.replace('@@%s@@' % k, v)
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(t)
