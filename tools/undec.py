"""Re-run the checks on the surviving mutants of a campaign and list the undecided reasons (development aid)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import mutate
import ast
ms = [json.loads(l) for l in open(sys.argv[1])]
ms = [m for m in ms if not m['caught']]
if len(sys.argv) > 3:
    ms = [m for m in ms if sys.argv[3] in m['file'] + ':' + m['fn']]
def one(m):
    s = mutate.sites(ast.parse(open(os.path.join(mutate.REPO, m['file'])).read()))
    if m['k'] >= len(s) or s[m['k']][0] != m['what']:
        return None
    d = tempfile.mkdtemp(prefix='un', dir='/tmp')
    try:
        shutil.copytree('/repo/beluga', d + '/beluga', ignore=shutil.ignore_patterns('__pycache__', '*.so'))
        mutate.mutate(m, d)
        res = {}
        for c in m['checks']:
            p = subprocess.run(['timeout', '400', 'python3', '-m', 'sa.check', c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev'))
            o = [x[:300] for x in (p.stdout + p.stderr).splitlines() if 'undecided:' in x or 'BROKEN' in x or 'VIOLATION' in x]
            res[c] = (p.returncode, o[:3])
        return res
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(7) as ex, open(sys.argv[2], 'w') as f:
    for m, r in zip(ms, ex.map(one, ms)):
        if r is None:
            continue
        m['now'] = r
        m['caught'] = any(v[0] == 1 for v in r.values())
        f.write(json.dumps(m) + '\n'); f.flush()
