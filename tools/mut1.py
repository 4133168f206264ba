"""Apply the mutants of a campaign matching 'fn line what' and show what the checks say (development aid)."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
import mutate
fn, line = sys.argv[2], sys.argv[3]
what = sys.argv[4] if len(sys.argv) > 4 else ''
chk = sys.argv[5].split(',') if len(sys.argv) > 5 else None
for l in open(sys.argv[1]):
    m = json.loads(l)
    if fn in m['fn'] and str(m['line']) == line and what in m['what'] and (not m['caught'] or chk):
        d = '/tmp/m1'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo/beluga', d + '/beluga')
        mutate.mutate(m, d)
        print(m['fn'], m['line'], m['what'])
        for c in chk or m['checks']:
            p = subprocess.run(['timeout', '300', 'python3', '-m', 'sa.check', c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/m1/ev'))
            o = [x[:400] for x in (p.stdout + p.stderr).splitlines()]
            print(c, p.returncode, '\n   '.join(o[-6:]))
        break
