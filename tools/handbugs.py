"""handbugs.py FILE [names...]: apply each hand-written bug of FILE (blocks '### name props', file, '---' old '---' new) to a
scratch copy and run the checks; prints which catch it."""
import sys, os, re, shutil, subprocess, concurrent.futures as cf
SRC = os.environ.get('HB_SRC', '/repo')
ROOT = '/tmp/hb'
def parse(path):
    out = []
    for blk in re.split(r'(?m)^### ', open(path).read())[1:]:
        head, body = blk.split('\n', 1)
        name, *props = head.split()
        edits = []
        for ed in re.split(r'(?m)^@@ ', body)[1:]:
            f, rest = ed.split('\n', 1)
            old, new = re.split(r'(?m)^-----\n', rest, maxsplit=1)
            edits.append((f.strip(), old.rstrip('\n'), new.rstrip('\n')))
        out.append((name, props, edits))
    return out
def apply(dest, edits):
    for f, old, new in edits:
        p = os.path.join(dest, f); s = open(p).read()
        if s.count(old) != 1:
            return 'matches %d times: %r' % (s.count(old), old[:60])
        open(p, 'w').write(s.replace(old, new))
def run(item):
    name, props, edits = item
    d = ROOT + '/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d); shutil.copytree(SRC + '/beluga', d + '/beluga', ignore=shutil.ignore_patterns('__pycache__'))
    e = apply(d, edits)
    if e: return name, props, 'BAD ' + e
    os.makedirs(d + '/ev')
    res = []
    ids = ALL if not props or '*' in props else props
    got, why = [], []
    for c in ids:
        r = subprocess.run(['timeout', '600', 'python3', '-m', 'sa.check', c], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev'))
        m = re.search(r'(\d+) undecided', r.stdout)
        got.append('%s:%s%s' % (c, r.returncode, '' if not m or m.group(1) == '0' else '(u%s)' % m.group(1)))
    if not any(':1' in g for g in got):
        rest = [c for c in ALL if c not in ids]
        for c in rest:
            r = subprocess.run(['timeout', '600', 'python3', '-m', 'sa.check', c], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev'))
            if r.returncode: got.append('other %s:%s' % (c, r.returncode))
    shutil.rmtree(d, ignore_errors=True)
    return name, props, ('caught ' if any(re.match(r'C\d+:1', g) for g in got) else 'MISSED ') + ' '.join(got)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(f[:-3].upper() for f in os.listdir(VERIF + '/sa/rules') if re.match(r'c\d\d\.py', f))
if __name__ == '__main__':
    items = parse(sys.argv[1])
    if len(sys.argv) > 2: items = [i for i in items if any(a in i[0] for a in sys.argv[2:])]
    with cf.ThreadPoolExecutor(8) as ex:
        for name, props, r in ex.map(run, items):
            print(name, ' '.join(props), '->', r, flush=True)
