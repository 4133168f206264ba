"""Mutation campaign over /repo with the static checks (a development aid, not a registered check).

python3 tools/mutate.py gen OUT.jsonl [file-substring]     list mutants
python3 tools/mutate.py run IN.jsonl OUT.jsonl [n] [seed]  run the relevant checks on n sampled mutants
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def files():
    for d, _, fs in os.walk(os.path.join(REPO, 'beluga')):
        for f in fs:
            if f.endswith('.py') and 'test' not in d and f not in ('__main__.py', 'release.py', '__init__.py'):
                yield os.path.join(d, f)


def coverage():
    cov = {}
    for f in os.listdir(os.path.join(ROOT, 'evidence')):
        if f.endswith('.json') and f.startswith('C'):
            d = json.load(open(os.path.join(ROOT, 'evidence', f)))
            for q in d['coverage'].get('analysed', {}).get('functions', []):
                cov.setdefault(q, set()).add(f[:-5])
    return cov


CMPS = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BINS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def sites(tree):
    """(description, function that applies the mutation in place)"""
    out = []

    def visit(node, qual, infn):
        for name, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        here(node, name, i, x, qual, infn)
            elif isinstance(val, ast.AST):
                here(node, name, None, val, qual, infn)

    def put(p, name, i, new):
        if i is None:
            setattr(p, name, new)
        else:
            getattr(p, name)[i] = new

    def add(desc, node, qual, fn):
        out.append((desc, getattr(node, 'lineno', 0), qual, fn))

    def here(p, name, i, x, qual, infn):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            q = qual + [x.name]
            visit(x, q, infn or isinstance(x, ast.FunctionDef))
            return
        if not infn:
            visit(x, qual, infn)
            return
        if isinstance(x, ast.Compare) and type(x.ops[0]) in CMPS:
            add('cmp', x, qual, lambda x=x: x.ops.__setitem__(0, CMPS[type(x.ops[0])]()))
        if isinstance(x, ast.BinOp) and type(x.op) in BINS and not (isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)):
            add('bin', x, qual, lambda x=x: setattr(x, 'op', BINS[type(x.op)]()))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.Not)):
            add('unary', x, qual, lambda: put(p, name, i, x.operand))
        if isinstance(x, ast.Constant) and isinstance(x.value, bool):
            add('bool', x, qual, lambda: setattr(x, 'value', not x.value))
        elif isinstance(x, ast.Constant) and isinstance(x.value, int):
            add('int', x, qual, lambda: setattr(x, 'value', x.value + 1))
            if x.value > 0:
                add('int-', x, qual, lambda: setattr(x, 'value', x.value - 1))
        elif isinstance(x, ast.Constant) and isinstance(x.value, float):
            add('float', x, qual, lambda: setattr(x, 'value', x.value * 2 + 1))
        if isinstance(x, (ast.If, ast.While, ast.IfExp)):
            add('negate', x, qual, lambda: setattr(x, 'test', ast.UnaryOp(op=ast.Not(), operand=x.test)))
        if isinstance(x, ast.BoolOp):
            add('boolop', x, qual, lambda: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
        if isinstance(x, ast.Call):
            if len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args):
                for j in range(len(x.args) - 1):
                    add('swapargs%d' % j, x, qual, lambda j=j: x.args.__setitem__(slice(j, j + 2), [x.args[j + 1], x.args[j]]))
            for j, k in enumerate(x.keywords):
                add('dropkw ' + str(k.arg), x, qual, lambda j=j: x.keywords.pop(j))
            f = x.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            if nm in ('deepcopy', 'copy', 'reversed', 'sorted', 'list', 'array', 'abs', 'fabs') and len(x.args) == 1:
                add('unwrap ' + nm, x, qual, lambda: put(p, name, i, x.args[0]))
        if isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign)) and i is not None and name in ('body', 'orelse', 'finalbody'):
            if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                add('delstmt', x, qual, lambda: put(p, name, i, ast.copy_location(ast.Pass(), x)))
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            SW = {'states': 'parameters', 'parameters': 'constraint_parameters', 'constraint_parameters': 'parameters',
                  'initial': 'terminal', 'terminal': 'initial', 'y': 'q', 'q': 'y', 'dynamical_parameters': 'nondynamical_parameters',
                  'nondynamical_parameters': 'dynamical_parameters', 'u': 'y', 'dual': 'y', 'sym': 'name', 'units': 'sym', 'eom': 'sym',
                  'costates': 'states', 'lower': 'upper', 'upper': 'lower', 'expr': 'units', 'constants': 'parameters'}
            if x.attr in SW:
                add('attr ' + x.attr, x, qual, lambda: setattr(x, 'attr', SW[x.attr]))
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in ('initial', 'terminal', 'path'):
            add('loc', x, qual, lambda: setattr(x, 'value', 'terminal' if x.value == 'initial' else 'initial'))
        if isinstance(x, (ast.Break, ast.Continue)):
            add('ctl', x, qual, lambda: put(p, name, i, ast.copy_location(ast.Pass(), x)))
        visit(x, qual, infn)
    visit(tree, [], False)
    return out


def gen(out, only=''):
    n = 0
    with open(out, 'w') as f:
        for path in sorted(files()):
            if only not in path:
                continue
            src = open(path).read()
            for k, (d, ln, q, _) in enumerate(sites(ast.parse(src))):
                f.write(json.dumps({'file': os.path.relpath(path, REPO), 'k': k, 'what': d, 'line': ln, 'fn': '.'.join(q)}) + '\n')
                n += 1
    print(n, 'mutants')


def relevant(m, cov):
    mod = m['file'][:-3].replace('/', '.')
    q = mod + '.' + m['fn']
    s = set()
    for f, cs in cov.items():
        if f == q or q.startswith(f + '.') or f.startswith(q + '.'):
            s |= cs
    return sorted(s)


def mutate(m, dst):
    path = os.path.join(REPO, m['file'])
    tree = ast.parse(open(path).read())
    sites(tree)[m['k']][3]()
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree)
    open(os.path.join(dst, m['file']), 'w').write(new)
    return new


def test(m, cov):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    try:
        shutil.copytree(os.path.join(REPO, 'beluga'), os.path.join(d, 'beluga'), ignore=shutil.ignore_patterns('__pycache__', '*.so'))
        mutate(m, d)
        m = dict(m, checks={})
        for c in relevant(m, cov):
            r = subprocess.run([sys.executable, '-m', 'sa.check', c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d),
                               capture_output=True, text=True, timeout=900)
            first = (r.stdout.strip().splitlines() or [''])[0]
            m['checks'][c] = [r.returncode, first]
            if r.returncode == 1:
                break
        m['caught'] = any(v[0] == 1 for v in m['checks'].values())
        return m
    except Exception as x:
        return dict(m, error=repr(x), caught=None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(inp, out, n=None, seed=1):
    ms = [json.loads(l) for l in open(inp)]
    if n:
        random.Random(seed).shuffle(ms)
        ms = ms[:n]
    cov = coverage()
    c = [0, 0]
    with open(out, 'a') as f, ThreadPoolExecutor(8) as ex:
        for m in ex.map(lambda m: test(m, cov), ms):
            f.write(json.dumps(m) + '\n')
            f.flush()
            c[0] += bool(m.get('caught'))
            c[1] += 1
    print('caught %d of %d' % tuple(c))


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'gen':
        gen(a[2], *(a[3:]))
    else:
        run(a[2], a[3], int(a[4]) if len(a) > 4 else None, int(a[5]) if len(a) > 5 else 1)
