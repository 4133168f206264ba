"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet (a development aid).

python3 tools/refactor.py <kind> DEST      writes a copy of /repo/beluga rewritten by <kind> to DEST/beluga
kinds: see KINDS
"""
import ast
import builtins
import copy
import os
import shutil
import sys

REPO = os.environ.get('REFREPO', '/repo')


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def funcs(tree):
    return [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]


def bodies(tree):
    """every statement list inside functions"""
    for f in funcs(tree):
        for n in ast.walk(f):
            for a in ('body', 'orelse', 'finalbody'):
                b = getattr(n, a, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    yield n, a, b


def unique(lists):
    seen = set()
    for n, a, b in lists:
        if id(b) not in seen:
            seen.add(id(b))
            yield n, a, b


CNT = [0]


def fresh(p='tmp'):
    CNT[0] += 1
    return '_%s%d' % (p, CNT[0])


def N(x, store=False):
    return ast.Name(id=x, ctx=ast.Store() if store else ast.Load())


def asg(x, v):
    return ast.Assign(targets=[N(x, True)], value=v)


def r_plain(tree):
    pass


def r_rename(tree):
    """locals get other names"""
    def outer(node):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.FunctionDef):
                yield ch
            else:
                yield from outer(ch)
    for f in outer(tree):
        params, keep = set(), set()
        for g in ast.walk(f):
            if isinstance(g, (ast.FunctionDef, ast.Lambda)):
                a = g.args
                for x in a.args + a.kwonlyargs + a.posonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                    params.add(x.arg)
            if isinstance(g, ast.FunctionDef) and g is not f:
                keep.add(g.name)
            if isinstance(g, (ast.Global, ast.Nonlocal)):
                keep |= set(g.names)
            if isinstance(g, ast.ClassDef):
                keep.add(g.name)
                keep |= names(g)
            if isinstance(g, ast.ExceptHandler) and g.name:
                keep.add(g.name)
            if isinstance(g, (ast.Import, ast.ImportFrom)):
                keep |= {(x.asname or x.name).split('.')[0] for x in g.names}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - keep
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'exec', 'eval') for x in ast.walk(f)):
            continue
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_rn'


def r_temp(tree):
    """values of return statements and attribute assignments go through a temporary"""
    for n, a, b in unique(list(bodies(tree))):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None:
                t = fresh()
                out += [asg(t, s.value), ast.Return(value=N(t))]
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)) and len(s.targets) == 1:
                t = fresh()
                out += [asg(t, s.value), ast.Assign(targets=s.targets, value=N(t))]
            else:
                out.append(s)
        b[:] = out


def r_calltemp(tree):
    """arguments of call statements go through temporaries"""
    for n, a, b in unique(list(bodies(tree))):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else None
            if isinstance(v, ast.Call) and not any(isinstance(x, ast.Starred) for x in v.args) and isinstance(v.func, (ast.Name, ast.Attribute)) \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                for i, x in enumerate(v.args):
                    if isinstance(x, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.ListComp)):
                        t = fresh()
                        out.append(asg(t, x))
                        v.args[i] = N(t)
            out.append(s)
        b[:] = out


def r_comp(tree):
    """list comprehensions become loops"""
    for n, a, b in unique(list(bodies(tree))):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp):
                t = fresh('acc')
                ren = {x: x + fresh('lv') for g in v.generators for x in names(g.target)}
                for x in ast.walk(v):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
                body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=N(t), attr='append', ctx=ast.Load()), args=[v.elt], keywords=[]))]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(test=c, body=body, orelse=[])]
                    body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
                out += [asg(t, ast.List(elts=[], ctx=ast.Load()))] + body
                s.value = N(t)
            out.append(s)
        b[:] = out


def r_invert(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.If) and x.orelse and not (len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            x.test = ast.UnaryOp(op=ast.Not(), operand=x.test)
            x.body, x.orelse = x.orelse, x.body
        elif isinstance(x, ast.IfExp):
            x.test = ast.UnaryOp(op=ast.Not(), operand=x.test)
            x.body, x.orelse = x.orelse, x.body


def r_ifexp(tree):
    """conditional expressions become statements"""
    for n, a, b in unique(list(bodies(tree))):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp):
                s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
                s1.value, s2.value = v.body, v.orelse
                s = ast.If(test=v.test, body=[s1], orelse=[s2])
            out.append(s)
        b[:] = out


def r_index(tree):
    """loops over sequences become loops over indices"""
    for n, a, b in unique(list(bodies(tree))):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse:
                t, i = fresh('seq'), fresh('i')
                it, tg = s.iter, s.target
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 \
                        and isinstance(tg, ast.Tuple) and isinstance(tg.elts[0], ast.Name):
                    i = tg.elts[0].id
                    it, tg = it.args[0], tg.elts[1]
                elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'count'):
                    out.append(s)
                    continue
                elif isinstance(it, ast.Name) and ('progress' in it.id):
                    out.append(s)
                    continue
                out.append(asg(t, ast.Call(func=N('list'), args=[it], keywords=[])))
                s.iter = ast.Call(func=N('range'), args=[ast.Call(func=N('len'), args=[N(t)], keywords=[])], keywords=[])
                s.target = N(i, True)
                s.body.insert(0, ast.Assign(targets=[tg], value=ast.Subscript(value=N(t), slice=N(i), ctx=ast.Load())))
            out.append(s)
        b[:] = out


def r_while(tree):
    """loops over sequences become while loops"""
    for n, a, b in unique(list(bodies(tree))):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, (ast.Continue, ast.Break, ast.Yield)) for x in ast.walk(s)) \
                    and not (isinstance(s.iter, ast.Name) and 'progress' in s.iter.id):
                t, i = fresh('seq'), fresh('i')
                out.append(asg(t, ast.Call(func=N('list'), args=[s.iter], keywords=[])))
                out.append(asg(i, ast.Constant(value=0)))
                body = [ast.Assign(targets=[s.target], value=ast.Subscript(value=N(t), slice=N(i), ctx=ast.Load()))] + s.body + \
                    [ast.AugAssign(target=N(i, True), op=ast.Add(), value=ast.Constant(value=1))]
                s = ast.While(test=ast.Compare(left=N(i), ops=[ast.Lt()], comparators=[ast.Call(func=N('len'), args=[N(t)], keywords=[])]), body=body, orelse=[])
            out.append(s)
        b[:] = out


def r_impl(tree):
    """every function and method delegates to a helper with its body"""
    def go(node, incls):
        body = node.body
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                go(s, True)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not (s.name.startswith('__') and s.name != '__init__') \
                    and not (incls and not s.args.args) \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and s.name not in ('__new__',):
                g = copy.deepcopy(s)
                g.name = '_%s_body' % s.name.strip('_')
                ar = s.args
                args = [N(x.arg) for x in ar.args]
                if incls:
                    g.name = g.name
                    f = ast.Attribute(value=args[0], attr=g.name, ctx=ast.Load())
                    args = args[1:]
                    g.name = g.name
                else:
                    f = N(g.name)
                if incls and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(s)):
                    out.append(s)
                    continue
                if incls and node.bases and s.name == '__init__':
                    out.append(s)
                    continue
                if incls:
                    # subclasses may override: keep the helper private to this class
                    g.name = '_%s%s' % (node.name, g.name)
                    f.attr = g.name
                if ar.vararg:
                    args.append(ast.Starred(value=N(ar.vararg.arg), ctx=ast.Load()))
                kws = [ast.keyword(arg=x.arg, value=N(x.arg)) for x in ar.kwonlyargs]
                if ar.kwarg:
                    kws.append(ast.keyword(arg=None, value=N(ar.kwarg.arg)))
                g.args.defaults = []
                g.args.kw_defaults = [None for _ in ar.kwonlyargs]
                doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                s.body = doc + [ast.Return(value=ast.Call(func=f, args=args, keywords=kws))]
                if not incls:
                    out += [g, s]
                else:
                    out += [s, g]
                continue
            out.append(s)
        node.body = out
    go(tree, False)


def r_helper(tree):
    """right-hand sides move to module-level helper functions"""
    new = []
    mod = {x.name for x in tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    for x in tree.body:
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            mod |= {(y.asname or y.name).split('.')[0] for y in x.names}
        if isinstance(x, ast.Assign):
            mod |= names(x, ast.Store)
    for n, a, b in unique(list(bodies(tree))):
        if isinstance(n, ast.ClassDef):
            continue
        for s in b:
            v = getattr(s, 'value', None)
            if not isinstance(s, (ast.Assign, ast.Return)) or not isinstance(v, (ast.BinOp, ast.Call, ast.ListComp)):
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.Await, ast.Starred)) or
                   isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(v)):
                continue
            bound = {y for x in ast.walk(v) if isinstance(x, ast.comprehension) for y in names(x.target)}
            fv = sorted(x for x in names(v, ast.Load) if x not in mod and not hasattr(builtins, x) and x not in bound)
            if set(fv) & bound or not fv:
                continue
            h = fresh('helper')
            new.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in fv], kwonlyargs=[],
                                       kw_defaults=[], defaults=[]), body=[ast.Return(value=v)], decorator_list=[]))
            s.value = ast.Call(func=N(h), args=[N(x) for x in fv], keywords=[])
    k = max([i for i, x in enumerate(tree.body) if isinstance(x, (ast.Import, ast.ImportFrom))] or [-1]) + 1
    tree.body[k:k] = new


def r_append(tree):
    """x = []; loop with append   ->   comprehension"""
    for n, a, b in unique(list(bodies(tree))):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) \
                    and isinstance(t, ast.For) and len(t.body) == 1 and not t.orelse and isinstance(t.body[0], ast.Expr):
                c = t.body[0].value
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and \
                        isinstance(c.func.value, ast.Name) and c.func.value.id == s.targets[0].id:
                    s.value = ast.ListComp(elt=c.args[0], generators=[ast.comprehension(target=t.target, iter=t.iter, ifs=[], is_async=0)])
                    b[i + 1] = ast.Pass()


def r_swap(tree):
    """adjacent independent simple assignments change places"""
    def pure(v):
        return not any(isinstance(x, (ast.Call, ast.Subscript, ast.Yield)) for x in ast.walk(v))
    for n, a, b in unique(list(bodies(tree))):
        i = 0
        while i < len(b) - 1:
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) and pure(x.value) for x in (s, t)):
                us, ut = ast.unparse(s.targets[0]), ast.unparse(t.targets[0])
                if us != ut and us not in ast.unparse(t) and ut not in ast.unparse(s) and \
                        not any(isinstance(x, ast.Attribute) for x in list(ast.walk(s.value)) + list(ast.walk(t.value))):
                    b[i], b[i + 1] = t, s
                    i += 1
            i += 1


def r_noop(tree):
    for f in funcs(tree):
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(k, asg('_unused_marker', ast.Constant(value=None)))
        f.body.insert(k, ast.Pass())


def r_else(tree):
    """if c: ...return  rest  ->  if c: ...return else: rest, and elif chains unnested"""
    for n, a, b in unique(list(bodies(tree))):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b) \
                    and not isinstance(n, (ast.For, ast.While)):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


def r_early(tree):
    """if c: ...return else: rest -> early return"""
    for n, a, b in unique(list(bodies(tree))):
        while b and isinstance(b[-1], ast.If) and b[-1].orelse and isinstance(b[-1].body[-1], (ast.Return, ast.Raise)):
            s = b[-1]
            b.extend(list(s.orelse))
            s.orelse = []


def r_kwargs(tree):
    """dict literals become dict calls, tuples in isinstance split"""
    for x in ast.walk(tree):
        for name, val in ast.iter_fields(x):
            vals = val if isinstance(val, list) else [val]
            for i, v in enumerate(vals):
                new = None
                if isinstance(v, ast.Dict) and v.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in v.keys):
                    new = ast.Call(func=N('dict'), args=[], keywords=[ast.keyword(arg=k.value, value=y) for k, y in zip(v.keys, v.values)])
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'isinstance' and isinstance(v.args[1], ast.Tuple):
                    new = ast.BoolOp(op=ast.Or(), values=[ast.Call(func=N('isinstance'), args=[v.args[0], y], keywords=[]) for y in v.args[1].elts])
                elif isinstance(v, ast.AugAssign) and False:
                    pass
                if new is not None:
                    if isinstance(val, list):
                        val[i] = new
                    else:
                        setattr(x, name, new)


def r_unpack(tree):
    """a, b = x, y  ->  two assignments through temporaries; attribute reads of self cached"""
    for n, a, b in unique(list(bodies(tree))):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets) == 1 \
                    and len(s.targets[0].elts) == len(s.value.elts):
                ts = [fresh() for _ in s.value.elts]
                out += [asg(t, v) for t, v in zip(ts, s.value.elts)]
                out += [ast.Assign(targets=[g], value=N(t)) for g, t in zip(s.targets[0].elts, ts)]
                continue
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and len(s.targets) == 1 and \
                    not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
                t = fresh()
                out.append(asg(t, ast.Call(func=N('tuple'), args=[s.value], keywords=[])))
                out += [ast.Assign(targets=[g], value=ast.Subscript(value=N(t), slice=ast.Constant(value=i), ctx=ast.Load()))
                        for i, g in enumerate(s.targets[0].elts)]
                continue
            out.append(s)
        b[:] = out


def r_nested(tree):
    """loop bodies move to local functions"""
    for n, a, b in unique(list(bodies(tree))):
        if isinstance(n, ast.ClassDef):
            continue
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, (ast.Continue, ast.Break, ast.Yield, ast.Return, ast.Nonlocal)) for x in ast.walk(s)):
                stored = set()
                for x in s.body:
                    stored |= names(x, ast.Store)
                    stored |= {y.name for y in ast.walk(x) if isinstance(y, ast.FunctionDef)}
                if not stored and isinstance(s.target, (ast.Name, ast.Tuple)) and \
                        not (isinstance(s.target, ast.Tuple) and any(not isinstance(e, ast.Name) for e in s.target.elts)):
                    h = fresh('each')
                    ps = [s.target.id] if isinstance(s.target, ast.Name) else [e.id for e in s.target.elts]
                    out.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in ps], kwonlyargs=[],
                                               kw_defaults=[], defaults=[]), body=s.body, decorator_list=[]))
                    s.body = [ast.Expr(value=ast.Call(func=N(h), args=[N(x) for x in ps], keywords=[]))]
            out.append(s)
        b[:] = out


KINDS = {k[2:]: v for k, v in globals().items() if k.startswith('r_')}


def main(kind, dest, only=''):
    shutil.rmtree(os.path.join(dest, 'beluga'), ignore_errors=True)
    shutil.copytree(os.path.join(REPO, 'beluga'), os.path.join(dest, 'beluga'), ignore=shutil.ignore_patterns('__pycache__'))
    for d, _, fs in os.walk(os.path.join(dest, 'beluga')):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.py') and 'test' not in d and f not in ('__main__.py', '__init__.py') and only in p:
                t = ast.parse(open(p).read())
                for k in kind.split('+'):
                    KINDS[k](t)
                    ast.fix_missing_locations(t)
                src = ast.unparse(t)
                compile(src, p, 'exec')
                open(p, 'w').write(src + '\n')


if __name__ == '__main__':
    main(*sys.argv[1:])
