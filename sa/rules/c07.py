"""C07: automatic scaling is transparent: scaling and unscaling restores the trajectory, each field by its own factors."""
from .mapsc import *
from ..lib import fn1

EXPLANATION = ('The scaling functions are compiled abstractly from a symbolic problem with any number of components and '
               'units; they are applied to a symbolic trajectory and the value graphs of every field and every factor '
               'are compared with the specification.')

# field, list of components it belongs to
FIELDS = (('t', 'independent_variable'), ('y', 'states'), ('q', 'quads'), ('u', 'controls'),
          ('dynamical_parameters', 'parameters'), ('nondynamical_parameters', 'constraint_parameters'),
          ('const', 'constants'))


def run(prog, rep):
    rep.assumptions += ['scale factors are nonzero', 'sympy.lambdify evaluates under its positional binding']
    for u in (True, False):
        nm = 'with controls' if u else 'no controls'
        scenario(rep, nm, lambda: one(prog, rep, nm, u))


def one(prog, rep, nm, u):
    s = base(prog)
    I, st, P = s.I, s.st, s.P
    I.elemattr['units'] = find_class(prog, CS, 'NamedExpressionStruct')
    if not u:
        empty(I, st, P, 'controls')
    snap(s)
    cp = plist(I, st, P, 'constraint_parameters')
    traj(s, nondynamical_parameters=slen(cp), u=slen(s.U0) if u else None)
    sol = s.sol
    # the control array has entries; an empty one scales to itself
    some = (lt(ZERO, mul(slen(s.U0), s.N)),) if u else ()
    nonempty = (lt(ZERO, s.N),) + tuple(lt(ZERO, mul(s.N, slen(plist(I, st, P, x)))) for x in ('states', 'quads'))
    b4 = {f: tf(I, st, sol, f) for f in TFIELDS}
    cls = find_class(prog, NP, 'NumericProblem')
    w = where(prog, cls) + '.compile_scaling'
    N = I.instantiate(cls, [P], {'local_compiler': I.read(st, P, 'local_compiler')}, st, None)
    I.call_method(N, '_initialize', [], {}, st, None) if cls.find('_initialize')[1] is not None else None
    I.call_method(N, 'compile_scaling', [], {}, st, None)
    note(rep, I)
    csf, sc = I.read(st, N, 'compute_scale_factors'), I.read(st, N, 'scale_sol')
    # factors as the code computes them
    units = plist(I, st, P, 'units')
    usym, uexp = field(I, st, units, 'sym'), field(I, st, units, 'expr')
    F = I.V(st, I.call(csf, [sol], {}, st, None))
    note(rep, I)
    tsym = I.read(st, I.read(st, P, 'independent_variable'), 'sym')
    groups = [tsym] + [field(I, st, plist(I, st, P, k), 'sym') for k in
                       ('states', 'quads', 'parameters', 'constraint_parameters', 'constants')]
    vals = [maxmag(I, st, b4['t']), maxmag(I, st, b4['y']), maxmag(I, st, b4['q'])] + \
        [elems(I, st, b4[f], lambda x: fn1('abs')(x)) for f in
         ('dynamical_parameters', 'nondynamical_parameters', 'const')]
    b = I.lib.bind_groups(I, st, groups, vals)
    uf = I.lib.evaluate(I, st, uexp, b)
    b2 = I.lib.bind_groups(I, st, [usym], [uf])
    want = []
    for f, k in FIELDS:
        if k == 'independent_variable':
            e = I.read(st, I.read(st, P, k), 'units')
        else:
            e = field(I, st, plist(I, st, P, k), 'units')
        want.append(I.lib.evaluate(I, st, e, b2))
    if F.op in ('tup', 'seq') and len(F.args) == len(want):
        for (f, k), g, x in zip(FIELDS, F.args, want):
            g = I.reify(st, I.V(st, g))
            if f == 't' and g.op in ('seq', 'tup') and len(g.args) == 1:
                g = g.args[0]
            rep.equal('%s: scale factors of %s are their units in terms of the reference magnitudes' % (nm, f),
                      g, x, w, assume=nonempty)
    else:
        rep.undecided('%s: scale factors' % nm, 'shape of %s' % show(F)[:200], w)
    # abstract factors
    fs = [sym('f_t', 'real')]
    for f, k in FIELDS[1:]:
        v = sym('f_' + f)
        tm.LEN_AX[v] = slen(plist(I, st, P, k))
        I.ranks[v] = 1
        fs.append(v)
    a = I.call(sc, [sol, tup(*fs)], {}, st, None)
    got = {f: tf(I, st, a, f) for f in TFIELDS}
    for f in TFIELDS:
        rep.equal('%s: scaling leaves the original %s alone' % (nm, f), tf(I, st, sol, f), b4[f], w)
    names = [f for f, k in FIELDS]
    for f in TFIELDS:
        if f in names:
            want = scaled(I, st, f, b4[f], fs[names.index(f)], True)
        else:
            want = b4[f]
        if f == 'u' and not u:
            want = b4[f]
        rep.equal('%s: scaling divides %s by its own factor only' % (nm, f), got[f], want, w,
                  assume=some if f == 'u' else ())
    z = I.call(sc, [sol, tup(*fs)], {'inv': TRUE}, st, None)
    for f in names:
        if f == 'u' and not u:
            continue
        rep.equal('%s: unscaling multiplies %s by the factor scaling divides it by' % (nm, f), tf(I, st, z, f),
                  scaled(I, st, f, b4[f], fs[names.index(f)], False), w, assume=some if f == 'u' else ())
    r = I.call(sc, [a, tup(*fs)], {'inv': TRUE}, st, None)
    for f in TFIELDS:
        rep.equal('%s: scaling then unscaling restores %s' % (nm, f), tf(I, st, r, f), b4[f], w)
    note(rep, I)


def scaled(I, st, f, x, g, div):
    op = (lambda a, b: div_(a, b)) if div else mul
    if f == 't':
        return elems(I, st, x, lambda e: op(e, g))
    if f in MATS:
        return elems(I, st, x, lambda row: rows(slen(g), lambda j: op(at(row, j), at(g, j))))
    return rows(slen(g), lambda j: op(at(x, j), at(g, j)))


def div_(a, b):
    return tm.div(a, b)


def maxmag(I, st, a):
    """largest magnitude of each column over the nodes"""
    a = I.reify(st, I.V(st, a))
    if I.lib.rank(I, a) == 1:
        return mk('call', 'max', elems(I, st, a, lambda x: fn1('abs')(x)))
    n, m = I.lib.shape_of(I, a).args
    return rows(m, lambda j: mk('call', 'max', rows(n, lambda i: fn1('abs')(at(at(a, i), j)))))
