"""C01: mapping a trajectory into the transformed problem and back is the identity."""
from fractions import Fraction
from .mapsc import *

HALF = Fraction(1, 2)

EXPLANATION = ('Every registered trajectory mapper is obtained by abstractly applying its transformation to a symbolic '
               'problem (any number of components); the value graphs of inverse(forward(sol)) and of '
               'forward(inverse(sol)) are compared field by field with the original trajectory.')


def run(prog, rep):
    rep.assumptions += ['numpy insert/delete/concatenate semantics', 'trajectory arrays have the shapes of the problem '
                        'they belong to']
    for name, f in SCEN.items():
        scenario(rep, name, lambda: f(prog, rep, name))
    scenario(rep, 'chain', lambda: chain(prog, rep))
    for name, f in DIRECT.items():
        scenario(rep, name, lambda: f(prog, rep, name))


def do_map(s, m, S, meth):
    return s.I.call_method(m, meth, [S], {}, s.st, None)


def roundtrip(rep, s, name, fields, m=None, sol=None, wh=None, assume=()):
    I, st = s.I, s.st
    sol = sol or s.sol
    m = m or s.mapper
    if m is None:
        rep.undecided(name, 'no mapper registered', s.where)
        return
    mc = I.class_of(m)
    wh = wh or where(s.prog, mc)
    orig = {f: tf(I, st, sol, f) for f in fields}
    a = do_map(s, m, sol, 'map')
    mid = {f: tf(I, st, a, f) for f in TFIELDS}
    b = do_map(s, m, a, 'inv_map')
    for f in fields:
        rep.equal('%s: inverse(forward) keeps %s' % (name, f), tf(I, st, b, f), orig[f], wh, assume)
    note(rep, I)
    return mid


def momentum(prog, rep, name):
    s = base(prog)
    snap(s)
    traj(s)
    apply(s, 'MomentumShift')
    roundtrip(rep, s, name, ('t', 'y', 'dual', 'dual_t', 'u', 'q', 'dynamical_parameters', 'const'))


def momentum_inv(prog, rep, name):
    """forward(inverse): a solution of the shifted problem"""
    s = base(prog)
    snap(s)
    apply(s, 'MomentumShift')
    S1 = plist(s.I, s.st, s.P, 'states')
    s.sol = trajectory(s.I, s.st, N=s.N, y=slen(S1), dual=slen(S1))
    invround(rep, s, name, ('y', 'dual', 'u', 'q', 'dynamical_parameters'))


def invround(rep, s, name, fields):
    I, st, sol, m = s.I, s.st, s.sol, s.mapper
    if m is None:
        rep.undecided(name, 'no mapper registered', s.where)
        return
    orig = {f: tf(I, st, sol, f) for f in fields}
    a = do_map(s, m, sol, 'inv_map')
    b = do_map(s, m, a, 'map')
    wh = where(s.prog, I.class_of(m))
    for f in fields:
        rep.equal('%s: forward(inverse) keeps %s' % (name, f), tf(I, st, b, f), orig[f], wh)
    note(rep, I)


def normtime(prog, rep, name):
    s = base(prog)
    snap(s)
    traj(s)
    apply(s, 'NormalizeTime')
    I, st = s.I, s.st
    if s.mapper is None:
        rep.undecided(name, 'no mapper registered', s.where)
        return
    t = arr(s.sol, 't')
    n = slen(t)
    wh = where(prog, I.class_of(s.mapper))
    a = do_map(s, s.mapper, s.sol, 'map')
    b = do_map(s, s.mapper, a, 'inv_map')
    for f in ('y', 'dual', 'u', 'q', 'dynamical_parameters', 'const'):
        rep.equal('%s: inverse(forward) keeps %s' % (name, f), tf(I, st, b, f), arr(s.sol, f), wh)
    # elapsed time is recovered; the origin of time is not stored by a normalised trajectory
    k = fresh_bv()
    t2 = tf(I, st, b, 't')
    el = lambda x: tab(n, k, sub(at(x, k), at(x, ZERO)))
    rep.equal('%s: inverse(forward) keeps elapsed time' % name, el(t2), el(t), wh)
    note(rep, I)


def normtime_inv(prog, rep, name):
    s = base(prog)
    snap(s)
    apply(s, 'NormalizeTime')
    P1 = plist(s.I, s.st, s.P, 'parameters')
    s.sol = trajectory(s.I, s.st, N=s.N, dynamical_parameters=slen(P1))
    # a normalised trajectory starts at 0 and ends at 1
    I, st, m = s.I, s.st, s.mapper
    if m is None:
        rep.undecided(name, 'no mapper registered', s.where)
        return
    t = arr(s.sol, 't')
    wh = where(prog, I.class_of(m))
    a = do_map(s, m, s.sol, 'inv_map')
    b = do_map(s, m, a, 'map')
    ends = (eq(at(t, ZERO), ZERO), eq(at(t, num(-1)), ONE), pos(s.N))
    fix = {at(t, ZERO): ZERO, at(t, num(-1)): ONE}
    for f in ('t', 'dynamical_parameters', 'y'):
        got = subst(tf(I, st, b, f), fix)
        rep.equal('%s: forward(inverse) keeps %s' % (name, f), got, subst(arr(s.sol, f), fix), wh)
    note(rep, I)


def epstrig(prog, rep, name):
    """the trigonometric control mapper on its own: lower <= u <= upper"""
    s = base(prog)
    I, st = s.I, s.st
    snap(s)
    traj(s)
    cls = find_class(prog, TMAP, 'EpsTrigMapper')
    wh = where(prog, cls)
    lo, hi = sym('lower', 'real'), sym('upper', 'real')
    ev = {}
    idx = sym('control_idx', 'nat')
    lc = I.read(st, s.P, 'local_compiler')
    m = I.instantiate(cls, [idx, lo, hi, s.tv0, I.new_list(st, field(I, st, s.S0, 'sym')),
                            I.new_list(st, field(I, st, s.P0, 'sym')), I.new_list(st, field(I, st, s.K0, 'sym'))],
                      {'local_compiler': lc}, st, None)
    # compose the two compiled scalar maps: inverse(forward(u)) = u
    f, g = I.read(st, m, 'map_func'), I.read(st, m, 'inv_map_func')
    u = sym('u', 'real')
    k = sym('k', 'nat')
    env = [at(arr(s.sol, 't'), k), at(arr(s.sol, 'y'), k), arr(s.sol, 'dynamical_parameters'), arr(s.sol, 'const')]
    v = I.call(f, [u] + env, {}, st, None)
    w = I.call(g, [v] + env, {}, st, None)
    # the recorded defect: the forward map divides by the whole control range instead of half of it
    wdef = None
    arcs = [x for x in subterms(v) if x.op == 'call' and x.args[0] == 'asin']
    if len(arcs) == 1:
        us = [b.args[0].args[0] for b in v.args[1].args if b.args[1] is seq(u)] if v.op == 'ev' else []
        us = us or [x for x in subterms(arcs[0]) if x.op == 'call' and x.args[0] == 'symbol'] or [u]
        bad = div(sub(us[0], mul(num(HALF), add(lo, hi))), sub(hi, lo))
        wdef = I.call(g, [subst(v, {arcs[0].args[1]: bad})] + env, {}, st, None)
    rep.equal_or('%s: inverse(forward) keeps the bounded control' % name, w, u, wdef,
                 '%s: forward map divides by the whole control range' % name, wh)
    note(rep, I)


def diffctl(prog, rep, name, method):
    s = base(prog, dualized=True)
    snap(s)
    traj(s)
    I, st = s.I, s.st
    diffy(s) if method == 'diffyg' else None
    apply(s, 'DifferentialControlLaw', const(method))
    flds = ['t', 'y', 'u', 'q', 'dynamical_parameters', 'const', 'dual']
    roundtrip(rep, s, name, flds)


def diffy(s):
    s.I.intercepts['make_standard_symplectic_form'] = lambda I, st, a, k: I.new_list(
        st, mk('call', 'omega', I.reify(st, a[0])), 'matrix')
    s.I.intercepts['make_hamiltonian_vector_field'] = lambda I, st, a, k: I.new_list(st, mk('call', 'chi', a[0]))


def squash(prog, rep, name):
    s = base(prog, dualized=True)
    snap(s)
    traj(s, dual=slen(s.C0), nondynamical_parameters=add(
        slen(plist(s.I, s.st, s.P, 'constraint_parameters')), slen(plist(s.I, s.st, s.P, 'constraint_adjoints'))))
    s.I.mutations = None
    apply(s, 'SquashToBVP')
    roundtrip(rep, s, name, ('t', 'y', 'dual', 'u', 'q', 'dynamical_parameters', 'const'), assume=(pos(s.N),))


def dualmap(prog, rep, name):
    s = base(prog)
    empty(s.I, s.st, s.P, 'costates', 'coparameters', 'constraint_adjoints')
    snap(s)
    traj(s)
    apply(s, 'Dualize')
    roundtrip(rep, s, name, ('t', 'y', 'dual', 'u', 'q', 'dynamical_parameters', 'const'))


def mfmap(prog, rep, name):
    s = base(prog)
    I, st = s.I, s.st
    snap(s)
    traj(s, dual=slen(s.C0))
    cls = find_class(prog, TMAP, 'MF')
    wh = where(prog, cls)
    for ploc in ('states', 'costates'):
        s2 = base(prog)
        I, st = s2.I, s2.st
        snap(s2)
        traj(s2, dual=slen(s2.S0))
        idx = sym('index', 'nat')

        def d(loc):
            x = I.alloc('dict', 'd')
            st.heap[(x, '$keys')] = seq(const('location'), const('index'))
            st.heap[(x, "['location']")] = const(loc)
            st.heap[(x, "['index']")] = idx
            return x
        qloc = 'costates' if ploc == 'states' else 'states'
        calls = {}

        fns = [mk('lam', seq(sym('f%d_a' % j), sym('f%d_b' % j)), sym('f%d' % j)) for j in range(4)]
        fns = [mk('sym', 'mf_fn%d' % j, 'any') for j in range(4)]
        m = I.instantiate(cls, [d(ploc), d(qloc)] + fns, {}, st, None)
        sol = s2.sol
        y0, d0 = tf(I, st, sol, 'y'), tf(I, st, sol, 'dual')
        a = do_map(s2, m, sol, 'map')
        b = do_map(s2, m, a, 'inv_map')
        mid = {f: tf(I, st, b, f) for f in ('y', 'dual', 'q', 'dynamical_parameters', 't')}
        k, j = fresh_bv(), fresh_bv()

        def drop(x):
            return rows(s2.N, lambda k: delat(at(x, k), idx))
        asm = (lt(idx, slen(s2.S0)),)
        rep.equal('%s/%s: all other states survive the round trip' % (name, ploc), drop(mid['y']), drop(y0), wh, asm)
        rep.equal('%s/%s: all other costates survive the round trip' % (name, ploc), drop(mid['dual']), drop(d0), wh, asm)
        rep.equal('%s/%s: quadratures survive the round trip' % (name, ploc), mid['q'], arr(sol, 'q'), wh)
        rep.equal('%s/%s: parameters survive the round trip' % (name, ploc), mid['dynamical_parameters'],
                  arr(sol, 'dynamical_parameters'), wh)
        note(rep, I)


def chain(prog, rep):
    """the chain is applied in order forwards and in reverse order backwards"""
    s = base(prog)
    I, st, P = s.I, s.st, s.P
    cls = find_class(prog, SP, 'Problem')
    wh = where(prog, cls) + '.map_sol'
    ms = [I.input_obj('m%d' % j, find_class(prog, TMAP, 'SolMapper')) for j in range(3)]
    log = lambda kind: (lambda I, st, a, k: mk('call', kind, a[0], a[1]))
    I.intercepts['SolMapper.map'] = log('map')
    I.intercepts['SolMapper.inv_map'] = log('inv')
    st.heap[(I.read(st, P, 'sol_map_chain'), '$')] = seq(*ms)
    x = sym('sol0')
    r = I.call_method(P, 'map_sol', [x], {}, st, None)
    w = x
    for m in ms:
        w = mk('call', 'map', m, w)
    rep.equal('chain: forward order', r, w, wh, strict=True)
    want = x
    for m in reversed(ms):
        want = mk('call', 'inv', m, want)
    r = I.call_method(P, 'map_sol', [x], {'inverse': TRUE}, st, None)
    rep.equal('chain: backward order', r, want, wh, strict=True)
    r = I.call_method(P, 'inv_map_sol', [x], {}, st, None)
    rep.equal('chain: inverse entry point', r, want, wh, strict=True)
    note(rep, I)


SCEN = {
    'momentum shift': momentum,
    'momentum shift (back)': momentum_inv,
    'time normalisation': normtime,
    'time normalisation (back)': normtime_inv,
    'trigonometric control': epstrig,
    'differential control': lambda p, r, n: diffctl(p, r, n, 'traditional'),
    'differential control (geometric)': lambda p, r, n: diffctl(p, r, n, 'diffyg'),
    'dualization': dualmap,
    'squash to BVP': squash,
    'symmetry reduction': mfmap,
}


# ------------------------------------------------------------------ mappers on their own, at any position
def fresh(prog, **dims):
    s = Sc()
    s.prog = prog
    s.I = interp(prog)
    s.st = State()
    s.N = sym('N', 'nat')
    d = dict(N=s.N, dual_u=None)
    d.update(dims)
    s.sol = trajectory(s.I, s.st, **d)
    # columns of a definite number are named one by one
    for f, n in d.items():
        if getattr(n, 'op', None) == 'num' and f != 'N':
            p, c, n = mk('attr', f, s.sol), arr(s.sol, f), int(n.args[0])
            v = rows(s.N, lambda k: seq(*[at(at(c, k), num(j)) for j in range(n)])) if f in MATS else \
                seq(*[at(c, num(j)) for j in range(n)])
            s.st.heap[(p, '$')] = v
    s.was = {f: tf(s.I, s.st, s.sol, f) for f in TFIELDS}
    return s


ALLF = ('t', 'dual_t', 'y', 'dual', 'u', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def mapper(s, cls, *args, **kw):
    c = find_class(s.prog, TMAP, cls)
    s.wh = where(s.prog, c)
    return s.I.instantiate(c, list(args), kw, s.st, None)


def expect(rep, s, name, r, **want):
    """all fields of the result: the given ones as stated, the others as they were"""
    I, st = s.I, s.st
    for f in ALLF:
        w = want.get(f, s.was[f])
        if w is not None:
            rep.equal('%s: %s' % (name, f), want.get('post', lambda x: x)(tf(I, st, r, f)), w, s.wh, want.get('assume', ()))
    note(rep, I)


def d_identity(prog, rep, name):
    for meth in ('map', 'inv_map'):
        s = fresh(prog)
        m = mapper(s, 'IdentityMapper')
        expect(rep, s, '%s %s' % (name, meth), do_map(s, m, s.sol, meth))


def d_momentum(prog, rep, name):
    ny = sym('ny', 'nat')
    for idx, nm in ((None, 'last'), (0, 'first'), (2, 'third')):
        n = ny if idx is None else num(4)
        j = ny if idx is None else num(idx)
        a = [] if idx is None else [num(idx)]
        s = fresh(prog, y=n, dual=n)
        y, d, t, dt = [s.was[f] for f in ('y', 'dual', 't', 'dual_t')]
        r = do_map(s, mapper(s, 'MomentumShiftMapper', *a), s.sol, 'map')
        expect(rep, s, '%s %s forward' % (name, nm), r, assume=(pos(s.N),),
               y=rows(s.N, lambda k: insat(at(y, k), j, at(t, k))), dual=rows(s.N, lambda k: insat(at(d, k), j, at(dt, k))))
        n1 = add(n, ONE)
        s = fresh(prog, y=n1, dual=n1)
        y, d = [s.was[f] for f in ('y', 'dual')]
        r = do_map(s, mapper(s, 'MomentumShiftMapper', *a), s.sol, 'inv_map')
        expect(rep, s, '%s %s backward' % (name, nm), r, t=rows(s.N, lambda k: at(at(y, k), j)),
               dual_t=rows(s.N, lambda k: at(at(d, k), j)), y=rows(s.N, lambda k: delat(at(y, k), j)),
               dual=rows(s.N, lambda k: delat(at(d, k), j)))


def d_normtime(prog, rep, name):
    np_ = sym('np', 'nat')
    for idx, nm in ((None, 'last'), (0, 'first'), (1, 'second')):
        n = np_ if idx is None else num(3)
        j = np_ if idx is None else num(idx)
        a = [] if idx is None else [num(idx)]
        s = fresh(prog, dynamical_parameters=n)
        t, p = s.was['t'], s.was['dynamical_parameters']
        dt = sub(at(t, num(-1)), at(t, ZERO))
        r = do_map(s, mapper(s, 'NormalizeTimeMapper', *a), s.sol, 'map')
        expect(rep, s, '%s %s forward' % (name, nm), r, dynamical_parameters=insat(p, j, dt),
               t=rows(s.N, lambda k: div(sub(at(t, k), at(t, ZERO)), dt)))
        s = fresh(prog, dynamical_parameters=add(n, ONE))
        t, p = s.was['t'], s.was['dynamical_parameters']
        r = do_map(s, mapper(s, 'NormalizeTimeMapper', *a), s.sol, 'inv_map')
        expect(rep, s, '%s %s backward' % (name, nm), r, dynamical_parameters=delat(p, j),
               t=rows(s.N, lambda k: mul(at(t, k), at(p, j))))


def d_epstrig(prog, rep, name):
    """backwards: the control that the sine expression stands for, at every node, the other controls untouched"""
    for nu, i in ((1, 0), (3, 1)):
        s = base(prog)
        snap(s)
        I, st = s.I, s.st
        traj(s)
        c = arr(s.sol, 'u')
        st.heap[(mk('attr', 'u', s.sol), '$')] = rows(s.N, lambda k: seq(*[at(at(c, k), num(q)) for q in range(nu)]))
        s.was = {f: tf(I, st, s.sol, f) for f in TFIELDS}
        lc = I.read(st, s.P, 'local_compiler')
        sy = [field(I, st, x, 'sym') for x in (s.S0, s.P0, s.K0)]
        # bounds that depend on time, states, parameters and constants
        lo = sub(mul(at(sy[2], ZERO), s.tv0), at(sy[1], ONE))
        hi = add(at(sy[2], ONE), mul(at(sy[0], ONE), at(sy[0], ZERO)))
        m = mapper(s, 'EpsTrigMapper', num(i), lo, hi, s.tv0, *[I.new_list(st, x) for x in sy], local_compiler=lc)
        t, y, u, p, c = [s.was[f] for f in ('t', 'y', 'u', 'dynamical_parameters', 'const')]

        def ev(e, k):
            b = I.lib.bind_groups(I, st, [seq(s.tv0)] + sy, [seq(at(t, k)), at(y, k), p, c])
            return I.lib.evaluate(I, st, e, b)

        def row(k):
            a, b = ev(lo, k), ev(hi, k)
            x = at(at(u, k), num(i))
            v = add(mul(mul(num(HALF), sub(b, a)), mk('call', 'sin', x)), mul(num(HALF), add(a, b)))
            return seq(*[v if q == i else at(at(u, k), num(q)) for q in range(nu)])
        r = do_map(s, m, s.sol, 'inv_map')
        expect(rep, s, '%s %d of %d backward' % (name, i, nu), r, u=spread(rows(s.N, row)), post=spread)


IDXS = ([3, 4], [0, 1], [1, 3], [4, 2], [0], [3], [2, 0, 1], [3, 4, 5])


def d_diffctl(geo):
    def go(prog, rep, name):
        for ix in IDXS:
            nu, n = len(ix), 3
            nm = '%s at %s' % (name, ix)
            tot = n + nu
            where_u = {y: k for k, y in enumerate(ix)}
            rest = [j for j in range(tot) if j not in where_u]
            cls = 'DifferentialControlMapper' + ('DiffyG' if geo else '')
            for lam in ((None, 'value', 'values') if geo else (None,)):
                s = fresh(prog, y=num(n), u=num(nu), dual=num(n))
                I, st = s.I, s.st
                y, u, d = [s.was[f] for f in ('y', 'u', 'dual')]
                m = mapper(s, cls, I.new_list(st, seq(*[num(j) for j in ix])))
                kw = {}
                if lam == 'value':
                    kw['control_costate'] = num(7)
                elif lam == 'values':
                    kw['control_costate'] = I.new_array(st, seq(*[num(7 + 2 * j) for j in range(nu)]))
                r = I.call_method(m, 'map', [s.sol], kw, st, None)
                # a list of costates belongs to the controls in the order of their positions
                order = sorted(ix)
                cv = lambda j: ZERO if lam is None else num(7) if lam == 'value' else num(7 + 2 * order.index(j))
                mix = lambda base_, new: (lambda k: seq(*[new(k, j) if j in where_u else at(at(base_, k), num(rest.index(j)))
                                                          for j in range(tot)]))
                w = dict(y=rows(s.N, mix(y, lambda k, j: at(at(u, k), num(where_u[j])))), u=rows(s.N, lambda k: EMPTY))
                if geo:
                    w['dual'] = rows(s.N, mix(d, lambda k, j: cv(j)))
                tag = nm + (' with costate ' + lam if lam else '')
                expect(rep, s, tag + ' forward', r, **w)
                if geo:
                    rep.equal(tag + ' forward: one control costate per control', tf(I, st, r, 'dual_u'),
                              rows(s.N, lambda k: seq(*[cv(j) for j in order])), s.wh, (pos(s.N),))
            s = fresh(prog, y=num(tot), u=None, dual=num(tot if geo else n))
            I, st = s.I, s.st
            y, d = [s.was[f] for f in ('y', 'dual')]
            m = mapper(s, cls, I.new_list(st, seq(*[num(j) for j in ix])))
            r = do_map(s, m, s.sol, 'inv_map')
            pick = lambda x, js: rows(s.N, lambda k: seq(*[at(at(x, k), num(j)) for j in js]))
            w = dict(u=pick(y, ix), y=pick(y, rest))
            if geo:
                w['dual'] = pick(d, rest)
            expect(rep, s, nm + ' backward', r, **w)
    return go


def d_squash(prog, rep, name):
    for ny, nc, cidx, nnd, nidx in ((4, 2, (2, 3), 3, (1, 2)), (4, 1, (1,), 2, (0,)), (3, 0, (), 2, ()), (5, 2, (4, 1), 4, (3, 0))):
        s = fresh(prog, y=num(ny), nondynamical_parameters=num(nnd))
        I, st = s.I, s.st
        y, nd = s.was['y'], s.was['nondynamical_parameters']
        L = lambda js: I.new_list(st, seq(*[num(j) for j in js]))
        m = mapper(s, 'SquashToBVPMapper', L(cidx), L(()), L(nidx))
        r = do_map(s, m, s.sol, 'inv_map')
        pick = lambda js: rows(s.N, lambda k: seq(*[at(at(y, k), num(j)) for j in js]))
        expect(rep, s, '%s %s backward' % (name, list(cidx)), r, dual=pick(cidx), y=pick([j for j in range(ny) if j not in cidx]),
               nondynamical_parameters=seq(*[at(nd, num(j)) for j in range(nnd) if j not in nidx]))
    s = fresh(prog, y=num(2), dual=None)
    m = mapper(s, 'SquashToBVPMapper', *[s.I.new_list(s.st, EMPTY) for _ in range(3)])
    expect(rep, s, '%s without costates forward' % name, do_map(s, m, s.sol, 'map'))


def d_reduction(prog, rep, name):
    """symmetry reduction: what moves where"""
    ny, nd = 3, 3
    for pl, pi, ql, qi in (('costates', 1, 'states', 1), ('states', 0, 'costates', 2), ('costates', 0, 'states', 2),
                           ('costates', 2, 'costates', 0), ('states', 1, 'states', 0)):
        nm = '%s %s[%d] %s[%d]' % (name, pl, pi, ql, qi)

        def setup(y, d, q):
            s = fresh(prog, y=num(y), dual=num(d), q=num(q), dynamical_parameters=num(2))
            I, st = s.I, s.st
            fns = [mk('sym', 'mf_%s' % j, 'any') for j in ('p', 'q', 'p_inv', 'q_inv')]
            dd = lambda l, i: dict_(I, st, {'location': const(l), 'index': num(i)})
            m = mapper(s, 'MF', dd(pl, pi), dd(ql, qi), *fns)
            return s, m, [lambda *a, f=f: mk('call', 'apply', f, *a) for f in fns]
        # forth: the momentum's value at the first node becomes a parameter, the coordinate becomes a quadrature
        s, m, (fp, fq, fpi, fqi) = setup(ny, nd, 1)
        I, st = s.I, s.st
        ap = lambda f, *a: I.call(f, list(a), {}, st, None)
        fns = [mk('sym', 'mf_%s' % j, 'any') for j in ('p', 'q', 'p_inv', 'q_inv')]
        y, d, q, p, c = [s.was[f] for f in ('y', 'dual', 'q', 'dynamical_parameters', 'const')]
        cv = ap(fns[0], at(y, ZERO), at(d, ZERO), p, c)
        p2 = cat(p, seq(cv))
        qv = rows(s.N, lambda k: cat(at(q, k), seq(ap(fns[1], at(y, k), at(d, k), p2, c))))

        def cut(x, loc):
            a = x
            for l, i in ((pl, pi), (ql, qi)):
                if l == loc:
                    a = rows(s.N, lambda k, a=a, i=i: delat(at(a, k), num(i)))
            return a
        r = do_map(s, m, s.sol, 'map')
        expect(rep, s, nm + ' forward', r, dynamical_parameters=p2, q=qv, y=cut(y, 'states'), dual=cut(d, 'costates'))
        # back: both are put in again
        s, m, _ = setup(ny - (pl == 'states') - (ql == 'states'), nd - (pl == 'costates') - (ql == 'costates'), 2)
        I, st = s.I, s.st
        y, d, q, p, c = [s.was[f] for f in ('y', 'dual', 'q', 'dynamical_parameters', 'const')]
        qv = lambda k: ap(fns[3], at(y, k), at(d, k), at(q, k), p, c)
        pv = lambda k: ap(fns[2], at(y, k), at(d, k), p, c)

        def put(x, loc):
            a = x
            for l, i, v in ((pl, pi, pv), (ql, qi, qv)):
                if l == loc:
                    a = rows(s.N, lambda k, a=a, i=i, v=v: insat(at(a, k), num(i), v(k)))
            return a
        r = do_map(s, m, s.sol, 'inv_map')
        expect(rep, s, nm + ' backward', r, dynamical_parameters=seq(at(p, ZERO)), q=rows(s.N, lambda k: seq(at(at(q, k), ZERO))),
               y=put(y, 'states'), dual=put(d, 'costates'))


DIRECT = {
    'identity mapper': d_identity,
    'time state mapper': d_momentum,
    'duration mapper': d_normtime,
    'bounded control mapper': d_epstrig,
    'control state mapper': d_diffctl(False),
    'control state mapper (geometric)': d_diffctl(True),
    'costate mapper': d_squash,
    'reduction mapper': d_reduction,
}
