"""C14: control laws make the Hamiltonian stationary; the least one is used."""
from ..common import *
from .c08 import EV

EXPLANATION = ('Value-graph comparison of the control laws with the stationarity of the Hamiltonian: the differential law '
               'keeps dH/du constant along the motion and fixes it to zero at one end, the algebraic law hands dH/du to '
               'the equation solver, and the control that is applied is the option with the least Hamiltonian.')


def run(prog, rep):
    rep.assumptions += ['sympy.solve returns solutions of the equations it is given',
                        'LUsolve solves the linear system it is given (a regular matrix)',
                        'in the geometric formulation time is the last state (the momentum shift precedes the law)']
    w = where(prog, find_class(prog, MF, 'DifferentialControlLaw'))
    for m in (1, 2) + ((3,) if rep.tier == 'thorough' else ()):
        scenario(rep, 'traditional differential law, %d controls' % m, lambda: traditional(prog, rep, m, w))
        scenario(rep, 'geometric differential law, %d controls' % m, lambda: diffyg(prog, rep, m, w))
    scenario(rep, 'rejections', lambda: reject(prog, rep, w))
    wa = where(prog, find_class(prog, MF, 'AlgebraicControlLaw'))
    for k in (1, 2, 3):
        for m in (1, 2):
            scenario(rep, 'algebraic law, %d options of %d controls' % (k, m), lambda: algebraic(prog, rep, k, m, wa))


def setup(prog, m, ns=None):
    I = interp(prog)
    st = State()
    P = problem(I, st, dualized=True)
    us = []
    for i in range(m):
        c = I.input_obj('ctl%d' % i, find_class(prog, CS, 'NamedDimensionalStruct'))
        st.heap[(c, 'sym')] = mk('symbol', const(ctl(i)))
        st.heap[(c, 'name')] = const(ctl(i))
        us.append(c)
    st.heap[(I.read(st, P, 'controls'), '$')] = seq(*us)
    H = I.read(st, I.read(st, P, 'hamiltonian'), 'expr')
    I.exprs = {H}
    return I, st, P, us, H


def ctl(i):
    """names of the controls, not in alphabetical order"""
    return ('uw', 'ub', 'um')[i]


def u_(i):
    return mk('symbol', const(ctl(i)))


def last(s, n):
    return [at(s, add(slen(s), num(j - n))) for j in range(n)]


def names(I, st, xs):
    return [I.read(st, x, 'name') for x in xs]


def traditional(prog, rep, m, w):
    I, st, P, us, H = setup(prog, m)
    S0, L0 = plist(I, st, P, 'states'), plist(I, st, P, 'costates')
    x0, l0 = field(I, st, S0, 'sym'), field(I, st, L0, 'sym')
    fx, fl = field(I, st, S0, 'eom'), field(I, st, L0, 'eom')
    ini0, ter0 = clist(I, st, P, 'initial'), clist(I, st, P, 'terminal')
    tvar = I.read(st, I.read(st, P, 'independent_variable'), 'sym')
    uu = [I.read(st, c, 'units') for c in us]
    hu = I.read(st, I.read(st, P, 'hamiltonian'), 'units')
    R = transform(I, st, functor(I, st, 'DifferentialControlLaw', const('traditional')), P)
    note(rep, I)
    t = 'differential law, %d controls: ' % m
    rep.equal(t + 'returns the transformed problem', R, P, w)
    S = plist(I, st, P, 'states')
    rep.equal(t + 'one new state per control', slen(S), add(slen(S0), num(m)), w)
    rep.equal(t + 'the other states stay as they are', field(I, st, slice_(S, ZERO, slen(S0)), 'eom'), fx, w)
    rep.equal(t + 'no control is left', plist(I, st, P, 'controls'), EMPTY, w)
    D = lambda e, s: I.lib.diff_(I, e, s)
    new = last(S, m)
    rates = [I.read(st, x, 'eom') for x in new]
    for i, x in enumerate(new):
        rep.equal(t + 'new state %d carries the name of its control' % i, I.read(st, x, 'name'), const(ctl(i)), w)
        rep.equal(t + 'new state %d carries the unit of its control' % i, I.read(st, x, 'units'), uu[i], w)
        g = D(H, u_(i))
        r = ZERO
        for j in range(m):
            r = add(r, mul(D(g, u_(j)), rates[j]))
        for xs, fs in ((x0, fx), (l0, fl)):
            b = fresh_bv()
            r = add(r, sum_(slen(xs), b, mul(D(g, at(xs, b)), at(fs, b))))
        r = add(r, D(g, tvar))
        rep.equal(t + 'dH/du%d is constant along the motion' % i, r, ZERO, w)
    ter = clist(I, st, P, 'terminal')
    rep.equal_bag(t + 'terminal conditions: those before and dH/du of every control',
                  field(I, st, ter, 'expr'), cat(field(I, st, ter0, 'expr'), seq(*[D(H, u_(i)) for i in range(m)])), w)
    rep.equal(t + 'initial conditions stay', field(I, st, clist(I, st, P, 'initial'), 'expr'),
              field(I, st, ini0, 'expr'), w)
    rep.equal_bag(t + 'units of the new conditions',
                  field(I, st, ter, 'units'), cat(field(I, st, ter0, 'units'), seq(*[div(hu, u) for u in uu])), w)
    mp = mapper_of(I, st, P)
    if mp is not None:
        rep.equal(t + 'the mapper knows the columns of the controls', I.V(st, I.read(st, mp, 'control_idxs')),
                  seq(*[add(slen(S0), num(i)) for i in range(m)]), w)


def diffyg(prog, rep, m, w):
    for n in (1, 2):
        I, st, P, us, H = setup(prog, m)
        xs, ls = [], []
        for i in range(n):
            a = I.input_obj('st%d' % i, find_class(prog, CS, 'DynamicStruct'))
            st.heap[(a, 'sym')] = mk('symbol', const('x%d' % i))
            c = I.input_obj('cs%d' % i, find_class(prog, CS, 'DynamicStruct'))
            st.heap[(c, 'sym')] = mk('symbol', const('l%d' % i))
            xs.append(a)
            ls.append(c)
        st.heap[(I.read(st, P, 'states'), '$')] = seq(*xs)
        st.heap[(I.read(st, P, 'costates'), '$')] = seq(*ls)
        # canonical equations hold before the law is added; the last state is the time-like one with rate 1
        X = [I.read(st, a, 'sym') for a in xs]
        Lm = [I.read(st, a, 'sym') for a in ls]
        D = lambda e, s: I.lib.diff_(I, e, s)
        for i in range(n):
            st.heap[(xs[i], 'eom')] = D(H, Lm[i])
            st.heap[(ls[i], 'eom')] = neg(D(H, X[i]))
        ini0, ter0 = clist(I, st, P, 'initial'), clist(I, st, P, 'terminal')
        cu = I.read(st, I.read(st, P, 'cost'), 'units')
        uu = [I.read(st, c, 'units') for c in us]
        R = transform(I, st, functor(I, st, 'DifferentialControlLaw', const('diffyg')), P)
        note(rep, I)
        t = 'geometric law, %d controls, %d states: ' % (m, n)
        rep.equal(t + 'returns the transformed problem', R, P, w)
        S, C = plist(I, st, P, 'states'), plist(I, st, P, 'costates')
        rep.equal(t + 'one new state per control', slen(S), num(n + m), w)
        rep.equal(t + 'one new costate per control', slen(C), num(n + m), w)
        rep.equal(t + 'no control is left', plist(I, st, P, 'controls'), EMPTY, w)
        ul = [at(C, num(n + i)) for i in range(m)]
        new = [at(S, num(n + i)) for i in range(m)]
        # the Hamiltonian was made before the control costates were
        fresh = {D(H, I.read(st, x, 'sym')): ZERO for x in ul}
        # time is a state, the Hamiltonian does not name the new independent variable
        tvar = I.read(st, I.read(st, P, 'independent_variable'), 'sym')
        fresh.update({D(D(H, u_(i)), tvar): ZERO for i in range(m)})
        eom = lambda x: subst(I.reify(st, I.read(st, x, 'eom')), fresh)
        rates = [eom(x) for x in new]
        tdot = D(H, Lm[n - 1])
        for i, x in enumerate(new):
            rep.equal(t + 'new state %d carries the name of its control' % i, I.read(st, x, 'name'),
                      const(ctl(i)), w)
            rep.equal(t + 'new state %d carries the unit of its control' % i, I.read(st, x, 'units'), uu[i], w)
            rep.equal(t + 'new costate %d has the unit of cost per control' % i, I.read(st, ul[i], 'units'),
                      div(cu, uu[i]), w)
            g = D(H, u_(i))
            r = ZERO
            for j in range(m):
                r = add(r, mul(D(g, u_(j)), rates[j]))
            for j in range(n):
                # time runs with rate dH/dlam of the last pair; the law is stated per unit of it
                r = add(r, mul(D(g, X[j]), mul(D(H, Lm[j]), tdot)))
                r = add(r, mul(D(g, Lm[j]), mul(neg(D(H, X[j])), tdot)))
            rep.equal(t + 'dH/du%d is constant along the motion' % i, r, ZERO, w)
        for j in range(n):
            rep.equal(t + 'state %d keeps its canonical rate' % j, eom(xs[j]), D(H, Lm[j]), w)
        for i in range(m):
            rep.equal(t + 'new costate %d has rate minus dH/du' % i, eom(ul[i]), neg(D(H, u_(i))), w)
        for j in range(n):
            if j < n - 1:
                rep.equal(t + 'costate %d keeps its canonical rate' % j, eom(ls[j]),
                          neg(D(H, X[j])), w)
        om = I.reify(st, I.V(st, I.read(st, P, 'omega')))
        allv = list(xs) + list(new) + list(ls) + list(ul)
        k2 = len(allv)
        el = lambda i, j: subst(at(at(om, num(i)), num(j)), fresh)
        for i in range(k2):
            r = subst(D(H, I.read(st, allv[i], 'sym')), fresh)
            for j in range(k2):
                r = add(r, mul(el(i, j), eom(allv[j])))
                if j > i:
                    rep.equal(t + 'the form is antisymmetric at %d, %d' % (i, j), add(el(i, j), el(j, i)), ZERO, w)
            rep.equal(t + 'row %d of the form gives the equations of motion' % i, r, ZERO, w)
        ter, ini = clist(I, st, P, 'terminal'), clist(I, st, P, 'initial')
        rep.equal_bag(t + 'terminal conditions: those before and dH/du of every control', field(I, st, ter, 'expr'),
                      cat(field(I, st, ter0, 'expr'), seq(*[D(H, u_(i)) for i in range(m)])), w)
        rep.equal_bag(t + 'control costates vanish at the start', field(I, st, ini, 'expr'),
                      cat(field(I, st, ini0, 'expr'), seq(*[I.read(st, x, 'sym') for x in ul])), w)
        mp = mapper_of(I, st, P)
        if mp is not None:
            rep.equal(t + 'the mapper knows the columns of the controls', I.V(st, I.read(st, mp, 'control_idxs')),
                      seq(*[num(n + i) for i in range(m)]), w)


def reject(prog, rep, w):
    for cls in ('DifferentialControlLaw', 'AlgebraicControlLaw'):
        I, st, P, us, H = setup(prog, 1)
        st.heap[(P, 'dualized')] = FALSE
        rejects(rep, '%s before dualization is rejected' % cls, I, st,
                lambda: transform(I, st, functor(I, st, cls), P), w, 'ValueError')
        note(rep, I)
    I, st, P, us, H = setup(prog, 1)
    rejects(rep, 'an unknown differential method is rejected', I, st,
            lambda: transform(I, st, functor(I, st, 'DifferentialControlLaw', const('nonsense')), P), w,
            'NotImplementedError')
    I, st, P, us, H = setup(prog, 1)
    I.intercepts['sympy.solve'] = lambda I, st, a, k: I.new_list(st, EMPTY)
    rejects(rep, 'a control without any stationary point is rejected', I, st,
            lambda: transform(I, st, functor(I, st, 'AlgebraicControlLaw'), P), w)


def algebraic(prog, rep, k, m, w):
    I, st, P, us, H = setup(prog, m)
    seen = []

    def solve(I, st, a, kw):
        seen.append((I.V(st, a[0]), I.V(st, a[1]), kw))
        out = []
        for o in range(k):
            # the solver may list the controls in any order
            ps = [tup(u_(i), mk('call', 'opt', num(o), num(i))) for i in range(m)]
            x = I.lib.dict_from_pairs(I, st, seq(*(ps if o % 2 == 0 else ps[::-1])))
            out.append(x)
        return I.new_list(st, seq(*out))
    I.intercepts['sympy.solve'] = solve
    R = transform(I, st, functor(I, st, 'AlgebraicControlLaw'), P)
    note(rep, I)
    t = 'algebraic law, %d options of %d controls: ' % (k, m)
    rep.equal(t + 'returns the transformed problem', R, P, w)
    D = lambda e, s: I.lib.diff_(I, e, s)
    rep.equal(t + 'the equations are solved once', num(len(seen)), ONE, w)
    if seen:
        rep.equal_bag(t + 'dH/du of every control is set to zero', seen[0][0], seq(*[D(H, u_(i)) for i in range(m)]), w)
        rep.equal_bag(t + 'solved for every control', seen[0][1], seq(*[u_(i) for i in range(m)]), w)
    law = plist(I, st, P, 'control_law')
    rep.equal(t + 'every option is kept', slen(law), num(k), w)
    for o in range(k):
        for i in range(m):
            rep.equal(t + 'option %d gives control %d its own value' % (o, i),
                      at(I.reify(st, at(law, num(o))), num(i)), mk('call', 'opt', num(o), num(i)), w)
    rep.equal(t + 'controls stay controls', plist(I, st, P, 'controls'), seq(*us), w)
    mp = mapper_of(I, st, P)
    if mp is None:
        rep.undecided(t + 'mapper', 'no mapper')
        return
    # the applied control
    wm = where(prog, find_class(prog, TMAP, 'AlgebraicControlMapper'))
    N = sym('N', 'nat')
    L = lambda n: slen(plist(I, st, P, n))
    sol = trajectory(I, st, N=N, y=L('states'), dual=L('costates'), u=num(m), dynamical_parameters=L('parameters'),
                     const=L('constants'), dual_u=None)
    g = [I.read(st, I.read(st, P, 'independent_variable'), 'sym')] + \
        [field(I, st, plist(I, st, P, n), 'sym') for n in ('states', 'costates', 'parameters', 'constants')]
    was = {f: tf(I, st, sol, f) for f in TFIELDS}
    r = I.call_method(mp, 'inv_map', [sol], {}, st, None)

    def best(n):
        args = [at(was['t'], n), at(was['y'], n), at(was['dual'], n), was['dynamical_parameters'], was['const']]
        ev = lambda e, uv=None: EVU(I, st, P, e, g, args, uv)
        opts = [seq(*[ev(mk('call', 'opt', num(o), num(i))) for i in range(m)]) for o in range(k)]
        b, ham = opts[0], ev(H, opts[0]) if k > 1 else None
        for o in range(1, k):
            h = ev(H, opts[o])
            c = lt(h, ham)
            b, ham = ite(c, opts[o], b), ite(c, h, ham)
        return b
    u = tf(I, st, r, 'u')
    for i in range(m):
        rep.equal(t + 'at every node control %d of the option with the least Hamiltonian is applied' % i,
                  rows(N, lambda n: at(at(u, n), num(i))), rows(N, lambda n: at(best(n), num(i))), wm)
    rep.equal(t + 'one control vector per node', slen(u), N, wm)
    for f in TFIELDS:
        if f not in ('u', 'dual_u'):
            rep.equal(t + 'mapping back leaves %s' % f, tf(I, st, r, f), was[f], wm)
    r = I.call_method(mp, 'map', [sol], {}, st, None)
    for f in ('t', 'y', 'dual', 'q', 'dynamical_parameters', 'const'):
        rep.equal(t + 'mapping forth leaves %s' % f, tf(I, st, r, f), was[f], wm)


def EVU(I, st, P, e, groups, args, uv=None):
    ps, av = list(groups), list(args)
    if uv is not None:
        ps.append(field(I, st, plist(I, st, P, 'controls'), 'sym'))
        av.append(uv)
    return I.lib.evaluate(I, st, e, I.lib.bind_groups(I, st, ps, av))
