"""C26: time as a state, canonical geometry and conserved quantities."""
from ..common import *
from . import c29

EXPLANATION = ('Value-graph comparison of the momentum shift with the extension of the problem by time as a state, of the '
               'symplectic form and the Hamiltonian vector field with the canonical equations, and of the conserved '
               'quantity of a symmetry with Noether\'s sum of costates times the symmetry field.')
DG = 'beluga.symbolic.differential_geometry.differential_geometry'


def run(prog, rep):
    rep.assumptions += ['the linear solver is exact for a regular matrix',
                        'the integral of a constant over a symbol is their product']
    w = where(prog, find_class(prog, MF, 'MomentumShift'))
    for ns in (0, 1, 2):
        for given in (False, True):
            scenario(rep, 'momentum shift, %d symmetries' % ns, lambda: shift(prog, rep, ns, given, w))
    for case in range(6):
        scenario(rep, 'momentum shift, example %d' % case, lambda: instance(prog, rep, case, w))
    scenario(rep, 'momentum shift before parsing', lambda: early(prog, rep, w))
    big = rep.tier == 'thorough'
    for n in (1, 2, 3) + ((4, 5) if big else ()):
        scenario(rep, 'canonical equations, %d pairs' % n, lambda: canonical(prog, rep, n))
        scenario(rep, 'conserved quantity, %d pairs' % n, lambda: conserved(prog, rep, n))
        scenario(rep, 'symmetry of a quantity, %d pairs' % n, lambda: symmetry_of(prog, rep, n))
    for n in (2, 4):
        scenario(rep, 'vector field of any form, %d' % n, lambda: anyform(prog, rep, n))
    for r, c in ((1, 1), (2, 2), (3, 3), (2, 4)) + (((4, 4),) if big else ()):
        scenario(rep, 'is_symplectic %dx%d' % (r, c), lambda: symplectic(prog, rep, r, c))
    scenario(rep, 'rejections', lambda: reject(prog, rep))
    for ns in (0, 1, 2, 3):
        scenario(rep, 'conserved quantities %d' % ns, lambda: c29.conserved(prog, rep, ns))
    for n in (1, 2, 3):
        scenario(rep, 'exterior derivative %d' % n, lambda: exterior(prog, rep, n))
        scenario(rep, 'total derivative %d' % n, lambda: total(prog, rep, n))


def fn(I, st, name):
    f = I.module_name(DG, name, st)
    if f is None:
        raise Broken('%s not found' % name)
    return f


def wf(name):
    return 'beluga/symbolic/differential_geometry/differential_geometry.py:%s' % name


def shift(prog, rep, ns, given, w):
    I = interp(prog)
    st = State()
    P = problem(I, st)
    S0 = plist(I, st, P, 'states')
    iv = I.read(st, P, 'independent_variable')
    st.heap[(iv, 'name')] = const('t')
    st.heap[(iv, 'sym')] = mk('symbol', const('t'))
    iu = I.read(st, iv, 'units')
    fld = []
    sy = []
    for i in range(ns):
        c = I.input_obj('symmetry%d' % i, find_class(prog, CS, 'SymmetryStruct'))
        f = rows(slen(S0), lambda k: mk('at', sym('field%d' % i), k))
        st.heap[(c, 'field')] = I.new_array(st, f)
        fld.append(f)
        sy.append(c)
    st.heap[(I.read(st, P, 'symmetries'), '$')] = seq(*sy)
    path = I.read(st, I.read(st, P, 'cost'), 'path')
    eom0 = field(I, st, S0, 'eom')
    args = [const('tau')] if given else []
    R = transform(I, st, functor(I, st, 'MomentumShift', *args), P)
    note(rep, I)
    t = 'momentum shift (%d symmetries%s): ' % (ns, ', name given' if given else '')
    rep.equal(t + 'returns the transformed problem', R, P, w)
    S = plist(I, st, P, 'states')
    rep.equal(t + 'one more state', slen(S), add(slen(S0), ONE), w)
    rep.equal(t + 'the other states keep their dynamics', field(I, st, slice_(S, ZERO, slen(S0)), 'eom'), eom0, w)
    new = at(S, slen(S0))
    rep.equal(t + 'time is a state under its own name', I.read(st, new, 'name'), const('t'), w)
    rep.equal(t + 'time runs with rate one', I.read(st, new, 'eom'), ONE, w)
    rep.equal(t + 'time keeps its unit', I.read(st, new, 'units'), iu, w)
    niv = I.read(st, P, 'independent_variable')
    rep.equal(t + 'the new independent variable has another name', I.read(st, niv, 'name'),
              const('tau' if given else '_t'), w)
    rep.equal(t + 'the new independent variable has the unit of time', I.read(st, niv, 'units'), iu, w)
    tsym = I.read(st, new, 'sym')
    D = lambda e, s: I.lib.diff_(I, e, s)
    sl = plist(I, st, P, 'symmetries')
    b = fresh_bv()
    free = and_(eq(D(path, tsym), ZERO), not_(any_(slen(S0), b, not_(eq(D(at(eom0, b), tsym), ZERO)))))
    rep.equal(t + 'time is a symmetry exactly when no rate and no path cost names it', slen(sl),
              ite(free, num(ns + 1), num(ns)), w)
    for i in range(ns):
        c = at(sl, num(i))
        rep.equal(t + 'symmetry %d does not move time' % i, I.V(st, I.read(st, c, 'field')), cat(fld[i], seq(ZERO)), w)
    pos_ = num(ns)
    want = cat(rows(slen(S0), lambda k: ZERO), seq(ONE))
    s2 = assume(sl, free, True)
    if s2.op == 'cat' or s2.op == 'seq':
        c = at(s2, pos_)
        rep.equal(t + 'the new symmetry moves time alone', I.V(st, I.read(st, c, 'field')), want, w)
        rep.equal(t + 'the new symmetry has the unit of time', I.read(st, c, 'units'), iu, w)
    mp = mapper_of(I, st, P)
    if mp is not None:
        rep.equal(t + 'the mapper knows the column of time', I.read(st, mp, 'ind_state_idx'), slen(S0), w)


def instance(prog, rep, case, w):
    """two states with definite rates and path cost"""
    I = interp(prog)
    st = State()
    P = problem(I, st)
    x, y, t_ = [mk('symbol', const(n)) for n in ('x', 'y', 't')]
    rates = [(y, x), (mul(t_, y), x), (y, mul(x, t_)), (y, x), (y, mul(x, y)), (y, t_)][case]
    path = [mul(x, y), x, ONE, add(mul(t_, x), y), ONE, t_][case]
    free = case in (0, 4)
    xs = []
    iv = I.read(st, P, 'independent_variable')
    st.heap[(iv, 'name')] = const('t')
    st.heap[(iv, 'sym')] = t_
    iu = sym('unit_t', 'real')
    st.heap[(iv, 'units')] = iu
    for n, s, r, u in zip(('x', 'y'), (x, y), rates, (sym('unit_x', 'real'), iu)):
        o = I.input_obj(n, find_class(prog, CS, 'DynamicStruct'))
        st.heap[(o, 'name')] = const(n)
        st.heap[(o, 'sym')] = s
        st.heap[(o, 'eom')] = r
        st.heap[(o, 'units')] = u
        xs.append(o)
    st.heap[(I.read(st, P, 'states'), '$')] = seq(*xs)
    empty(I, st, P, 'symmetries')
    st.heap[(I.read(st, P, 'cost'), 'path')] = path
    transform(I, st, functor(I, st, 'MomentumShift'), P)
    note(rep, I)
    t = 'momentum shift, two states, example %d: ' % case
    sl = plist(I, st, P, 'symmetries')
    rep.equal(t + 'time is a symmetry exactly when no rate and no path cost names it', slen(sl), ONE if free else ZERO,
              w)
    if free and slen(sl) is ONE:
        rep.equal(t + 'the symmetry moves time alone', I.V(st, I.read(st, at(sl, ZERO), 'field')),
                  seq(ZERO, ZERO, ONE), w)
    mp = mapper_of(I, st, P)
    if mp is not None:
        rep.equal(t + 'the mapper knows the column of time', I.read(st, mp, 'ind_state_idx'), num(2), w)


def early(prog, rep, w):
    I = interp(prog)
    st = State()
    P = problem(I, st, sympified=False)
    rejects(rep, 'momentum shift before parsing is rejected', I, st,
            lambda: transform(I, st, functor(I, st, 'MomentumShift'), P), w, 'ValueError')
    note(rep, I)


def syms(p, n):
    return [mk('symbol', const('%s%d' % (p, i))) for i in range(n)]


def canonical(prog, rep, n):
    I = interp(prog)
    st = State()
    x, l = syms('x', n), syms('l', n)
    H = sym('H', 'real')
    I.exprs = {H}
    D = lambda e, s: I.lib.diff_(I, e, s)
    om = I.call(fn(I, st, 'make_standard_symplectic_form'), [I.new_list(st, seq(*x)), I.new_list(st, seq(*l))], {}, st,
                None)
    m = I.lib.val(I, st, om)
    t = 'canonical equations (%d pairs): ' % n
    for i in range(2 * n):
        for j in range(2 * n):
            v = ONE if j - i == n else neg(ONE) if i - j == n else ZERO
            rep.equal(t + 'entry %d,%d of the standard form' % (i, j), at(at(m, num(i)), num(j)), v,
                      wf('make_standard_symplectic_form'))
    X = I.call(fn(I, st, 'make_hamiltonian_vector_field'), [H, om, I.new_list(st, seq(*(x + l)))], {}, st, None)
    note(rep, I)
    X = flat(I, st, X)
    w = wf('make_hamiltonian_vector_field')
    for i in range(n):
        rep.equal(t + 'state %d moves with dH/dlambda' % i, X(i), D(H, l[i]), w)
        rep.equal(t + 'costate %d moves with minus dH/dx' % i, X(n + i), neg(D(H, x[i])), w)


def flat(I, st, X):
    return lambda i: I.lib.getitem(I, st, X, num(i))


def anyform(prog, rep, n):
    """omega X = -dH for an antisymmetric form with any entries"""
    I = interp(prog)
    st = State()
    b = syms('b', n)
    H = sym('H', 'real')
    I.exprs = {H}
    W = [[ZERO] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            W[i][j] = sym('w%d%d' % (i, j), 'real')
            W[j][i] = neg(W[i][j])
    om = I.new_array(st, seq(*[seq(*r) for r in W]))
    X = I.call(fn(I, st, 'make_hamiltonian_vector_field'), [H, om, I.new_list(st, seq(*b))], {}, st, None)
    note(rep, I)
    X = flat(I, st, X)
    for i in range(n):
        r = ZERO
        for j in range(n):
            r = add(r, mul(W[i][j], X(j)))
        rep.equal('vector field of any %dx%d form: row %d of omega X = -dH' % (n, n, i), r,
                  neg(I.lib.diff_(I, H, b[i])), wf('make_hamiltonian_vector_field'))


def conserved(prog, rep, n):
    I = interp(prog)
    st = State()
    P = problem(I, st)
    xs, ls = [], []
    for i in range(n):
        for p, l in (('x', xs), ('l', ls)):
            a = I.input_obj('%s%d' % (p, i), find_class(prog, CS, 'DynamicStruct'))
            st.heap[(a, 'sym')] = mk('symbol', const('%s%d' % (p, i)))
            l.append(a)
    st.heap[(I.read(st, P, 'states'), '$')] = seq(*xs)
    st.heap[(I.read(st, P, 'costates'), '$')] = seq(*ls)
    W = [[ONE if j - i == n else neg(ONE) if i - j == n else ZERO for j in range(2 * n)] for i in range(2 * n)]
    st.heap[(P, 'omega')] = I.new_array(st, seq(*[seq(*r) for r in W]))
    xi = [sym('xi%d' % i, 'real') for i in range(n)]
    c = I.input_obj('symmetry', find_class(prog, CS, 'SymmetryStruct'))
    st.heap[(c, 'field')] = I.new_array(st, seq(*(xi + [ZERO] * n)))
    I.intercepts['sympy.integrate'] = lambda I, st, a, k: mul(I.lib.val(I, st, a[0]), I.lib.val(I, st, a[1]))
    com = plist(I, st, P, 'constants_of_motion')
    r = I.call(fn(I, st, 'noether'), [P, c], {}, st, None)
    note(rep, I)
    want = ZERO
    for i in range(n):
        want = add(want, mul(xi[i], mk('symbol', const('l%d' % i))))
    t = 'conserved quantity (%d pairs): ' % n
    rep.equal(t + 'sum of the symmetry field times the costates', I.lib.getitem(I, st, r, ZERO), want, wf('noether'))
    rep.equal(t + 'unit of the Hamiltonian per unit of the symmetry', I.lib.getitem(I, st, r, ONE),
              div(I.read(st, at(com, ZERO), 'units'), I.read(st, c, 'units')), wf('noether'))


def symmetry_of(prog, rep, n):
    """the symmetry of a conserved quantity is its Hamiltonian vector field"""
    D = None
    for k in [None] + list(range(n)):
        I = interp(prog)
        st = State()
        P = problem(I, st)
        xs, ls = [], []
        for i in range(n):
            for p, l in (('x', xs), ('l', ls)):
                a = I.input_obj('%s%d' % (p, i), find_class(prog, CS, 'DynamicStruct'))
                st.heap[(a, 'sym')] = mk('symbol', const('%s%d' % (p, i)))
                l.append(a)
        st.heap[(I.read(st, P, 'states'), '$')] = seq(*xs)
        st.heap[(I.read(st, P, 'costates'), '$')] = seq(*ls)
        W = [[ONE if j - i == n else neg(ONE) if i - j == n else ZERO for j in range(2 * n)] for i in range(2 * n)]
        st.heap[(P, 'omega')] = I.new_array(st, seq(*[seq(*r) for r in W]))
        G = mk('symbol', const('l%d' % k)) if k is not None else sym('G', 'real')
        I.exprs = {G}
        D = lambda e, s: I.lib.diff_(I, e, s)
        q = I.input_obj('quantity', find_class(prog, CS, 'NamedExpressionStruct'))
        st.heap[(q, 'expr')] = G
        sy = lambda p, i: mk('symbol', const('%s%d' % (p, i)))
        want = [D(G, sy('l', i)) for i in range(n)] + [neg(D(G, sy('x', i))) for i in range(n)]
        t = 'symmetry of %s, %d pairs: ' % ('a conserved quantity' if k is None else 'costate %d' % k, n)
        f = I.lib.val(I, st, I.call(fn(I, st, 'pb'), [NONE, q, P], {}, st, None))
        for i in range(2 * n):
            rep.equal(t + 'component %d is that of the vector field of the quantity' % i, at(f, num(i)), want[i], wf('pb'))
        if k is not None:
            r = I.call(fn(I, st, 'noether'), [P, q], {}, st, None)
            g = I.lib.val(I, st, I.lib.getitem(I, st, r, ZERO))
            for i in range(2 * n):
                rep.equal(t + 'component %d of the symmetry' % i, at(g, num(i)), want[i], wf('noether'))
            rep.equal(t + 'unit of the state it moves', I.lib.getitem(I, st, r, ONE), I.read(st, xs[k], 'units'),
                      wf('noether'))
        note(rep, I)


def symplectic(prog, rep, r, c):
    I = interp(prog)
    st = State()
    W = [[sym('w%d%d' % (i, j), 'real') for j in range(c)] for i in range(r)]
    om = I.new_array(st, seq(*[seq(*x) for x in W]))
    v = I.call(fn(I, st, 'is_symplectic'), [om], {}, st, None)
    note(rep, I)
    want = TRUE if r == c and r % 2 == 0 else FALSE
    if want is TRUE:
        for i in range(r):
            want = and_(want, eq(W[i][i], ZERO))
            for j in range(i + 1, r):
                want = and_(want, eq(W[i][j], neg(W[j][i])))
    rep.equal('a %dx%d form counts as symplectic exactly when it is antisymmetric and even' % (r, c),
              I.truth(v, st), want, wf('is_symplectic'))


def reject(prog, rep):
    for a, b in ((1, 2), (2, 1), (3, 2)):
        I = interp(prog)
        st = State()
        rejects(rep, 'a form of %d states and %d costates is rejected' % (a, b), I, st,
                lambda: I.call(fn(I, st, 'make_standard_symplectic_form'),
                               [I.new_list(st, seq(*syms('x', a))), I.new_list(st, seq(*syms('l', b)))], {}, st, None),
                wf('make_standard_symplectic_form'), 'ValueError')
        note(rep, I)
    for r, c in ((2, 4), (3, 3), (4, 2)):
        I = interp(prog)
        st = State()
        H = sym('H', 'real')
        I.exprs = {H}
        om = I.new_array(st, seq(*[seq(*[sym('w%d%d' % (i, j), 'real') for j in range(c)]) for i in range(r)]))
        rejects(rep, 'a vector field of a %dx%d form is rejected' % (r, c), I, st,
                lambda: I.call(fn(I, st, 'make_hamiltonian_vector_field'), [H, om, I.new_list(st, seq(*syms('b', r)))],
                               {}, st, None), wf('make_hamiltonian_vector_field'), 'ValueError')
        note(rep, I)
    I = interp(prog)
    st = State()
    v = I.call(fn(I, st, 'is_symplectic'), [NONE], {}, st, None)
    rep.equal('no form is not symplectic', I.truth(v, st), FALSE, wf('is_symplectic'))
    I = interp(prog)
    st = State()
    P = problem(I, st)
    st.heap[(P, 'omega')] = NONE
    c = I.input_obj('symmetry', find_class(prog, CS, 'SymmetryStruct'))
    rejects(rep, 'no conserved quantity without a symplectic form', I, st,
            lambda: I.call(fn(I, st, 'noether'), [P, c], {}, st, None), wf('noether'), 'ValueError')


def exterior(prog, rep, n):
    I = interp(prog)
    st = State()
    b = syms('b', n)
    H = sym('H', 'real')
    I.exprs = {H}
    D = lambda e, s: I.lib.diff_(I, e, s)
    f = fn(I, st, 'exterior_derivative')
    d = I.lib.val(I, st, I.call(f, [H, I.new_list(st, seq(*b))], {}, st, None))
    w = wf('exterior_derivative')
    for i in range(n):
        rep.equal('exterior derivative of a function of %d variables: component %d' % (n, i), at(d, num(i)), D(H, b[i]), w)
    one = [sym('f%d' % i, 'real') for i in range(n)]
    I.exprs = set(one)
    d = I.lib.val(I, st, I.call(f, [I.new_array(st, seq(*one)), I.new_list(st, seq(*b))], {}, st, None))
    note(rep, I)
    for i in range(n):
        for j in range(n):
            rep.equal('exterior derivative of a one-form in %d variables: component %d,%d' % (n, i, j),
                      at(at(d, num(i)), num(j)), sub(D(one[j], b[i]), D(one[i], b[j])), w)


def total(prog, rep, n):
    I = interp(prog)
    st = State()
    e, v = sym('e', 'real'), mk('symbol', const('v'))
    D = lambda a, s: I.lib.diff_(I, a, s)
    f = fn(I, st, 'total_derivative')
    r = I.call(f, [e, v], {}, st, None)
    rep.equal('total derivative without dependent variables', I.lib.val(I, st, r), D(e, v), wf('total_derivative'))
    q, qe = syms('q', n), [sym('qe%d' % i, 'real') for i in range(n)]
    d = I.lib.dict_from_pairs(I, st, seq(*[tup(a, b) for a, b in zip(q, qe)]))
    r = I.call(f, [e, v, d], {}, st, None)
    note(rep, I)
    want = D(e, v)
    for a, b in zip(q, qe):
        sb = I.call_method(D(e, a), 'subs', [I.call_method(d, 'items', [], {}, st, None)], {}, st, None)
        want = add(want, mul(I.lib.val(I, st, sb), D(b, v)))
    rep.equal('total derivative with %d dependent variables: chain rule' % n, I.lib.val(I, st, r), want,
              wf('total_derivative'))
