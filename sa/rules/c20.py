"""C20: tables and custom functions and their derivatives."""
from fractions import Fraction
from ..common import *
from ..terms import as_poly, from_poly

EXPLANATION = ('Value-graph comparison of the table functions with the natural cubic spline through the data and with the '
               'formal derivatives of one another, of the finite-difference and complex-step formulas with their exact '
               'action on powers, and of the bookkeeping that attaches a derivative function to a symbolic derivative.')
TB = 'beluga.symbolic.special_functions.tables'
CF = 'beluga.symbolic.special_functions.custom_functions'
ND = 'beluga.numeric.numerical_derivatives'
FD = 'beluga.numeric.numerical_derivatives.finite_diff'
CSD = 'beluga.numeric.numerical_derivatives.complex_step'


def run(prog, rep):
    rep.assumptions += ['the linear solver is exact for a regular matrix',
                        'compiling a function with numba does not change its values',
                        'table abscissae increase strictly']
    rep.closed = True
    for n in (3, 4) + ((5, 6) if rep.tier == 'thorough' else ()):
        scenario(rep, 'spline through %d points' % n, lambda: spline(prog, rep, n))
    big = rep.tier == 'thorough'
    orders = [(1,), (2,), (3,), (1, 0), (0, 1), (1, 1), (0, 2), (2, 1)] + ([(4,), (2, 2), (1, 0, 1), (0, 0, 2)] if big else [])
    for order in orders:
        for method in ('forward', 'backward', 'central'):
            scenario(rep, 'finite differences %s %s' % (method, order), lambda: findiff(prog, rep, order, method))
    for n in (1, 2, 3):
        scenario(rep, 'default finite differences', lambda: findiff(prog, rep, (1,) + (0,) * (n - 1), None))
    for order, acc in (((1,), 2), ((1,), 3), ((2,), 2), ((0, 1), 2)) + ((((2,), 4), ((3,), 2)) if big else ()):
        for method in ('forward', 'backward', 'central'):
            scenario(rep, 'accurate finite differences', lambda: findiff(prog, rep, order, method, acc))
    for order in ((1,), (2,), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (3,), (0, 3), (2, 1), (1, 2), (0, 0, 1), (0, 1, 0),
                  (1, 0, 0), (0, 2, 0), (0, 0, 2), (0, 1, 2), (1, 2, 0), (0, 0, 1, 0)):
        scenario(rep, 'complex step %s' % (order,), lambda: csd(prog, rep, order))
    for n in (1, 2, 3):
        scenario(rep, 'symbolic functions of %d arguments' % n, lambda: custom(prog, rep, n))
    scenario(rep, 'symbolic tables', lambda: symtable(prog, rep))
    scenario(rep, 'names', lambda: names(prog, rep))
    scenario(rep, 'choice of the method', lambda: choice(prog, rep))
    for extra in (False, True):
        scenario(rep, 'registered functions', lambda: registered(prog, rep, extra))


def ddx(t, x):
    """formal derivative of a polynomial whose other atoms do not name x"""
    out = {}
    total_ = ZERO
    for m, c in as_poly(t).items():
        for a, e in m:
            if a is x:
                m2 = tuple((b, k) if b is not x else (b, k - 1) for b, k in m if b is not x or k != 1)
                out[m2] = out.get(m2, 0) + c * e
            elif contains(a, x):
                if a.op == 'pow' and a.args[1].op == 'num' and a.args[1].args[0].denominator == 1:
                    base, k = a.args[0], int(a.args[1].args[0])
                    db = ddx(base, x)
                elif a.op == 'poly':
                    base, k = a, 1
                    db = ddx(base, x)
                else:
                    return None
                if db is None:
                    return None
                rest = from_poly({tuple(p for p in m if p[0] is not a): c})
                total_ = add(total_, mul(rest, mul(mul(num(e * k), power(base, num(e * k - 1))), db)))
    return add(total_, from_poly(out))


def table(prog, n):
    I = interp(prog)
    st = State()
    cls = find_class(prog, TB, 'TableSpline1D')
    X = [sym('X0', 'real')]
    for i in range(1, n):
        X.append(add(X[-1], sym('h%d' % i, 'real')))
    Y = [sym('Y%d' % i, 'real') for i in range(n)]
    I.solved = {}

    def solve(I, st, a, kw):
        # unknowns stand for the solution while the pieces are compared; it is filled in for the joints
        A, b = I.lib.val(I, st, a[0]), I.lib.val(I, st, a[1])
        r = I.lib.linsolve(A, I.lib.matrix_of(I, st, b))
        if r is None:
            return None
        zs = [sym('z%d_%d' % (len(I.solved), i), 'real') for i in range(len(r.args))]
        I.solved.update({z: x.args[0] for z, x in zip(zs, r.args)})
        return I.new_array(st, seq(*zs))
    I.intercepts['numpy.linalg.solve'] = solve
    o = I.instantiate(cls, [const('tab'), I.new_array(st, seq(*Y)), I.new_array(st, seq(*X))], {}, st, None)
    return I, st, o, X, Y


def piece(I, st, o, k, order, x, n):
    """value of the derivative of the given order, when x lies in interval k (0-based)"""
    I.intercepts['numpy.searchsorted'] = lambda I, st, a, kw: num(k + 1)
    f = I.call_method(o, 'form_eval_function', [num(order)], {}, st, None)
    return I.lib.val(I, st, I.call(f, [x], {}, st, None))


def spline(prog, rep, n):
    I, st, o, X, Y = table(prog, n)
    w = where(prog, find_class(prog, TB, 'TableSpline1D'))
    x = sym('x', 'real')
    F = {(k, d): piece(I, st, o, k, d, x, n) for k in range(n - 1) for d in range(5)}
    note(rep, I)
    t = 'table of %d points: ' % n
    for k in range(n - 1):
        rep.equal(t + 'interval %d starts at its data' % k, subst(F[k, 0], {x: X[k]}), Y[k], w)
        rep.equal(t + 'interval %d ends at its data' % k, subst(F[k, 0], {x: X[k + 1]}), Y[k + 1], w)
        for d in range(4):
            dd = ddx(F[k, d], x)
            if dd is None:
                rep.undecided(t + 'interval %d derivative %d' % (k, d), 'not a polynomial')
                continue
            rep.equal(t + 'interval %d: derivative %d is the slope of derivative %d' % (k, d + 1, d), F[k, d + 1], dd, w)
    for d in range(4):
        rep.equal(t + 'derivative %d before the first point follows the first interval' % d,
                  piece(I, st, o, -1, d, x, n), F[0, d], w)
        rep.equal(t + 'derivative %d from the last point on follows the last interval' % d,
                  piece(I, st, o, n - 1, d, x, n), F[n - 2, d], w)
    for k in range(n - 2):
        for d in (1, 2):
            a, b = subst(F[k, d], {x: X[k + 1]}), subst(F[k + 1, d], {x: X[k + 1]})
            if d == 1:
                a, b = subst(a, I.solved), subst(b, I.solved)
            rep.equal(t + 'derivative %d is continuous at inner point %d' % (d, k + 1), a, b, w)
    rep.equal(t + 'no curvature at the first point', subst(F[0, 2], {x: X[0]}), ZERO, w)
    rep.equal(t + 'no curvature at the last point', subst(F[n - 2, 2], {x: X[n - 1]}), ZERO, w)


def native(I, st, n):
    """a function of n arguments, any values"""
    f = mk('mod', 'verif.f')
    I.intercepts['verif.f'] = lambda I, st, a, k: mk('call', 'f', *[I.lib.val(I, st, x) for x in a])

    I.intercepts['verif.f.compile'] = lambda I, st, a, k: f
    I.intercepts['verif.f.disable_compile'] = lambda I, st, a, k: NONE

    def signature(I, st, a, k):
        o = I.input_obj('signature', find_class(I.prog, TRAJ, 'Trajectory'))
        st.heap[(o, 'parameters')] = I.new_list(st, seq(*[const('a%d' % i) for i in range(n)]))
        return o
    I.intercepts['inspect.signature'] = signature
    return f


def modfn(I, st, mod, name):
    f = I.module_name(mod, name, st)
    if f is None:
        raise Broken('%s not found' % name)
    return f


def calls_of(t):
    return [x for x in subterms(t) if x.op == 'call' and x.args[0] == 'f']


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def powers(n, total):
    if n == 1:
        return [(k,) for k in range(total + 1)]
    return [(k,) + r for k in range(total + 1) for r in powers(n - 1, total - k)]


def act(t, xs, mono, at0=True):
    """the value of t when f is the given monomial and the point is the origin"""
    m = {}
    for c in calls_of(t):
        v = ONE
        for a, e in zip(c.args[1:], mono):
            v = mul(v, power(a, num(e)) if e else ONE)
        m[c] = v
    t = subst(t, m)
    return subst(t, {x: ZERO for x in xs})


def findiff(prog, rep, order, method, acc=None):
    I = interp(prog)
    st = State()
    n = len(order)
    f = native(I, st, n)
    h = sym('h', 'real')
    kw = {'step_size': h}
    if method is not None:
        kw.update(deriv_order=tup(*[num(k) for k in order]), method=const(method))
    if acc:
        kw['acc_order'] = num(acc)
    g = I.call(modfn(I, st, FD, 'gen_fin_diff'), [f], kw, st, None)
    xs = [sym('x%d' % i, 'real') for i in range(n)]
    v = I.lib.val(I, st, I.call(g, xs, {}, st, None))
    note(rep, I)
    w = 'beluga/numeric/numerical_derivatives/finite_diff.py:gen_fin_diff'
    t = '%s differences of order %s%s: ' % (method or 'default', order, ', accuracy %d' % acc if acc else '')
    cs = calls_of(v)
    if not cs:
        rep.undecided(t + 'formula', clip_(v))
        return
    for c in cs:
        for i, a in enumerate(c.args[1:]):
            d = sub(a, xs[i])
            if contains(d, xs[i]):
                rep.undecided(t + 'the formula is a stencil around the point', clip_(c))
                return
    rep.equal(t + 'all arguments are given', num(max(len(c.args) - 1 for c in cs)), num(n), w)
    # exact on every polynomial up to the order of the derivative, at any point and with any step
    for mono in powers(n, sum(order) + (acc - 1 if acc else 0)):
        want = 1
        if mono == tuple(order):
            for k in order:
                want *= fact(k)
        else:
            want = 0
        rep.equal(t + 'exact for the monomial %s' % (mono,), act(v, xs, mono), num(want), w)
    for mono in powers(n, sum(order) + 2):
        if sum(mono) > sum(order):
            small(rep, t + 'the error for the monomial %s vanishes with the step' % (mono,), act(v, xs, mono), h, w)


def small(rep, name, got, h, w):
    """every term of the error carries the step (or is negligible)"""
    p = as_poly(got) if got is not None else None
    if p is None:
        rep.undecided(name, 'no polynomial', w)
        return
    bad, odd = [], False
    for m, c in p.items():
        if dict(m).get(h, 0) > 0:
            odd = odd or any(contains(a, h) for a, e in m if a is not h)
            continue
        if any(contains(a, h) for a, e in m if a is not h) or any(subterms_sym(a) for a, e in m if a is not h):
            odd = True
        elif abs(c) > Fraction(1, 10 ** 6):
            bad.append(m)
    rep.check(name, None if odd else not bad, clip_(got), w)


def subterms_sym(a):
    return any(x.op in ('sym', 'call', 'attr', 'opaque', 'undef') for x in subterms(a))


def clip_(t):
    return show(t)[:300]


def csd(prog, rep, order):
    I = interp(prog)
    st = State()
    n = len(order)
    f = native(I, st, n)
    h = sym('h', 'real')
    back = []

    def fin(I, st, a, k):
        back.append((a, k))
        return mk('mod', 'verif.fallback')
    I.intercepts['gen_fin_diff'] = fin
    I.intercepts['verif.fallback'] = lambda I, st, a, k: mk('call', 'fallback', *[I.lib.val(I, st, x) for x in a])
    g = I.call(modfn(I, st, CSD, 'gen_csd'), [f], {'deriv_order': tup(*[num(k) for k in order]), 'step_size': h}, st, None)
    w = 'beluga/numeric/numerical_derivatives/complex_step.py:gen_csd'
    t = 'complex step of order %s: ' % (order,)
    xs = [sym('x%d' % i, 'real') for i in range(n)]
    v = I.lib.val(I, st, I.call(g, xs, {}, st, None))
    note(rep, I)
    if max(order) > 2 or sum(1 for k in order if k) > 1:
        rep.equal(t + 'finite differences take over', v, mk('call', 'fallback', *xs), w)
        for a, k in back[:1]:
            rep.equal(t + 'of the same function', a[0] if a else k.get('func', NONE), f, w)
            o = k.get('deriv_order', a[1] if len(a) > 1 else NONE)
            rep.equal(t + 'of the same order', seq(*I.lib.nseq(I.lib.val(I, st, o)).args), seq(*[num(q) for q in order]), w)
            rep.equal(t + 'with the same step', k.get('step_size', a[2] if len(a) > 2 else NONE), h, w)
        return
    # with and without a failing compilation of the formula (when the function itself compiles)
    ex = [x for x in subterms(v) if x.op == 'exc']
    runs = {}
    for on in [()] + [(e,) for e in ex]:
        u = subst(v, {e: TRUE if e in on else FALSE for e in ex})
        if not on or not any(x.op in ('undef', 'opaque') for x in subterms(u)):
            runs.setdefault(u, 'compiled' if not on else 'not compiled')
    for u, how in runs.items():
        csd_formula(rep, t + ('' if how == 'compiled' else how + ': '), u, order, xs, n, h, w)


def unstar(v):
    m = {}
    for c in calls_of(v):
        if any(a.op == 'star' for a in c.args[1:]):
            out = []
            for a in c.args[1:]:
                if a.op == 'star' and a.args[0].op in ('seq', 'tup'):
                    out.extend(a.args[0].args)
                else:
                    out.append(a)
            m[c] = mk('call', c.args[0], *out)
    return subst(v, m) if m else v


def csd_formula(rep, t, v, order, xs, n, h, w):
    v = unstar(v)
    if any(a.op == 'star' for c in calls_of(v) for a in c.args[1:]):
        rep.undecided(t + 'formula', clip_(v))
        return
    cs = calls_of(v)
    if not cs:
        rep.undecided(t + 'formula', clip_(v))
        return
    rep.equal(t + 'all arguments are given', num(max(len(c.args) - 1 for c in cs)), num(n), w)
    # exact on every polynomial one degree beyond the order of the derivative
    for mono in powers(n, sum(order) + (1 if sum(order) == 1 else 0)):
        want = 0
        if mono == tuple(order):
            want = 1
            for k in order:
                want *= fact(k)
        got = cact(v, xs, mono)
        if got is None:
            rep.undecided(t + 'monomial %s' % (mono,), clip_(v))
            continue
        rep.equal(t + 'exact for the monomial %s' % (mono,), got, num(want), w)
    for mono in powers(n, sum(order) + 2):
        if sum(mono) > sum(order):
            small(rep, t + 'the error for the monomial %s is negligible' % (mono,), cact(v, xs, mono), h, w)


J = sym('imaginary unit', 'real')


def parts(t):
    """real and imaginary part of a polynomial in the imaginary unit"""
    re, im = {}, {}
    for m, c in as_poly(t).items():
        k = dict(m).get(J, 0)
        rest = tuple(p for p in m if p[0] is not J)
        if any(contains(a, J) for a, e in rest) or k < 0:
            return None, None
        d = im if k % 2 else re
        d[rest] = d.get(rest, 0) + c * (-1 if k % 4 >= 2 else 1)
    return from_poly(re), from_poly(im)


def cact(t, xs, mono):
    t = act(t, xs, mono)
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == 'attr' and x.args[0] in ('imag', 'real') and not any(
                    y.op == 'attr' and y.args[0] in ('imag', 'real') for y in subterms(x.args[1])):
                re, im = parts(x.args[1])
                if re is None:
                    return None
                m[x] = im if x.args[0] == 'imag' else re
        if not m:
            break
        t = subst(t, m)
    if contains(t, J):
        return None
    return t


def choice(prog, rep):
    """the method the user names decides the formula"""
    w = 'beluga/numeric/numerical_derivatives/__init__.py:gen_num_diff'
    for name, meth in (('f_diff', 'forward'), ('b_diff', 'backward'), ('c_diff', 'central'), ('csd', None)):
        for order in ((1,), (0, 2), (1, 1)):
            I = interp(prog)
            st = State()
            f = native(I, st, len(order))
            rec = []

            def mk_(tag):
                return lambda I, st, a, k: (rec.append((tag, a, k)), mk('mod', 'verif.' + tag))[1]
            I.intercepts['gen_fin_diff'] = mk_('fin')
            I.intercepts['gen_csd'] = mk_('csd')
            o = tup(*[num(k) for k in order])
            g = I.call(modfn(I, st, ND, 'gen_num_diff'), [f], {'order': o, 'method': const(name)}, st, None)
            note(rep, I)
            t = 'method %s, order %s: ' % (name, order)
            rep.equal(t + 'the formula asked for', g, mk('mod', 'verif.' + ('fin' if meth else 'csd')), w)
            if len(rec) == 1:
                tag, a, k = rec[0]
                rep.equal(t + 'of the function itself', a[0] if a else k.get('func', NONE), f, w)
                rep.equal(t + 'of the order asked for', k.get('deriv_order', a[1] if len(a) > 1 else NONE), o, w)
                if meth:
                    rep.equal(t + 'to the side asked for', k.get('method', const('central')), const(meth), w)
    I = interp(prog)
    st = State()
    f = native(I, st, 2)
    rep.equal('order zero is the function itself',
              I.call(modfn(I, st, ND, 'gen_num_diff'), [f], {'order': tup(ZERO, ZERO)}, st, None), f, w)
    rejects(rep, 'an unknown method is rejected', I, st,
            lambda: I.call(modfn(I, st, ND, 'gen_num_diff'), [f], {'order': tup(ONE, ZERO), 'method': const('odd')}, st,
                           None), w, 'NotImplementedError')


def hooks(I, st):
    """records the classes made, the functions registered and the numerical derivatives formed"""
    made, reg, nd = [], [], []
    I.intercepts['type3'] = lambda I, st, a, k: made.append(I.lib.val(I, st, a[0]))
    I.intercepts['LocalCompiler.add_function_local'] = lambda I, st, a, k: (
        reg.append((I.lib.val(I, st, a[1]), a[2])), NONE)[1]

    def num_diff(I, st, a, k):
        nd.append((a, k))
        return mk('mod', 'verif.nd%d' % len(nd))
    I.intercepts['gen_num_diff'] = num_diff
    return made, reg, nd


def bump(order, i):
    return tuple(k + (1 if j == i else 0) for j, k in enumerate(order))


def custom(prog, rep, n):
    w = where(prog, find_class(prog, CF, 'CustomFunction'))
    I = interp(prog)
    st = State()
    f = native(I, st, n)
    made, reg, nd = hooks(I, st)
    lc = I.input_obj('lc', find_class(prog, LC, 'LocalCompiler'))
    args = [mk('symbol', const('s%d' % i)) for i in range(n)]
    gen = I.instantiate(find_class(prog, CF, 'CustomFunctionGenerator'), [f],
                        {'name': const('F'), 'local_compiler': lc,
                         'arg_types': I.new_list(st, seq(*[const('scalar')] * n))}, st, None)
    e = I.call(gen, args, {}, st, None)
    t = 'function of %d arguments: ' % n
    rep.equal(t + 'registered once', num(len(reg)), ONE, w)
    if reg:
        rep.equal(t + 'registered under the name it is printed with', reg[-1][0], made[-1] if made else NONE, w)
        rep.equal(t + 'evaluates the user\'s function', reg[-1][1], f, w)
    # derivatives up to second order, by every path
    todo = [((0,) * n, e)]
    depth = 2
    for _ in range(depth):
        nxt = []
        for order, x in todo:
            for i in range(n):
                k0 = len(nd)
                y = I.call_method(x, 'fdiff', [num(i + 1)], {}, st, None)
                o = bump(order, i)
                tt = t + 'derivative %s from %s: ' % (o, order)
                rep.equal(tt + 'registered under the name it is printed with', reg[-1][0], made[-1], w)
                rep.equal(tt + 'one numerical derivative', num(len(nd)), num(k0 + 1), w)
                if len(nd) == k0 + 1:
                    a, k = nd[-1]
                    rep.equal(tt + 'evaluates that derivative', reg[-1][1], mk('mod', 'verif.nd%d' % len(nd)), w)
                    rep.equal(tt + 'of the user\'s function', a[0] if a else k.get('func', NONE), f, w)
                    od = I.lib.nseq(I.lib.val(I, st, k.get('order', a[1] if len(a) > 1 else NONE)))
                    rep.equal(tt + 'in the argument differentiated', seq(*od.args) if od.op in ('seq', 'tup') else od,
                              seq(*[num(q) for q in o]), w)
                rep.equal(tt + 'of the same arguments', I.lib.nseq(I.lib.val(I, st, I.read(st, y, 'arg_list'))),
                          seq(*args), w)
                nxt.append((o, y))
        todo = nxt
    note(rep, I)
    # different derivatives carry different names
    seen = {}
    for nm_, fn_ in reg:
        if nm_.op == 'const':
            if nm_.args[0] in seen and seen[nm_.args[0]] is not fn_:
                rep.fail(t + 'two functions are registered under %r' % nm_.args[0], where=w)
            seen[nm_.args[0]] = fn_
    rep.equal(t + 'every derivative has a name of its own', num(len(seen)), num(len(reg)), w)
    rejects(rep, t + 'a derivative in a missing argument is rejected', I, st,
            lambda: I.call_method(e, 'fdiff', [num(n + 1)], {}, st, None), w, 'ArgumentIndexError')
    for m in (n - 1, n + 1):
        if m > 0:
            I = interp(prog)
            st = State()
            f = native(I, st, n)
            hooks(I, st)
            rejects(rep, t + 'a call with %d arguments is rejected' % m, I, st,
                    lambda: I.instantiate(find_class(prog, CF, 'CustomFunction'),
                                          [const('F'), f, tup(*[mk('symbol', const('s%d' % i)) for i in range(m)])],
                                          {}, st, None), w)


def symtable(prog, rep):
    w = where(prog, find_class(prog, TB, 'SymTable'))
    I = interp(prog)
    st = State()
    made, reg, nd = hooks(I, st)
    lc = I.input_obj('lc', find_class(prog, LC, 'LocalCompiler'))
    tb = I.input_obj('table', find_class(prog, TB, 'TableSpline1D'))
    st.heap[(tb, 'name')] = const('T')
    formed = []

    def form(I, st, a, k):
        formed.append(I.lib.val(I, st, a[1] if len(a) > 1 else k.get('order', NONE)))
        return mk('mod', 'verif.form%d' % len(formed))
    I.intercepts['TableSpline1D.form_eval_function'] = form
    gen = I.instantiate(find_class(prog, TB, 'SymTableGenerator'), [tb], {'local_compiler': lc}, st, None)
    x = mk('symbol', const('s'))
    e = I.call(gen, [x], {}, st, None)
    names_ = []
    for d in range(4):
        t = 'table derivative %d: ' % d
        rep.equal(t + 'the table evaluates that derivative', formed[-1] if formed else NONE, num(d), w)
        rep.equal(t + 'registered under the name it is printed with', reg[-1][0] if reg else NONE,
                  made[-1] if made else NONE, w)
        rep.equal(t + 'registered function', reg[-1][1] if reg else NONE, mk('mod', 'verif.form%d' % len(formed)), w)
        names_.append(reg[-1][0] if reg else NONE)
        if d == 0:
            rejects_at = e
        st.heap[(e, 'args')] = tup(x)
        e = I.call_method(e, 'fdiff', [ONE], {}, st, None)
    note(rep, I)
    rep.equal('every derivative of a table has a name of its own', num(len({x for x in names_})), num(4), w)
    rejects(rep, 'a table has no derivative in a second argument', I, st,
            lambda: I.call_method(rejects_at, 'fdiff', [num(2)], {}, st, None), w, 'ArgumentIndexError')


def names(prog, rep):
    """derivatives of one function never share a name"""
    w = where(prog, find_class(prog, CF, 'CustomFunction'))
    I = interp(prog)
    st = State()
    seen = {}
    f = I.get_attr(mk('cls', find_class(prog, CF, 'CustomFunction')), 'construct_name', st, None)
    same = mk('symbol', const('x'))
    for n in (1, 2, 3):
        for order in powers(n, 3):
            # the same symbol may stand in every place
            v = I.lib.val(I, st, I.call(f, [const('F'), tup(*[same] * n), tup(*[num(k) for k in order])], {}, st, None))
            key = (n, v)
            if v.op != 'const':
                rep.undecided('name of derivative %s' % (order,), clip_(v))
                continue
            rep.equal('the name of derivative %s differs from that of %s' % (order, seen.get(key, 'the others')),
                      TRUE if key not in seen else FALSE, TRUE, w)
            seen[key] = order
    note(rep, I)


def registered(prog, rep, extra):
    """expressions are parsed and evaluated with the symbols and functions that were registered"""
    from ..lib import dict_get, isin
    I = interp(prog)
    st = State()
    cls = find_class(prog, LC, 'LocalCompiler')
    w = where(prog, cls)
    lc = I.instantiate(cls, [], {}, st, None)
    calls = {}

    def spy(nm):
        def f(I, st, a, k):
            calls[nm] = (list(a), dict(k))
            return sym('result_' + nm)
        return f
    I.intercepts['sympy.sympify'] = spy('sympify')
    I.intercepts['sympy.lambdify'] = spy('lambdify')
    I.intercepts['jit_compile_func'] = lambda I, st, a, k: a[0]
    F, F2, G = const('function F'), const('function F2'), const('function G')
    call = lambda m, *a, **k: I.call_method(lc, m, list(a), k, st, None)
    call('add_symbolic_local', const('f'), F)
    call('add_symbolic_local', const('g'))
    call('add_symbolic_local', const('h'), F)
    call('add_symbolic_local', const('h'), F2)
    e = sym('text')
    nm = 'registered functions%s' % (' with additions' if extra else '')
    if not extra:
        r = call('sympify', e)
        rep.equal('registered symbols: the parsed expression is returned', I.V(st, r), sym('result_sympify'), w)
        a, k = calls.get('sympify', ([], {}))
        rep.equal('registered symbols: the expression given is parsed', I.V(st, a[0]) if a else None, e, w)
        loc = k.get('locals', a[1] if len(a) > 1 else NONE)
        for n, v in (('f', F), ('g', I.lib.symbol(const('g'))), ('h', F2)):
            got = dict_get(I, st, loc, const(n)) if I.class_of(loc) == 'dict' else NONE
            rep.equal('registered symbols: %s is parsed as what was registered last' % n,
                      I.V(st, got) if got is not None else None, v, w)
    call('add_function_local', const('sin'), F)
    call('add_function_local', const('f'), F)
    call('add_function_local', const('f'), G)
    x = sym('x')
    kw = {}
    if extra:
        kw['additional_modules'] = dict_(I, st, {'h': F2})
    r = call('lambdify', I.new_list(st, seq(x)), e, **kw)
    rep.equal(nm + ': the evaluation function is returned', I.V(st, r), sym('result_lambdify'), w)
    a, k = calls.get('lambdify', ([], {}))
    mods = k.get('modules', a[2] if len(a) > 2 else NONE)
    if I.class_of(mods) == 'list':
        mods = I.lib.nseq(I.read(st, mods, '$'))
    if mods.op not in ('seq', 'tup'):
        rep.undecided(nm + ': functions of the evaluation', 'list of modules not found', w)
        return

    def resolve(n, library):
        for m in mods.args:
            if I.class_of(m) == 'dict':
                has = isin(I, st, const(n), m)
                if has is TRUE:
                    return I.V(st, dict_get(I, st, m, const(n)))
                if has is not FALSE:
                    return None
            elif library:
                return sym('library')
        return sym('missing')
    for n, v, lib in (('f', G, False), ('sin', F, True)) + ((('h', F2, False),) if extra else ()):
        rep.equal(nm + ': %s evaluates as registered' % n, resolve(n, lib), v, w)
    rep.holds(nm + ': library functions stay available', TRUE if any(m is const('numpy') for m in mods.args)
              or any(m is const('math') for m in mods.args) or any(m.op == 'mod' for m in mods.args) else FALSE, w)
