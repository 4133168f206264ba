"""C23: propagation integrates the given rates, and trajectories are evaluated column by column."""
from .c16 import *

EXPLANATION = ('The propagator is run abstractly with an uninterpreted library integrator and uninterpreted rates; what it '
               'hands to the integrator and what it returns is compared with the specification. Trajectories of small '
               'sizes with symbolic entries are evaluated, indexed and measured abstractly with an uninterpreted '
               'interpolation.')


def run(prog, rep):
    rep.assumptions += ['the library integrator and quadrature rule are right']
    for ny, nq in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (2, 3), (3, 2)):
        for quick in (False, True):
            for var in (True, False):
                if quick and not nq:
                    continue
                nm = '%d states, %d quadratures%s, %s step' % (ny, nq, ', end point only' if quick else '',
                                                                'variable' if var else 'fixed')
                scenario(rep, nm, lambda: propagate(prog, rep, nm, ny, nq, quick, var))
    scenario(rep, 'fixed grid', lambda: grid(prog, rep))
    scenario(rep, 'options', lambda: options(prog, rep))
    for ny, nq, nu in ((1, 0, 0), (2, 0, 1), (1, 1, 1), (3, 2, 2), (2, 1, 3), (1, 3, 1)):
        for k in (None, 1, 2, 4):
            nm = '%d+%d+%d columns at %s' % (ny, nq, nu, 'one time' if k is None else '%d times' % k)
            scenario(rep, nm, lambda: evaluate(prog, rep, nm, ny, nq, nu, k))
    scenario(rep, 'vectors', lambda: flat(prog, rep))
    scenario(rep, 'new data', lambda: fresh(prog, rep))
    scenario(rep, 'indexing', lambda: index(prog, rep))
    scenario(rep, 'construction', lambda: construct(prog, rep))
    scenario(rep, 'reconstruct', lambda: recon(prog, rep))
    for a, b in ((0, 6), (1, 5), (0, 5), (1, 6), (2, 4), (1, 4), (2, 5), (3, 4)):
        for nq in (0, 2):
            scenario(rep, 'interval', lambda: interval(prog, rep, a, b, nq))
    for a, b in ((-1, 6), (0, 7), (-1, 7)):
        scenario(rep, 'interval', lambda: interval(prog, rep, a, b, 2, bad=True))


def integral(I, st, a, k):
    y = I.reify(st, I.V(st, a[0] if a else k['y']))
    x = a[1] if len(a) > 1 else k.get('x')
    x = I.reify(st, I.V(st, x)) if x is not None else NONE
    # the library integrates along the last axis: one integral per row
    if y.op == 'seq' and y.args and all(r.op == 'seq' for r in y.args):
        return I.new_array(st, seq(*[integ(r, x) for r in y.args]))
    return integ(y, x)


def integ(y, x):
    if y.op == 'seq' and len(y.args) == 1:
        return num(0)
    return mk('call', 'integral', y, x)


def rates(tag, n, y, args):
    return seq(*[mk('call', tag, num(i), y, *args) for i in range(n)])


def propagate(prog, rep, nm, ny, nq, quick, var):
    I = interp(prog)
    st = State()
    cls = find_class(prog, IV, 'Propagator')
    w = where(prog, cls)
    R = lambda st, x: I.reify(st, I.V(st, x))
    eom, quad = mk('mod', 'verif.eom'), mk('mod', 'verif.quad')
    I.intercepts['verif.eom'] = lambda I, st, a, k: I.new_array(st, rates('eom', ny, R(st, a[0]), [R(st, x) for x in a[1:]]))
    I.intercepts['verif.quad'] = lambda I, st, a, k: I.new_array(st, rates('quad', nq, R(st, a[0]), [R(st, x) for x in a[1:]]))
    for n in ('simpson', 'simps'):
        I.intercepts['scipy.integrate.' + n] = integral
    I.intercepts['Trajectory.__call__'] = lambda I, st, a, k: tup(*[
        I.new_array(st, at_time(tf(I, st, a[0], 't'), tf(I, st, a[0], f), R(st, a[1]))) for f in ('y', 'q', 'u')])
    N = 4
    ts = [sym('t0', 'real')] + [sym('node%d' % i, 'real') for i in range(1, N - 1)] + [sym('tf', 'real')]
    if quick:
        ts = [num(i) for i in (1, 3, 4, 8)]       # the end point rule compares node times
    T, Y = seq(*ts), mat('Y', N, ny)
    rec = {}
    NAMES = ('fun', 't_span', 'y0', 'method', 't_eval', 'dense_output', 'events', 'vectorized', 'args')

    def ivp(I, st, a, k):
        k = dict(zip(NAMES, a), **k)
        rec.update({x: k[x] for x in k})
        yy = vec('z', ny)
        rec['value'] = R(st, I.call(k['fun'], [sym('any_time', 'real'), I.new_array(st, yy)], {}, st, None))
        o = I.input_obj('result', find_class(prog, TRAJ, 'Trajectory'))
        st.heap[(o, 't')] = I.new_array(st, T)
        st.heap[(o, 'y')] = I.new_array(st, seq(*[seq(*[Y.args[i].args[j] for i in range(N)]) for j in range(ny)]))
        return o
    I.intercepts['scipy.integrate.solve_ivp'] = ivp
    I.intercepts['numpy.interp'] = lambda I, st, a, k: num(0) if R(st, a[0]) is ts[0] else num(N - 1)
    opts = dict(abstol=sym('atol', 'real'), reltol=sym('rtol', 'real'), maxstep=sym('hmax', 'real'),
                stepper=const('DOP853'), quick_reconstruct=TRUE if quick else FALSE, variable_step=TRUE if var else FALSE)
    if not var:
        opts['maxstep'] = sym('hmax', 'real')
        steps = [sym('grid%d' % i, 'real') for i in range(3)]

        def arange(I, st, a, k):
            if len(a) == 3 and R(st, a[2]) is sym('hmax', 'real'):
                rec['grid'] = seq(R(st, a[0]), R(st, a[1]))
                return I.new_array(st, seq(*steps))
            return I.new_array(st, seq(*[num(i) for i in range(N)]))
        I.intercepts['numpy.arange'] = arange
    prop = I.instantiate(cls, [], opts, st, None)
    tspan = I.new_array(st, seq(ts[0], sym('t_mid', 'real'), ts[-1]))
    y0, q0 = vec('y0_', ny), vec('q0_', nq)
    p, k = vec('p', 2), vec('k', 3)
    # node times are distinct and increasing
    asm = [lt(a, b) for a, b in zip(ts, ts[1:])]
    if not var:
        asm.append(not_(eq(steps[-1], ts[-1])))
    r = I.call(prop, [eom, quad if nq else NONE, tspan, I.new_array(st, y0), I.new_array(st, q0), I.new_array(st, p),
                      I.new_array(st, k)], {}, st, None)
    note(rep, I)
    if 'value' not in rec:
        rep.undecided('%s: integrator call' % nm, 'the integrator was not reached')
        return
    rep.equal('%s: the integrated rates are the given ones, with the given arguments' % nm, rec['value'],
              rates('eom', ny, vec('z', ny), (p, k)), w)
    rep.equal('%s: integration starts at the given state' % nm, R(st, rec['y0']), y0, w)
    rep.equal('%s: integration covers the given interval' % nm, R(st, rec['t_span']), seq(ts[0], ts[-1]), w)
    rep.equal('%s: relative tolerance as asked for' % nm, rec.get('rtol'), opts['reltol'], w)
    rep.equal('%s: absolute tolerance as asked for' % nm, rec.get('atol'), opts['abstol'], w)
    rep.equal('%s: integration method as asked for' % nm, rec.get('method'), const('DOP853'), w)
    if var:
        rep.equal('%s: step limit as asked for' % nm, rec.get('max_step'), opts['maxstep'], w)
    else:
        rep.equal('%s: evaluated on the fixed grid and the end point' % nm, R(st, rec['t_eval']),
                  seq(*(steps + [ts[-1]])), w, assume=tuple(asm))
        if 'grid' in rec:
            rep.equal('%s: the fixed grid covers the given interval' % nm, rec['grid'], seq(ts[0], ts[-1]), w)
    rep.equal('%s: times of the trajectory' % nm, tf(I, st, r, 't'), T, w)
    rep.equal('%s: states of the trajectory' % nm, tf(I, st, r, 'y'), Y, w)
    if not nq:
        rep.equal('%s: no quadratures' % nm, tf(I, st, r, 'q'), EMPTY, w)
        return
    dq = [rates('quad', nq, Y.args[i], (p, k)) for i in range(N)]
    q = tf(I, st, r, 'q')
    for i in (range(N) if not quick else (0, N - 1)):
        want = seq(*[add(q0.args[j], integ(seq(*[dq[m].args[j] for m in range(i + 1)]), seq(*ts[:i + 1])))
                     for j in range(nq)])
        rep.equal('%s: quadratures at node %d are their initial values plus the integrals so far' % (nm, i),
                  at(q, num(i)), want, w, assume=tuple(asm))
    rep.equal('%s: one row of quadratures per node' % nm, slen(q), num(N), w)


def grid(prog, rep):
    """a fixed step ends exactly at the end of the interval, which appears once"""
    from fractions import Fraction as Fr
    cls = find_class(prog, IV, 'Propagator')
    w = where(prog, cls)
    for lo, hi, h in ((0, 1, Fr(1, 4)), (0, 1, Fr(3, 10)), (0, Fr(1001, 1000), Fr(1, 4)), (2, Fr(11, 4), Fr(1, 2)),
                      (-1, 1, 2), (0, 1, 5), (0, 3, 'ends')):
        I = interp(prog)
        st = State()
        R = lambda st, x: I.reify(st, I.V(st, x))
        rec = {}
        NAMES = ('fun', 't_span', 'y0', 'method', 't_eval')

        def ivp(I, st, a, k):
            rec.update(zip(NAMES, a), **k)
            o = I.input_obj('result', find_class(prog, TRAJ, 'Trajectory'))
            st.heap[(o, 't')] = I.new_array(st, vec('t', 2))
            st.heap[(o, 'y')] = I.new_array(st, mat('y', 1, 2))
            return o
        I.intercepts['scipy.integrate.solve_ivp'] = ivp
        if h == 'ends':
            # rounding can make the library's grid reach the end
            pts, step = [num(i) for i in range(4)], Fr(1)
            I.intercepts['numpy.arange'] = lambda I, st, a, k: I.new_array(st, seq(*pts))
            want = seq(*pts)
        else:
            step, pts, x = Fr(h), [], Fr(lo)
            while x < hi:
                pts.append(num(x))
                x += step
            want = seq(*(pts + [num(hi)]))
        p = I.instantiate(cls, [], dict(variable_step=FALSE, maxstep=num(step)), st, None)
        I.call(p, [mk('mod', 'verif.eom'), NONE, I.new_array(st, seq(num(lo), num(hi))), I.new_array(st, vec('y0_', 1)),
                   I.new_array(st, EMPTY), I.new_array(st, EMPTY), I.new_array(st, EMPTY)], {}, st, None)
        note(rep, I)
        te = rec.get('t_eval')
        if te is None:
            rep.undecided('fixed grid over [%s, %s] by %s' % (lo, hi, h), 'no grid handed to the integrator')
            continue
        rep.equal('fixed grid over [%s, %s] by %s: every step and the end point once' % (lo, hi, h), R(st, te), want, w)


def options(prog, rep):
    """a propagator without options uses the documented defaults"""
    from fractions import Fraction
    I = interp(prog)
    st = State()
    cls = find_class(prog, IV, 'Propagator')
    w = where(prog, cls)
    p = I.instantiate(cls, [], {}, st, None)
    for f, v in (('abstol', num(Fraction(1, 10 ** 6))), ('reltol', num(Fraction(1, 10 ** 6))),
                 ('maxstep', num(Fraction(1, 10))), ('stepper', const('RK45')), ('variable_step', TRUE),
                 ('quick_reconstruct', FALSE)):
        rep.equal('default of %s' % f, I.read(st, p, f), v, w)
    p = I.instantiate(cls, [], {'program': const('lie')}, st, None)
    rejects(rep, 'an unknown program is rejected', I, st, lambda: I.call(p, [mk('mod', 'verif.eom'), NONE, I.new_array(
        st, vec('t', 2)), I.new_array(st, vec('y', 1)), I.new_array(st, EMPTY)], {}, st, None), w, 'NotImplementedError')
    note(rep, I)


def mkt(prog, N, ny, nq, nu, flat=False):
    I = interp(prog)
    st = State()
    cls = find_class(prog, TRAJ, 'Trajectory')
    t = vec('t', N)
    y, q, u = mat('y', N, ny), mat('q', N, nq), mat('u', N, nu)
    if flat:
        y, q, u = vec('y', N), vec('q', N), vec('u', N)
    T = I.instantiate(cls, [I.new_array(st, x) for x in (t, y, q, u)], {}, st, None)
    f = mk('mod', 'verif.interp')

    def interpf(I, st, a, k):
        x, v = [I.reify(st, I.V(st, z)) for z in a]
        key = mk('mod', 'verif.interpolant.%d' % mk('pair', x, v).id)

        def ev(I, st, a, k):
            s = I.reify(st, I.V(st, a[0]))
            g = lambda z: mk('call', 'interpolant', x, v, z)
            if s.op == 'seq':
                return I.new_array(st, seq(*[g(z) for z in s.args]))
            return g(s)
        I.intercepts[key.args[0]] = ev
        return key
    I.intercepts['verif.interp'] = interpf
    I.scalar_calls = ('interpolant',)
    I.call_method(T, 'set_interpolate_function', [f], {}, st, None)
    return I, st, T, t, (y, q, u)


def evaluate(prog, rep, nm, ny, nq, nu, k):
    I, st, T, t, cols = mkt(prog, 4, ny, nq, nu)
    w = where(prog, find_class(prog, TRAJ, 'Trajectory')) + '.__call__'
    if k is None:
        tau = sym('tau', 'real')
        r = I.call(T, [tau], {}, st, None)
    else:
        ta = vec('tau', k)
        r = I.call(T, [I.new_array(st, ta)], {}, st, None)
    note(rep, I)
    g = lambda X, j, z: mk('call', 'interpolant', t, seq(*[x.args[j] for x in X.args]), z)
    for i, (n, X, m) in enumerate(zip(('y', 'q', 'u'), cols, (ny, nq, nu))):
        got = I.reify(st, I.V(st, at(r, num(i))))
        if m == 0:
            rep.equal('%s: no %s' % (nm, n), slen(got), num(0), w)
        elif k is None:
            rep.equal('%s: each %s interpolates its own column' % (nm, n), got, seq(*[g(X, j, tau) for j in range(m)]), w)
        elif m == 1:
            # one column: a vector over the times
            rep.equal('%s: each %s interpolates its own column' % (nm, n), got, seq(*[g(X, 0, z) for z in ta.args]), w)
        else:
            rep.equal('%s: each %s interpolates its own column' % (nm, n), got,
                      seq(*[seq(*[g(X, j, z) for j in range(m)]) for z in ta.args]), w)


def flat(prog, rep):
    I, st, T, t, cols = mkt(prog, 4, 1, 1, 1, flat=True)
    w = where(prog, find_class(prog, TRAJ, 'Trajectory')) + '.__call__'
    tau = sym('tau', 'real')
    r = I.call(T, [tau], {}, st, None)
    for i, n in enumerate(('y', 'q', 'u')):
        rep.equal('vector valued %s' % n, I.reify(st, I.V(st, at(r, num(i)))),
                  seq(mk('call', 'interpolant', t, cols[i], tau)), w)
    note(rep, I)


def index(prog, rep):
    for N, ny, nq, nu in ((3, 2, 1, 1), (3, 1, 0, 2), (4, 2, 2, 0), (1, 2, 1, 1), (1, 1, 1, 2), (2, 1, 1, 1)):
        for i in (0, 1, -1) if N > 1 else (0, -1):
            I, st, T, t, (y, q, u) = mkt(prog, N, ny, nq, nu)
            w = where(prog, find_class(prog, TRAJ, 'Trajectory')) + '.__getitem__'
            r = I.call_method(T, '__getitem__', [num(i)], {}, st, None)
            for j, (n, X) in enumerate((('t', t), ('y', y), ('q', q), ('u', u))):
                rep.equal('%d+%d+%d columns: %s of node %d' % (ny, nq, nu, n, i), I.reify(st, I.V(st, at(r, num(j)))),
                          X.args[i] if X.args else EMPTY, w)
        rep.equal('number of nodes', I.call_method(T, '__len__', [], {}, st, None), num(N), w)
        note(rep, I)


def construct(prog, rep):
    cls = find_class(prog, TRAJ, 'Trajectory')
    w = where(prog, cls)
    for n in range(5):
        I = interp(prog)
        st = State()
        v = [vec(x, 2) for x in ('t', 'y', 'q', 'u')]
        T = I.instantiate(cls, [I.new_array(st, x) for x in v[:n]], {}, st, None)
        for i, f in enumerate(('t', 'y', 'q', 'u')):
            rep.equal('%d arguments: %s' % (n, f), tf(I, st, T, f), v[i] if i < n else EMPTY, w)
        for f in TFIELDS:
            if f not in ('t', 'y', 'q', 'u'):
                rep.equal('%d arguments: %s is empty' % (n, f), tf(I, st, T, f), EMPTY, w)
        rep.equal('%d arguments: not converged' % n, I.read(st, T, 'converged'), FALSE, w)
        rep.equal('%d arguments: number of nodes' % n, I.call_method(T, '__len__', [], {}, st, None), num(2 if n else 0), w)
        if n:
            r = I.call_method(T, '__getitem__', [num(1)], {}, st, None)
            rep.equal('%d arguments: a node' % n, seq(*[R(I, st, at(r, num(j))) for j in range(4)]),
                      seq(*[v[j].args[1] if j < n else EMPTY for j in range(4)]), w)
        else:
            r = I.call(T, [sym('tau', 'real')], {}, st, None)
            rep.equal('nothing to evaluate in an empty trajectory', seq(*[R(I, st, at(r, num(j))) for j in range(3)]),
                      seq(EMPTY, EMPTY, EMPTY), w)
    # two new trajectories share nothing
    I = interp(prog)
    st = State()
    A, B = I.instantiate(cls, [], {}, st, None), I.instantiate(cls, [], {}, st, None)
    st.heap[(A, 't')] = I.new_array(st, vec('a', 2))
    rep.equal('new trajectories are independent', tf(I, st, B, 't'), EMPTY, w)
    # string names the library interpolation
    I, st, T, t, cols = mkt(prog, 3, 1, 0, 0)
    I.intercepts['scipy.interpolate.interp1d'] = lambda I, st, a, k: tup(
        mk('call', 'interp1d', I.reify(st, I.V(st, a[0])), I.reify(st, I.V(st, a[1])),
           k.get('kind') if k.get('kind') is not None else (a[2] if len(a) > 2 else const('linear'))))
    I.call_method(T, 'set_interpolate_function', [const('Cubic')], {}, st, None)
    T2 = I.instantiate(cls, [], {'interpolation_type': const('Cubic')}, st, None)
    T3 = I.instantiate(cls, [I.new_array(st, t)], {}, st, None)
    for nm, T, want in (('by name', T, 'cubic'), ('named at construction', T2, 'cubic'), ('by default', T3, 'linear')):
        r = I.call(I.read(st, T, 'interpolate'), [I.new_array(st, vec('a', 3)), I.new_array(st, vec('b', 3))], {}, st, None)
        rep.equal('interpolation %s' % nm, at(r, num(0)), mk('call', 'interp1d', vec('a', 3), vec('b', 3), const(want)), w)
    note(rep, I)


def fresh(prog, rep):
    """evaluation uses the data the trajectory holds at the time of the call"""
    cls = find_class(prog, TRAJ, 'Trajectory')
    w = where(prog, cls) + '.__call__'
    for ny, nq, nu in ((1, 1, 1), (2, 2, 2), (2, 0, 1), (3, 1, 0)):
        I, st, T, t, cols = mkt(prog, 3, ny, nq, nu)
        tau = sym('tau', 'real')
        I.call(T, [tau], {}, st, None)
        for again in ('columns', 'nodes'):
            new = [mat('new_%s_%s' % (again, n), 3, m) for n, m in zip('yqu', (ny, nq, nu))]
            for f, X in zip('yqu', new):
                st.heap[(T, f)] = I.new_array(st, X)
            if again == 'nodes':
                t = vec('new_t', 3)
                st.heap[(T, 't')] = I.new_array(st, t)
            r = I.call(T, [tau], {}, st, None)
            for i, (n, X, m) in enumerate(zip('yqu', new, (ny, nq, nu))):
                if m:
                    rep.equal('%d+%d+%d columns: %s after new %s were stored' % (ny, nq, nu, n, again),
                              R(I, st, at(r, num(i))), seq(*[mk('call', 'interpolant', t, seq(
                                  *[x.args[j] for x in X.args]), tau) for j in range(m)]), w)
        note(rep, I)


def R(I, st, x):
    return I.reify(st, I.V(st, x))


def recon(prog, rep):
    """the stand-alone reconstruction does not modify the trajectory it is given"""
    I = interp(prog)
    st = State()
    R = lambda st, x: I.reify(st, I.V(st, x))
    for n in ('simpson', 'simps'):
        I.intercepts['scipy.integrate.' + n] = integral
    I.intercepts['verif.quad'] = lambda I, st, a, k: I.new_array(st, rates('quad', 2, R(st, a[0]), [R(st, x) for x in a[1:]]))
    I.intercepts['Trajectory.__call__'] = lambda I, st, a, k: tup(*[
        I.new_array(st, at_time(tf(I, st, a[0], 't'), tf(I, st, a[0], f), R(st, a[1]))) for f in ('y', 'q', 'u')])
    g = dict(t=vec('t', 3), y=mat('y', 3, 2))
    T = mktraj(I, st, 'gamma', g)
    f = I.module_name(IV, 'reconstruct', st)
    if f is None:
        raise Broken('reconstruct not found')
    q0 = vec('q0_', 2)
    r = I.call(f, [mk('mod', 'verif.quad'), T, I.new_array(st, q0), I.new_array(st, vec('p', 1))], {}, st, None)
    note(rep, I)
    w = 'beluga/numeric/ivp_solvers/ivpsol.py:reconstruct'
    rep.equal('reconstruction leaves the given trajectory alone', tf(I, st, T, 'q'), EMPTY, w)
    rep.equal('reconstruction keeps the states', tf(I, st, r, 'y'), g['y'], w)
    rep.equal('reconstruction keeps the times', tf(I, st, r, 't'), g['t'], w)
    dq = [rates('quad', 2, g['y'].args[i], (vec('p', 1),)) for i in range(3)]
    want = seq(*[seq(*[add(q0.args[j], integ(seq(*[dq[m].args[j] for m in range(i + 1)]), seq(*g['t'].args[:i + 1])))
                       for j in range(2)]) for i in range(3)])
    rep.equal('reconstruction integrates each quadrature from its initial value', tf(I, st, r, 'q'), want, w)


def interval(prog, rep, a, b, nq, bad=False):
    """quadratures over a part [a, b] of a trajectory with nodes 0, 2, 4, 6"""
    from fractions import Fraction
    I = interp(prog)
    st = State()
    R = lambda st, x: I.reify(st, I.V(st, x))
    for n in ('simpson', 'simps'):
        I.intercepts['scipy.integrate.' + n] = integral
    nodes = [0, 2, 4, 6]

    def itp(I, st, a, k):
        x = R(st, a[0]).args[0]
        xs, ys = R(st, a[1]).args, R(st, a[2]).args
        for i in range(len(xs) - 1):
            u, v = xs[i].args[0], xs[i + 1].args[0]
            if u <= x <= v:
                f = Fraction(x - u) / Fraction(v - u)
                return num(ys[i].args[0] + f * (ys[i + 1].args[0] - ys[i].args[0]))
        return num(0)
    I.intercepts['numpy.interp'] = itp
    I.intercepts['verif.quad'] = lambda I, st, a, k: I.new_array(st, seq(*[
        mk('call', 'quad', num(i), *[R(st, x) for x in a]) for i in range(2)]))
    I.intercepts['Trajectory.__call__'] = lambda I, st, a, k: tup(*[
        I.new_array(st, at_time(tf(I, st, a[0], 't'), tf(I, st, a[0], f), R(st, a[1]))) for f in ('y', 'q', 'u')])
    g = dict(t=seq(*[num(i) for i in nodes]), y=mat('y', 4, 2), q=mat('q', 4, nq))
    T = mktraj(I, st, 'gamma', g)
    f = I.module_name(IV, 'integrate_quads', st)
    if f is None:
        raise Broken('integrate_quads not found')
    w = 'beluga/numeric/ivp_solvers/ivpsol.py:integrate_quads'
    nm = 'quadratures over [%d, %d], %d carried' % (a, b, nq)
    go = lambda: I.call(f, [mk('mod', 'verif.quad'), I.new_array(st, seq(num(a), num(b))), T,
                            I.new_array(st, vec('p', 1))], {}, st, None)
    if bad:
        rejects(rep, nm + ': outside of the trajectory is rejected', I, st, go, w)
        return
    r = R(st, go())
    note(rep, I)
    mesh = [num(x) for x in [a] + [n for n in nodes if a < n < b] + [b]]
    rate = [[mk('call', 'quad', num(j), t, at_time(g['t'], g['y'], t), vec('p', 1)) for j in range(2)] for t in mesh]
    q0 = at_time(g['t'], g['q'], mesh[0]).args if nq else (num(0), num(0))
    want = seq(*[add(q0[j], integ(seq(*[x[j] for x in rate]), seq(*mesh))) for j in range(2)])
    rep.equal(nm + ': value at the start plus the integral over the interval', r, want, w)
