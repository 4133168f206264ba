"""C16: multiple shooting: unknowns, residual and stitched solution refer to the same arcs in the same order."""
from ..common import *

SH = 'beluga.numeric.bvp_solvers.Shooting'
IV = 'beluga.numeric.ivp_solvers.ivpsol'
EXPLANATION = ('The shooting solver is run abstractly for one, two and three arcs, with and without quadratures, '
               'parameters and multipliers, with symbolic values; the root finder, the propagator and the boundary '
               'conditions are uninterpreted. The vector of unknowns, the residual as a function of any vector of '
               'unknowns and the returned trajectory are compared with the specification.')


OWN = {'call:interpolate', 'call:prop_t', 'call:prop_y', 'call:prop_q', 'call:bc', 'call:bc2', 'call:dumps'}


def run(prog, rep):
    rep.own |= OWN
    rep.assumptions += ['a trajectory evaluated at one of its nodes returns the node values',
                        'the propagator returns a trajectory that starts at the given state',
                        'quadrature values are not NaN']
    for arcs, ny, nq, np_, nn in CASES:
        nm = '%d arc%s, %d states, %d quadratures, %d+%d parameters' % (arcs, 's' if arcs > 1 else '', ny, nq, np_, nn)
        scenario(rep, nm, lambda: one(prog, rep, nm, arcs, ny, nq, np_, nn))
    for d in ((1, 2, 0, 1, 1), (2, 1, 1, 1, 0), (3, 2, 0, 1, 1)):
        nm = 'solver used again for another problem, %d arcs, %d states, %d quadratures, %d+%d parameters' % d
        scenario(rep, nm, lambda: again(prog, rep, nm, *d))


CASES = [(1, 1, 0, 0, 0), (1, 3, 0, 2, 1), (1, 2, 2, 1, 2), (2, 2, 0, 1, 2), (3, 2, 0, 2, 1), (2, 2, 1, 1, 1),
         (3, 3, 2, 1, 2), (3, 1, 1, 0, 2), (3, 2, 0, 0, 0), (2, 1, 2, 2, 0), (4, 2, 1, 2, 3), (10, 1, 1, 1, 1)]


class S:
    pass


def vec(tag, n):
    return seq(*[sym('%s%d' % (tag, i), 'real') for i in range(n)])


def mat(tag, n, m):
    return seq(*[vec('%s%d_' % (tag, i), m) for i in range(n)]) if m else EMPTY


def mktraj(I, st, name, fields):
    cls = find_class(I.prog, TRAJ, 'Trajectory')
    T = I.input_obj(name, cls)
    for f in TFIELDS:
        st.heap[(T, f)] = I.new_array(st, fields.get(f, EMPTY))
    st.heap[(T, 'converged')] = FALSE
    return T


def at_time(T, Y, t):
    """value at t of the trajectory with nodes T and rows Y"""
    if not Y.args or not Y.args[0].args:
        return EMPTY
    for i, x in enumerate(T.args):
        if eq(x, t) is TRUE:
            return Y.args[i]
    return seq(*[mk('call', 'interpolate', T, seq(*[r.args[j] for r in Y.args]), t) for j in range(len(Y.args[0].args))])


def setup(prog, arcs, ny, nq, np_, nn, algorithm, N=3, nu=1, **kw):
    s = S()
    I = s.I = interp(prog)
    st = s.st = State()
    s.prog = prog
    s.quiet = False
    s.bcname = 'bc'
    s.ny, s.nq, s.np_, s.nn, s.nu, s.arcs = ny, nq, np_, nn, nu, arcs
    s.g = dict(t=vec('t', N), y=mat('y', N, ny), q=mat('q', N, nq), u=mat('u', N, nu), dynamical_parameters=vec('p', np_),
               nondynamical_parameters=vec('m', nn), const=vec('k', 2))
    s.sol = mktraj(I, st, 'guess', s.g)
    cls = find_class(prog, SH, 'Shooting')
    s.w = where(prog, cls)
    s.tol = sym('tol', 'real')
    a = dict(algorithm=const(algorithm), num_arcs=num(arcs), tolerance=s.tol)
    a.update(kw)
    s.deriv, s.quad, s.bc = [mk('mod', 'verif.' + x) for x in ('deriv', 'quad', 'bc')]
    s.alg = I.instantiate(cls, [], a, st, None)
    I.call_method(s.alg, 'set_derivative_function', [s.deriv], {}, st, None)
    I.call_method(s.alg, 'set_quadrature_function', [s.quad if nq else NONE], {}, st, None)
    I.call_method(s.alg, 'set_boundarycondition_function', [s.bc], {}, st, None)
    R = lambda st, x: I.reify(st, I.V(st, x))
    s.R = R
    I.intercepts['verif.bc'] = lambda I, st, a, k: I.new_array(st, bcval(s, [R(st, x) for x in a], 'bc'))

    def evalT(I, st, a, k):
        T = tf(I, st, a[0], 't')
        t = R(st, a[1])
        return tup(*[I.new_array(st, at_time(T, tf(I, st, a[0], f), t)) for f in ('y', 'q', 'u')])
    I.intercepts['Trajectory.__call__'] = evalT
    s.props = 0

    def prop(I, st, a, k):
        s.props += 1
        quad = a[2] if len(a) > 2 else NONE
        d = arc(s, a[1], quad, *[R(st, x) for x in a[3:]])
        return mktraj(I, st, 'arc%d' % s.props, d)
    I.intercepts['Propagator.__call__'] = prop
    I.intercepts['Propagator.__new__'] = lambda I, st, a, k: I.input_obj('prop', find_class(prog, IV, 'Propagator'))
    I.intercepts['numpy.isnan'] = lambda I, st, a, k: I.new_array(st, seq(FALSE, FALSE))
    for m in ('cloudpickle', 'pickle', 'dill'):
        I.intercepts[m + '.dumps'] = lambda I, st, a, k: mk('call', 'dumps', a[0])
        I.intercepts[m + '.loads'] = lambda I, st, a, k: a[0].args[1]
    return s


def bcval(s, a, name=None):
    return seq(*[mk('call', name or s.bcname, num(i), *a) for i in range(s.ny + s.nq + s.np_ + s.nn)])


def arc(s, deriv, quad, tspan, y0, q0, *args):
    """fields of the propagated arc: starts at the given values, two more nodes"""
    key = [deriv, quad, tspan, y0, q0] + list(args)
    c = lambda n, i, j=0: mk('call', n, num(i), num(j), *key)
    d = dict(t=seq(tspan.args[0], c('prop_t', 1), tspan.args[-1]),
             y=seq(y0, *[seq(*[c('prop_y', i, j) for j in range(len(y0.args))]) for i in (1, 2)]))
    d['q'] = seq(q0, *[seq(*[c('prop_q', i, j) for j in range(len(q0.args))]) for i in (1, 2)]) if q0.args else EMPTY
    return d


def unwrap(s, X):
    x = list(X.args)
    ys = [seq(*x[i * s.ny:(i + 1) * s.ny]) for i in range(s.arcs)]
    n = s.arcs * s.ny
    return ys, seq(*x[n:n + s.nq]), seq(*x[n + s.nq:n + s.nq + s.np_]), seq(*x[n + s.nq + s.np_:])


def grid(s):
    t0, tf_ = s.g['t'].args[0], s.g['t'].args[-1]
    n = s.arcs
    from fractions import Fraction
    return [add(t0, mul(num(Fraction(i, n)), sub(tf_, t0))) for i in range(n + 1)]


def arcs_of(s, X):
    """the arcs that belong to a vector of unknowns"""
    ys, q, p, m = unwrap(s, X)
    g = grid(s)
    quad = s.quad if s.nq else NONE
    out = [arc(s, s.deriv, quad, seq(g[i], g[i + 1]), ys[i], q, p, s.g['const']) for i in range(s.arcs)]
    if s.nq:
        for i in range(s.arcs - 1):
            d = [sub(a, b) for a, b in zip(out[i]['q'].args[-1].args, out[i + 1]['q'].args[0].args)]
            out[i + 1]['q'] = seq(*[seq(*[add(x, e) for x, e in zip(r.args, d)]) for r in out[i + 1]['q'].args])
    return out


def residual(s, X):
    ys, q, p, m = unwrap(s, X)
    A = arcs_of(s, X)
    out = []
    for i in range(s.arcs - 1):
        out += [sub(a, b) for a, b in zip(A[i]['y'].args[-1].args, A[i + 1]['y'].args[0].args)]
    y0, yf = A[0]['y'].args[0], A[-1]['y'].args[-1]
    if s.nq:
        a = [y0, A[0]['q'].args[0], yf, A[-1]['q'].args[-1], p, m, s.g['const']]
    else:
        a = [y0, yf, p, m, s.g['const']]
    return seq(*(out + list(bcval(s, a).args)))


def x0_of(s):
    g = grid(s)
    x = []
    for i in range(s.arcs):
        x += at_time(s.g['t'], s.g['y'], g[i]).args
    if s.nq:
        x += s.g['q'].args[0].args
    return seq(*(x + list(s.g['dynamical_parameters'].args) + list(s.g['nondynamical_parameters'].args)))


def stitched(s, X):
    A = arcs_of(s, X)
    return {f: seq(*[x for i, a in enumerate(A) for x in (a[f].args[1:] if i else a[f].args)]) for f in ('t', 'y', 'q')
            if f != 'q' or s.nq}


def hook_fsolve(s, rec):
    def fsolve(I, st, a, k):
        rec['fun'], rec['x0'] = a[0], s.R(st, a[1])
        rec['X'] = vec('X', len(rec['x0'].args))
        rec['kw'] = k
        if not s.quiet:
            Z = rec['Z'] = vec('Z', len(rec['x0'].args))
            rec['res'] = s.R(st, I.call(a[0], [I.new_array(st, Z)], {}, st, None))
            rec['res2'] = s.R(st, I.call(a[0], [I.new_array(st, Z)], {}, st, None))
        return I.new_array(st, rec['X'])
    s.I.intercepts['scipy.optimize.fsolve'] = fsolve
    s.I.intercepts['scipy.optimize._minpack_py.fsolve'] = fsolve


def one(prog, rep, nm, arcs, ny, nq, np_, nn):
    s = setup(prog, arcs, ny, nq, np_, nn, 'fsolve')
    I, st = s.I, s.st
    rec = {}
    hook_fsolve(s, rec)
    r = I.call_method(s.alg, 'solve', [s.sol], {}, st, None)
    note(rep, I)
    if 'x0' not in rec:
        rep.undecided('%s: root finder call' % nm, 'fsolve was not reached')
        return
    rep.equal('%s: unknowns are the arc states, quadratures, parameters and multipliers of the guess' % nm,
              rec['x0'], x0_of(s), s.w)
    got = rec['res']
    rep.equal_bag('%s: residual is the gaps between arcs and the boundary conditions' % nm, got, residual(s, rec['Z']), s.w)
    rep.equal('%s: the residual is a function of the unknowns only' % nm, rec['res2'], got, s.w)
    sol = I.lib.dict_get(I, st, r, const('sol'))
    for f, want in stitched(s, rec['X']).items():
        rep.equal('%s: %s of the solution is the arcs joined without repeated nodes' % (nm, f), tf(I, st, sol, f), want, s.w)
    ys, q, p, m = unwrap(s, rec['X'])
    rep.equal('%s: parameters of the solution are those of the root' % nm, tf(I, st, sol, 'dynamical_parameters'), p, s.w)
    rep.equal('%s: multipliers of the solution are those of the root' % nm, tf(I, st, sol, 'nondynamical_parameters'), m, s.w)
    rep.equal('%s: constants of the solution are those of the guess' % nm, tf(I, st, sol, 'const'), s.g['const'], s.w)
    for f, v in s.g.items():
        rep.equal('%s: the guess keeps its %s' % (nm, f), tf(I, st, s.sol, f), v, s.w)


def again(prog, rep, nm, arcs, ny, nq, np_, nn):
    """a solver that was used and then given other functions solves the problem of those functions"""
    for setters in (('bc',), ('deriv',), ('quad',), ('deriv', 'quad', 'bc')):
        if 'quad' in setters and not nq:
            continue
        s = setup(prog, arcs, ny, nq, np_, nn, 'fsolve')
        I, st = s.I, s.st
        rec = {}
        hook_fsolve(s, rec)
        I.call_method(s.alg, 'solve', [s.sol], {}, st, None)
        names = {'bc': 'set_boundarycondition_function', 'deriv': 'set_derivative_function', 'quad': 'set_quadrature_function'}
        for x in setters:
            new = mk('mod', 'verif.' + x + '2')
            if x != 'bc':
                setattr(s, x, new)
            else:
                s.bcname = 'bc2'
            I.call_method(s.alg, names[x], [new], {}, st, None)
        I.intercepts['verif.bc2'] = lambda I, st, a, k: I.new_array(st, bcval(s, [s.R(st, x) for x in a], 'bc2'))
        rec.clear()
        r = I.call_method(s.alg, 'solve', [s.sol], {}, st, None)
        note(rep, I)
        if 'x0' not in rec:
            rep.undecided('%s: root finder call' % nm, 'fsolve was not reached')
            return
        what = ' and '.join(setters)
        rep.equal_bag('%s: residual with the new %s' % (nm, what), rec['res'], residual(s, rec['Z']), s.w)
        sol = I.lib.dict_get(I, st, r, const('sol'))
        for f, want in stitched(s, rec['X']).items():
            rep.equal('%s: %s of the solution with the new %s' % (nm, f, what), tf(I, st, sol, f), want, s.w)
