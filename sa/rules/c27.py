"""C27: collocation: the problem handed to the library and the solution read back use the same layout."""
from .c16 import *

SB = 'beluga.numeric.bvp_solvers.SPBVP'
EXPLANATION = ('The collocation solver is run abstractly with an uninterpreted library routine; the functions handed to '
               'it are applied to symbolic meshes and end values and compared, entry by entry, with the compiled '
               'functions of the problem, and every field of the returned solution with the result of the routine.')
CASES27 = [(1, 0, 0, 0), (2, 0, 1, 2), (3, 0, 2, 1), (2, 1, 1, 1), (1, 2, 2, 0), (2, 2, 0, 2), (3, 0, 0, 2)]


def run(prog, rep):
    rep.own |= OWN
    rep.assumptions += ['the library routine solves the problem it is given', 'it reports success as status 0']
    for d in CASES27:
        for jac in (False, True):
            if jac and d[1]:
                continue        # analytic Jacobians with quadratures are not supported by this solver
            nm = '%d states, %d quadratures, %d+%d parameters%s' % (d + (', Jacobians' if jac else '',))
            scenario(rep, nm, lambda: one27(prog, rep, nm, d, jac))


def fvals(tag, n, a):
    return seq(*[mk('call', tag, num(i), *a) for i in range(n)])


def one27(prog, rep, nm, dims, jac, only_flags=False):
    ny, nq, nd, nn = dims
    I = interp(prog)
    st = State()
    N, M = 3, 4
    g = dict(t=vec('t', N), y=mat('y', N, ny), q=mat('q', N, nq), u=mat('u', N, 1), dynamical_parameters=vec('p', nd),
             nondynamical_parameters=vec('m', nn), const=vec('k', 2))
    G = mktraj(I, st, 'guess', g)
    cls = find_class(prog, SB, 'SPBVP')
    w = where(prog, cls)
    mx = sym('maxnodes', 'nat')
    alg = I.instantiate(cls, [], {'max_nodes': mx}, st, None)
    V = {x: mk('mod', 'verif.' + x) for x in ('deriv', 'quad', 'bc', 'dj', 'bj')}
    R = lambda st, x: I.reify(st, I.V(st, x))
    nb = ny + nq + nd + nn

    def native(tag, n):
        return lambda I, st, a, k: I.new_array(st, fvals(tag, n, [R(st, x) for x in a]))
    I.intercepts['verif.deriv'] = native('deriv', ny)
    I.intercepts['verif.quad'] = native('quad', nq)
    I.intercepts['verif.bc'] = native('bc', nb)

    def dj(I, st, a, k):
        a = [R(st, x) for x in a]
        return tup(I.new_array(st, fmat('djy', ny, ny, a)), I.new_array(st, fmat('djp', ny, nd, a)))

    def bj(I, st, a, k):
        a = [R(st, x) for x in a]
        return tup(*[I.new_array(st, fmat(x, nb, n, a)) for x, n in (('bja', ny), ('bjb', ny), ('bjp', nd + nn))])
    I.intercepts['verif.dj'], I.intercepts['verif.bj'] = dj, bj
    I.call_method(alg, 'set_derivative_function', [V['deriv']], {}, st, None)
    I.call_method(alg, 'set_quadrature_function', [V['quad'] if nq else NONE], {}, st, None)
    I.call_method(alg, 'set_boundarycondition_function', [V['bc']], {}, st, None)
    if jac:
        I.call_method(alg, 'set_derivative_jacobian', [V['dj']], {}, st, None)
        I.call_method(alg, 'set_boundarycondition_jacobian', [V['bj']], {}, st, None)
    rec = {}
    P = vec('P', nd + nn)
    OX, OY = vec('ox', M), mat('oy', ny + nq, M)
    stat = sym('opt_status', 'nat')
    suc, msg, rms, nit = eq(stat, ZERO), sym('msg'), sym('rms'), sym('nit', 'nat')

    def solve_bvp(I, st, a, k):
        rec['x'], rec['y'] = R(st, a[2]), R(st, a[3])
        p = a[4] if len(a) > 4 else k.get('p', NONE)
        rec['p'] = R(st, p)
        rec['k'] = k
        T, Y = vec('T', M), mat('Y', ny + nq, M)
        A, B = vec('A', ny + nq), vec('B', ny + nq)
        rec.update(T=T, Y=Y, A=A, B=B)
        arr = lambda v: I.new_array(st, v)
        ps = [arr(P)] if nd + nn else []
        rec['fun'] = R(st, I.call(a[0], [arr(T), arr(Y)] + ps, {}, st, None))
        rec['bc'] = R(st, I.call(a[1], [arr(A), arr(B)] + ps, {}, st, None))
        for n, f, args in (('fj', k.get('fun_jac', NONE), (T, Y)), ('bj', k.get('bc_jac', NONE), (A, B))):
            if f is not NONE:
                rec[n] = R(st, I.call(f, [arr(x) for x in args] + ps, {}, st, None))
        o = dict_(I, st, {'x': arr(OX), 'y': arr(OY), 'p': arr(P) if nd + nn else NONE, 'success': suc, 'message': msg,
                            'rms_residuals': rms, 'niter': nit,
                            'status': stat})
        return o
    I.intercepts['scipy.integrate.solve_bvp'] = solve_bvp
    r = I.call_method(alg, 'solve', [G], {}, st, None)
    note(rep, I)
    if 'fun' not in rec:
        rep.undecided('%s: library call' % nm, 'solve_bvp was not reached')
        return
    if only_flags:
        sol = I.lib.dict_get(I, st, r, const('sol'))
        rep.equal('%s: flag of the solution' % nm, I.truth(I.read(st, sol, 'converged'), st), suc, w)
        rep.equal('%s: success of the result' % nm, I.truth(I.lib.dict_get(I, st, r, const('success')), st), suc, w)
        return
    K = g['const']
    p, m = seq(*P.args[:nd]), seq(*P.args[nd:])
    col = lambda Y, i: [r_.args[i] for r_ in Y.args]
    cols = []
    for i in range(M):
        yi = seq(*col(rec['Y'], i)[:ny])
        c = list(fvals('deriv', ny, [yi, p, K]).args)
        if nq:
            c += list(fvals('quad', nq, [yi, p, K]).args)
        cols.append(c)
    want = seq(*[seq(*[cols[i][j] for i in range(M)]) for j in range(ny + nq)])
    rep.equal('%s: rates at each mesh point' % nm, rec['fun'], want, w)
    A, B = rec['A'].args, rec['B'].args
    if nq:
        a = [seq(*A[:ny]), seq(*A[ny:]), seq(*B[:ny]), seq(*B[ny:]), p, m, K]
    else:
        a = [seq(*A), seq(*B), p, m, K]
    rep.equal('%s: boundary conditions' % nm, rec['bc'], fvals('bc', nb, a), w)
    if jac:
        dy = seq(*[seq(*[seq(*[mk('call', 'djy', num(i), num(j), seq(*col(rec['Y'], k_)), p, K) for k_ in range(M)])
                         for j in range(ny)]) for i in range(ny)])
        got = rec['fj']
        if nd + nn:
            rep.equal('%s: Jacobian of the rates in the states' % nm, got.args[0] if got.op == 'tup' else got, dy, w)
        else:
            rep.equal('%s: Jacobian of the rates in the states' % nm, got, dy, w)
        if nd + nn and got.op == 'tup':
            dp = seq(*[seq(*[seq(*[mk('call', 'djp', num(i), num(j), seq(*col(rec['Y'], k_)), p, K) if j < nd else ZERO
                                   for k_ in range(M)]) for j in range(nd + nn)]) for i in range(ny)])
            rep.equal('%s: Jacobian of the rates in the parameters' % nm, got.args[1], dp, w)
        a2 = [rec['A'], rec['B'], p, m, K]
        rep.equal('%s: Jacobian of the boundary conditions' % nm, rec['bj'],
                  tup(*[fmat(x, nb, n, a2) for x, n in (('bja', ny), ('bjb', ny), ('bjp', nd + nn))]), w)
    rep.equal('%s: starts on the mesh of the guess' % nm, rec['x'], g['t'], w)
    rep.equal('%s: starts from the states and quadratures of the guess' % nm, rec['y'],
              seq(*[seq(*[x.args[j] for x in g['y'].args]) for j in range(ny)] +
                  [seq(*[x.args[j] for x in g['q'].args]) for j in range(nq)]), w)
    rep.equal('%s: starts from the parameters of the guess' % nm, rec['p'],
              cat(g['dynamical_parameters'], g['nondynamical_parameters']), w)
    sol = I.lib.dict_get(I, st, r, const('sol'))
    rep.equal('%s: t' % nm, tf(I, st, sol, 't'), OX, w)
    rep.equal('%s: y' % nm, tf(I, st, sol, 'y'), seq(*[seq(*col(OY, i)[:ny]) for i in range(M)]), w)
    if nq:
        rep.equal('%s: q' % nm, tf(I, st, sol, 'q'), seq(*[seq(*col(OY, i)[ny:]) for i in range(M)]), w)
    else:
        q = tf(I, st, sol, 'q')
        if q is not EMPTY:
            rep.equal('%s: no quadratures' % nm, q, seq(*[EMPTY] * M), w)
    rep.equal('%s: parameters' % nm, tf(I, st, sol, 'dynamical_parameters'), p, w)
    rep.equal('%s: multipliers' % nm, tf(I, st, sol, 'nondynamical_parameters'), m, w)
    rep.equal('%s: constants' % nm, tf(I, st, sol, 'const'), K, w)
    rep.equal('%s: converged as the library says' % nm, I.truth(I.read(st, sol, 'converged'), st), suc, w)
    rep.equal('%s: success as the library says' % nm, I.truth(I.lib.dict_get(I, st, r, const('success')), st), suc, w)
    rep.equal('%s: the node limit is passed on' % nm, R(st, rec['k'].get('max_nodes', NONE)), mx, w)
    for f, v in g.items():
        rep.equal('%s: the guess keeps its %s' % (nm, f), tf(I, st, G, f), v, w)


def fmat(tag, n, m, a):
    return seq(*[seq(*[mk('call', tag, num(i), num(j), *a) for j in range(m)]) for i in range(n)])
