"""C09: a solution is called converged only on the root finder's own success or a residual within tolerance."""
from .c16 import *
from ..lib import fn1

EXPLANATION = ('The solvers are run abstractly with each root finder; the convergence flag of the returned solution is '
               'compared, as a function of the residual at the returned unknowns and of the status reported by the '
               'library routine, with the specification.')
SIZES = ((1, 2, 0, 1, 1), (1, 1, 1, 1, 1), (2, 1, 0, 1, 1))
ROOT = ('hybr', 'lm', 'broyden1', 'df-sane', 'krylov')
MINI = ('Nelder-Mead', 'Powell', 'BFGS', 'L-BFGS-B', 'TNC')
CMINI = ('COBYLA', 'SLSQP', 'trust-constr')


def run(prog, rep):
    rep.own |= OWN
    rep.assumptions += ['the status reported by scipy is right', 'quadrature values are not NaN']
    for dims in SIZES:
        tag = '%d arcs, %d states, %d quadratures' % dims[:3]
        for alg in ('fsolve', 'FSOLVE'):
            nm = '%s, %s' % (alg, tag)
            scenario(rep, nm, lambda: fs(prog, rep, nm, dims, alg))
        for alg in ROOT + MINI + CMINI:
            nm = '%s, %s' % (alg, tag)
            scenario(rep, nm, lambda: opt(prog, rep, nm, dims, alg))
    for dims in ((1, 1, 0, 0, 0), (1, 2, 0, 0, 0), (1, 1, 1, 1, 0), (1, 1, 0, 1, 1)):
        nm = 'Armijo, %d states, %d quadratures, %d+%d parameters' % dims[1:]
        scenario(rep, nm, lambda: armijo(prog, rep, nm, dims, 0))
    from .c27 import CASES27, one27
    for d in CASES27:
        nm = 'collocation, %d states, %d quadratures, %d+%d parameters' % d
        scenario(rep, nm, lambda: one27(prog, rep, nm, d, False, only_flags=True))
    for alg in ('fsolv', 'newton', ''):
        scenario(rep, alg, lambda: unknown(prog, rep, alg))


def flags(rep, nm, s, r, want):
    I, st = s.I, s.st
    sol = I.lib.dict_get(I, st, r, const('sol'))
    got = I.truth(I.reify(st, I.V(st, I.read(st, sol, 'converged'))), st)
    rep.equal('%s: flag of the solution' % nm, got, want, s.w)
    suc = I.truth(I.reify(st, I.V(st, I.lib.dict_get(I, st, r, const('success')))), st)
    rep.equal('%s: success of the result is the flag of the solution' % nm, suc, got, s.w)
    return sol


def norm(s, v):
    return s.R(s.st, s.I.lib.call_lib(s.I, s.st, 'numpy.linalg.norm', [s.I.new_array(s.st, v)], {}, None))


def fs(prog, rep, nm, dims, alg):
    s = setup(prog, *dims, alg)
    s.quiet = True
    rec = {}
    hook_fsolve(s, rec)
    r = s.I.call_method(s.alg, 'solve', [s.sol], {}, s.st, None)
    note(rep, s.I)
    n = norm(s, residual(s, rec['X']))
    flags(rep, nm, s, r, le(mul(n, n), s.tol))
    rep.equal('%s: the root finder works to the tolerance asked for' % nm, s.R(s.st, rec['kw'].get('xtol', NONE)), s.tol, s.w)


def opt(prog, rep, nm, dims, alg):
    s = setup(prog, *dims, alg, max_iterations=sym('maxit', 'nat'))
    I, st = s.I, s.st
    rec = {}

    def solver(which):
        def f(I, st, a, k):
            rec['which'] = which
            rec['fun'], x0 = a[0], s.R(st, a[1])
            rec['k'] = k
            X = rec['X'] = vec('X', len(x0.args))
            rec['F'] = s.R(st, I.call(a[0], [I.new_array(st, X)], {}, st, None))
            if 'constraints' in k:
                c = k['constraints']
                rec['C'] = s.R(st, I.call(I.lib.dict_get(I, st, c, const('fun')), [I.new_array(st, X)], {}, st, None))
            o = I.input_obj('opt', find_class(prog, TRAJ, 'Trajectory'))
            for f_, v in (('x', I.new_array(st, X)), ('fun', rec['F'] if rec['F'].op != 'seq' else I.new_array(st, rec['F'])),
                          ('success', sym('opt_success', 'bool')), ('nit', sym('nit', 'nat'))):
                st.heap[(o, f_)] = v
            return o
        return f
    I.intercepts['scipy.optimize.root'] = solver('root')
    I.intercepts['scipy.optimize.minimize'] = solver('minimize')
    r = I.call_method(s.alg, 'solve', [s.sol], {}, st, None)
    note(rep, I)
    if 'X' not in rec:
        rep.undecided('%s: optimiser call' % nm, 'not reached')
        return
    res = residual(s, rec['X'])
    ok = I.truth(sym('opt_success', 'bool'), st)
    if alg in ROOT:
        rep.equal('%s: the roots sought are those of the residual' % nm, rec['F'], res, s.w)
        flags(rep, nm, s, r, ok)
    else:
        n = norm(s, res)
        if alg in MINI:
            rep.equal('%s: minimises the squared residual' % nm, rec['F'], mul(n, n), s.w)
            flags(rep, nm, s, r, and_(ok, le(mul(n, n), s.tol)))
        else:
            rep.equal('%s: the residual is the equality constraint' % nm, rec.get('C', NONE), res, s.w)
            flags(rep, nm, s, r, and_(ok, le(fn1('abs')(rec['F']), s.tol)))
    m = rec['k'].get('method')
    rep.equal('%s: the named method is used' % nm, m if m is not None else NONE, const(alg), s.w)


def armijo(prog, rep, nm, dims, it):
    nm = '%s, up to %d iterations' % (nm, it + 1)
    s = setup(prog, *dims, 'Armijo', max_iterations=num(it))
    I, st = s.I, s.st
    I.unroll_while = 12
    r = I.call_method(s.alg, 'solve', [s.sol], {}, st, None)
    note(rep, I)
    sol = I.lib.dict_get(I, st, r, const('sol'))
    X = cat(tf(I, st, sol, 'y').args[0], tf(I, st, sol, 'q').args[0] if s.nq else EMPTY,
            tf(I, st, sol, 'dynamical_parameters'), tf(I, st, sol, 'nondynamical_parameters'))
    flags(rep, nm, s, r, le(norm(s, residual(s, X)), s.tol))


def unknown(prog, rep, alg):
    s = setup(prog, 1, 1, 0, 0, 0, alg)
    rejects(rep, 'an unknown root finder (%r) is rejected' % alg, s.I, s.st,
            lambda: s.I.call_method(s.alg, 'solve', [s.sol], {}, s.st, None), s.w, 'NotImplementedError')
