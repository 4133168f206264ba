"""C15: the reported cost is the user's cost: initial plus terminal plus the integral of the running cost."""
from .c08 import *

EXPLANATION = ('Dualization is applied abstractly to a symbolic problem and the mapper it registers is run backwards on a '
               'symbolic trajectory; the cost it stores is compared with the cost functional of the problem before '
               'dualization evaluated on that trajectory.')


def run(prog, rep):
    rep.assumptions += ['the library quadrature integrates sampled values over the given nodes']
    for quads in (False, True, None):
        for method in ('traditional', 'diffyg'):
            nm = '%s, %s' % (method, 'quadratures' if quads else 'no quadratures' if quads is None
                             else 'quadrature rows without columns')
            scenario(rep, nm, lambda: cost(prog, rep, nm, quads, method))


def integral(I, st, a, k):
    y = I.reify(st, I.V(st, a[0] if a else k['y']))
    x = a[1] if len(a) > 1 else k.get('x')
    return mk('call', 'integral', y, I.reify(st, I.V(st, x)) if x is not None else NONE)


def cost(prog, rep, nm, quads, method):
    s = build(prog, bool(quads), 0)
    I, st, P = s.I, s.st, s.P
    empty(I, st, P, 'costates', 'coparameters', 'constraint_adjoints', 'symmetries')
    for n in ('scipy.integrate.simpson', 'scipy.integrate.simps', 'scipy.integrate.trapezoid', 'scipy.integrate.trapz',
              'numpy.trapz', 'numpy.trapezoid'):
        I.intercepts[n] = integral
    I.intercepts['make_standard_symplectic_form'] = lambda I, st, a, k: mk('opaque', 'form')
    I.intercepts['make_hamiltonian_vector_field'] = lambda I, st, a, k: mk('opaque', 'field')
    c = I.read(st, P, 'cost')
    C0, L, Cf = [I.read(st, c, x) for x in ('initial', 'path', 'terminal')]
    apply(s, 'Dualize', const(method))
    sol = traj(s, nondynamical_parameters=sym('nnu', 'nat'), **({'q': None} if quads is None else {}))
    y, q, u, t = [arr(sol, f) for f in ('y', 'q', 'u', 't')]
    p, k = arr(sol, 'dynamical_parameters'), arr(sol, 'const')
    w = where(prog, find_class(prog, TMAP, 'DualizeMapper'))
    r = I.call_method(s.mapper, 'inv_map', [sol], {}, st, None)
    note(rep, I)
    n = s.N
    first, last = ZERO, sub(n, ONE)
    if not quads:
        q0 = qf = None
    row = lambda m, i: at(m, i)
    ev = lambda e, i: EV(s, e, y=row(y, i), q=row(q, i) if quads else EMPTY, p=p, k=k)
    b = fresh_bv()
    path = tab(n, b, EV(s, L, y=at(y, b), u=at(u, b), p=p, k=k))
    want = add(add(ev(C0, first), ev(Cf, last)), mk('call', 'integral', path, t))
    got = I.reify(st, I.V(st, I.read(st, r, 'cost')))
    rep.equal('%s: cost of the returned trajectory' % nm, got, want, w, assume=(pos(n),))
