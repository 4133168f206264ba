"""C13: solving with a process pool gives what solving without one gives."""
from .c16 import *

EXPLANATION = ('The shooting solver is run abstractly with a process pool whose map returns the results of the mapped '
               'function in order (functions travel as pickles); the residual and the returned solution are compared '
               'with those of the same solve without a pool.')
SIZES = [(1, 2, 0, 1, 1), (2, 2, 0, 1, 1), (3, 1, 0, 2, 0), (2, 1, 1, 1, 1), (3, 2, 2, 0, 1), (4, 2, 1, 2, 2)]


def run(prog, rep):
    rep.own |= OWN
    rep.assumptions += ['the map of a pool returns the results in order', 'pickling does not change functions',
                        'quadrature values are not NaN']
    for d in SIZES:
        nm = '%d arcs, %d states, %d quadratures, %d+%d parameters' % d
        scenario(rep, nm, lambda: one(prog, rep, nm, d))


def pool_map(I, st, a, k):
    """results in order; what the function does to objects of the caller stays in the worker"""
    before = dict(st.heap)
    refs = {k[0] for k in before}
    r = I.lib.map_fn(I, st, a[0], a[1], None)
    for k in list(st.heap):
        if k in before:
            st.heap[k] = before[k]
        elif k[0] in refs:
            del st.heap[k]
    return r


def pool_any(I, st, a, k):
    """results as they come: here the last one first"""
    r = I.V(st, pool_map(I, st, a, k))
    if r.op != 'seq':
        return mk('opaque', 'order of results')
    return I.new_list(st, seq(*reversed(r.args)))


def one(prog, rep, nm, d):
    out = []
    for pool in (False, True):
        s = setup(prog, *d, 'fsolve')
        rec = {}
        hook_fsolve(s, rec)
        kw = {'pool': mk('mod', 'verif.pool')} if pool else {}
        for m in ('map', 'imap'):
            s.I.intercepts['verif.pool.' + m] = pool_map
        for m in ('imap_unordered', 'uimap'):
            s.I.intercepts['verif.pool.' + m] = pool_any
        r = s.I.call_method(s.alg, 'solve', [s.sol], kw, s.st, None)
        note(rep, s.I)
        sol = s.I.lib.dict_get(s.I, s.st, r, const('sol'))
        out.append((s, rec, sol))
    (s, a, sa), (p, b, sb) = out
    if 'x0' not in a or 'x0' not in b:
        rep.undecided('%s: root finder call' % nm, 'fsolve was not reached')
        return
    rep.equal('%s: same unknowns' % nm, b['x0'], a['x0'], s.w)
    rep.equal('%s: same residual' % nm, b['res'], a['res'], s.w)
    for f in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        rep.equal('%s: same %s' % (nm, f), tf(p.I, p.st, sb, f), tf(s.I, s.st, sa, f), s.w)
    rep.equal('%s: same convergence flag' % nm, p.I.read(p.st, sb, 'converged'), s.I.read(s.st, sa, 'converged'), s.w)
