"""C06: rescaling time multiplies every rate and the running cost by the duration, and nothing else."""
from .mapsc import *

EXPLANATION = ('The time-normalisation step is applied abstractly to a symbolic problem with any number of states, '
               'costates, coparameters and quadratures; every rate, cost term and component list it leaves is compared '
               'with the rescaled original.')


def run(prog, rep):
    for dualized in (True, False):
        nm = 'dual problem' if dualized else 'direct problem'
        scenario(rep, nm, lambda: one(prog, rep, nm, dualized))


def one(prog, rep, nm, dualized):
    s = base(prog, dualized=dualized)
    I, st, P = s.I, s.st, s.P
    if not dualized:
        empty(I, st, P, 'costates', 'coparameters', 'constraint_adjoints')
    snap(s)
    lists = ('states', 'costates', 'coparameters', 'quads')
    old = {k: (plist(I, st, P, k), field(I, st, plist(I, st, P, k), 'eom'), field(I, st, plist(I, st, P, k), 'sym'))
           for k in lists}
    cost = I.read(st, P, 'cost')
    L, Phi0, Phif = [I.read(st, cost, k) for k in ('path', 'initial', 'terminal')]
    cons = {k: field(I, st, clist(I, st, P, k), 'expr') for k in ('initial', 'path', 'terminal')}
    ham = I.read(st, I.read(st, P, 'hamiltonian'), 'expr')
    tname = s.tvn0
    apply(s, 'NormalizeTime')
    note(rep, I)
    w = s.where
    P1 = plist(I, st, P, 'parameters')
    psym = field(I, st, P1, 'sym')
    pold = field(I, st, s.P0, 'sym')
    rep.equal('%s: one parameter is added' % nm, slen(P1), add(slen(s.P0), ONE), w)
    dt = None
    if psym.op == 'cat' and len(psym.args) == 2:
        a, b = psym.args
        dt = b.args[0] if a is pold and b.op == 'seq' else a.args[0] if b is pold and a.op == 'seq' else None
    if psym.op == 'seq' and pold.op == 'seq':
        x = [p for p in psym.args if p not in pold.args]
        dt = x[0] if len(x) == 1 else None
    if dt is None:
        rep.undecided('%s: duration parameter' % nm, 'parameter list: %s' % show(psym)[:200], w)
        return
    for k in lists:
        e0 = old[k][1]
        rep.equal('%s: %s rates are multiplied by the duration once' % (nm, k),
                  field(I, st, plist(I, st, P, k), 'eom'), elems(I, st, e0, lambda e: mul(e, dt)), w)
        rep.equal('%s: %s are the same variables' % (nm, k), field(I, st, plist(I, st, P, k), 'sym'), old[k][2], w)
    cost = I.read(st, P, 'cost')
    rep.equal('%s: running cost is multiplied by the duration' % nm, I.read(st, cost, 'path'), mul(L, dt), w)
    rep.equal('%s: initial cost unchanged' % nm, I.read(st, cost, 'initial'), Phi0, w)
    rep.equal('%s: terminal cost unchanged' % nm, I.read(st, cost, 'terminal'), Phif, w)
    for k in cons:
        rep.equal('%s: %s constraints unchanged' % (nm, k), field(I, st, clist(I, st, P, k), 'expr'), cons[k], w)
    rep.equal('%s: Hamiltonian unchanged' % nm, I.read(st, I.read(st, P, 'hamiltonian'), 'expr'), ham, w)
    n1 = I.read(st, I.read(st, P, 'independent_variable'), 'name')
    dn = None
    for e in (P1.args if P1.op == 'cat' else (P1,)):
        for x in (e.args if e.op == 'seq' else ()):
            if I.read(st, x, 'sym') is dt:
                dn = I.read(st, x, 'name')
    if dn is not None:
        rep.holds('%s: the duration has a name of its own' % nm, not_(eq(dn, tname)), w)
        rep.holds('%s: the duration is not the new independent variable' % nm, not_(eq(dn, n1)), w)
    un = I.read(st, I.read(st, P, 'independent_variable'), 'units')
    rep.equal('%s: the new independent variable is dimensionless' % nm, un, ONE, w)
