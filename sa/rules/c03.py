"""C03: the dual problem satisfies the first-order necessary conditions."""
from ..common import *

EXPLANATION = ('Value-graph comparison of the dual problem built by the dualization step (both formulations) and of the '
               'control laws against the first-order necessary conditions, for a symbolic problem with any number of '
               'states, parameters, controls and constraints.')


def dsum(s, f):
    b = fresh_bv()
    return sum_(slen(s), b, f(at(s, b)))


def run(prog, rep):
    w = where(prog, find_class(prog, MF, 'Dualize'))
    rep.assumptions += ['no costates, coparameters or adjoints exist before dualization',
                        'formal derivative rules (linearity, product rule) of the symbolic library']
    for method in ('traditional', 'diffyg'):
        scenario(rep, 'dualize %s' % method, lambda: dualize(prog, rep, method, w))
        scenario(rep, 'unknowns of %s' % method, lambda: unknowns(prog, rep, method, w))


def setup(prog, method):
    I = interp(prog)
    st = State()
    P = problem(I, st)
    empty(I, st, P, 'costates', 'coparameters', 'constraint_adjoints')
    if method == 'diffyg':
        # summaries decided separately by C26
        empty(I, st, P, 'symmetries')
        lib = I.lib

        def omega(I, st, a, k):
            return mk('call', 'standard_form', I.reify(st, a[0]), I.reify(st, a[1]))

        def chi(I, st, a, k):
            h, om, basis = a[0], a[1], I.V(st, a[2])
            if om.op != 'call' or om.args[0] != 'standard_form':
                return mk('opaque', 'vector field of a non-standard form')
            q, p = om.args[1], om.args[2]
            n = slen(q)
            dq = elems(I, st, nseq_(q), lambda s: lib.diff_(I, h, s))
            dp = elems(I, st, nseq_(p), lambda s: neg(lib.diff_(I, h, s)))
            if cat(q, p) is not basis:
                return mk('opaque', 'vector field over another basis')
            qq = elems(I, st, nseq_(p), lambda s: lib.diff_(I, h, s))
            return I.new_list(st, cat(qq, elems(I, st, nseq_(q), lambda s: neg(lib.diff_(I, h, s)))))
        I.intercepts['make_standard_symplectic_form'] = omega
        I.intercepts['make_hamiltonian_vector_field'] = chi
    return I, st, P


def unknowns(prog, rep, method, w):
    """a problem with two of everything under definite names"""
    was = CONC[0]
    CONC[0] = lambda i: 2
    try:
        I, st, P = setup(prog, method)
        transform(I, st, functor(I, st, 'Dualize', const(method)), P)
    finally:
        CONC[0] = was
    note(rep, I)
    for at_, what in (('name', 'names'), ('sym', 'symbols')):
        seen = []
        for nm in ('states', 'parameters', 'costates', 'coparameters', 'constraint_adjoints', 'controls', 'constants'):
            l = plist(I, st, P, nm)
            n = slen(l)
            if n.op != 'num':
                seen = None
                break
            seen += [(I.read(st, at(l, num(i)), at_), '%s %d' % (nm, i)) for i in range(int(n.args[0]))]
        t = '%s, two of everything: %s of the variables are pairwise different' % (method, what)
        if seen is None:
            rep.holds(t, mk('opaque', 'unknown number of variables'), w)
            continue
        bad = [and_(eq(a, b), TRUE) for i, (a, _) in enumerate(seen) for b, _ in seen[:i]]
        rep.holds(t, not_(or_(*bad)), w)


def nseq_(t):
    return seq(*t.args) if t.op == 'tup' else t


def dualize(prog, rep, method, w):
    I, st, P = setup(prog, method)
    S0 = plist(I, st, P, 'states')
    Pm = plist(I, st, P, 'parameters')
    cost = I.read(st, P, 'cost')
    L, Phi0, Phif = [I.read(st, cost, k) for k in ('path', 'initial', 'terminal')]
    c0, cf = clist(I, st, P, 'initial'), clist(I, st, P, 'terminal')
    f = field(I, st, S0, 'eom')
    x = field(I, st, S0, 'sym')
    pm = field(I, st, Pm, 'sym')
    g0, gf = field(I, st, c0, 'expr'), field(I, st, cf, 'expr')
    tvar = I.read(st, I.read(st, P, 'independent_variable'), 'sym')
    fn = functor(I, st, 'Dualize', const(method))
    R = transform(I, st, fn, P)
    note(rep, I)
    m = method + ': '
    rep.equal(m + 'returns the transformed problem', R, P, w)
    lam = field(I, st, plist(I, st, P, 'costates'), 'sym')
    mu = field(I, st, plist(I, st, P, 'coparameters'), 'sym')
    adj = plist(I, st, P, 'constraint_adjoints')
    nu = field(I, st, adj, 'sym')
    rep.equal(m + 'one costate per state', slen(lam), slen(S0), w)
    rep.equal(m + 'one coparameter per parameter', slen(mu), slen(Pm), w)
    rep.equal(m + 'one adjoint per boundary constraint', slen(nu), add(slen(c0), slen(cf)), w)
    rep.equal_bag(m + 'states keep their dynamics', field(I, st, plist(I, st, P, 'states'), 'eom'), f, w)
    # H = L + sum lambda_i f_i
    b = fresh_bv()
    H = add(L, sum_(slen(S0), b, mul(at(lam, b), at(f, b))))
    Hc = I.read(st, I.read(st, P, 'hamiltonian'), 'expr')
    rep.equal(m + 'Hamiltonian is path cost plus costates times dynamics', Hc, H, w)
    D = lambda e, s: I.lib.diff_(I, e, s)
    eoms = field(I, st, plist(I, st, P, 'costates'), 'eom')
    rep.equal(m + 'costate rates are minus dH/dx', eoms, elems(I, st, x, lambda s: neg(D(H, s))), w)
    peom = field(I, st, plist(I, st, P, 'coparameters'), 'eom')
    rep.equal(m + 'coparameter rates are minus dH/dp', peom, elems(I, st, pm, lambda s: neg(D(H, s))), w)
    # adjoined boundary costs
    k = fresh_bv()
    A0 = add(Phi0, sum_(slen(c0), k, mul(at(nu, k), at(g0, k))))
    k = fresh_bv()
    Af = add(Phif, sum_(slen(cf), k, mul(at(nu, add(slen(c0), k)), at(gf, k))))
    cost2 = I.read(st, P, 'cost')
    a0, af = I.read(st, cost2, 'initial'), I.read(st, cost2, 'terminal')
    r1 = rep.equal(m + 'initial boundary cost adjoins every initial constraint', a0, A0, w)
    r2 = rep.equal(m + 'terminal boundary cost adjoins every terminal constraint', af, Af, w)
    if r1 != 'proved':
        A0 = a0
    if r2 != 'proved':
        Af = af
    xs, ls = cat(x, pm), cat(lam, mu)
    want0 = cat(g0, elems(I, st, lzip(x, lam), lambda e: add(at(e, ONE), D(A0, at(e, ZERO)))),
                elems(I, st, lzip(pm, mu), lambda e: add(at(e, ONE), D(A0, at(e, ZERO)))))
    wantf = cat(gf, elems(I, st, lzip(x, lam), lambda e: sub(at(e, ONE), D(Af, at(e, ZERO)))),
                elems(I, st, lzip(pm, mu), lambda e: sub(at(e, ONE), D(Af, at(e, ZERO)))),
                seq(add(D(Af, tvar), H)))
    rep.equal_bag(m + 'initial conditions: constraints and costate + dPhi0/dx = 0',
                  field(I, st, clist(I, st, P, 'initial'), 'expr'), want0, w)
    rep.equal_bag(m + 'terminal conditions: constraints, costate - dPhif/dx = 0 and terminal Hamiltonian',
                  field(I, st, clist(I, st, P, 'terminal'), 'expr'), wantf, w)
    # multipliers are independent unknowns
    i, j = fresh_bv(), fresh_bv()
    rep.holds(m + 'adjoint multipliers are pairwise distinct symbols',
              not_(any_(slen(nu), i, any_(slen(nu), j, and_(not_(eq(i, j)), eq(at(nu, i), at(nu, j)))))), w)
    ref = field(I, st, plist(I, st, P, 'sol_map_chain'), '__none__') if False else None


def lzip(a, b):
    if a.op == 'cat' or b.op == 'cat':
        from .. import lib
        return lib.zip_(None, None, [a, b])
    k = fresh_bv()
    return tab(slen(a), k, tup(at(a, k), at(b, k)))
