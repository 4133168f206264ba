"""C08: the compiled functions evaluate the symbolic expressions with every value bound to its own symbol."""
from .mapsc import *

EXPLANATION = ('The numeric problem is compiled abstractly from a symbolic problem of any size (with and without '
               'quadratures, with none, one or several control options, with analytic Jacobians); every compiled '
               'function is applied to symbolic arguments and its value graph is compared with the symbolic '
               'expression evaluated under the role-to-symbol binding of the solver interface.')


def run(prog, rep):
    rep.assumptions += ['sympy.lambdify evaluates the expression under the given positional binding',
                        'just-in-time compilation does not change values']
    for quads in (False, True):
        for law in (0, 1, 2, 3):
            nm = '%s, %s' % ('quadratures' if quads else 'no quadratures',
                             ('no control law', 'one control option', 'two control options', 'three control options')[law])
            scenario(rep, nm, lambda: one(prog, rep, nm, quads, law))
    scenario(rep, 'signatures', lambda: signatures(prog, rep))
    scenario(rep, 'controls as arguments', lambda: one(prog, rep, 'controls as arguments', False, 0, True))


class B:
    pass


JIT = 'beluga.numeric.compilation.jit'


def signatures(prog, rep):
    """a compiled function accepts vectors for the arguments that are vectors (of any length) and numbers for the others"""
    I = interp(prog)
    st = State()
    got = []

    def njit(I, st, a, k):
        got.append(a[0] if a else NONE)
        return mk('mod', 'numba.decorator')
    I.intercepts['numba.njit'] = njit
    F = I.module_name(JIT, 'jit_compile_func', st)
    G = I.module_name(JIT, 'jit_compile_func_num_args', st)
    w = 'beluga/numeric/compilation/jit.py:jit_compile_func'
    if F is None:
        raise Broken('jit_compile_func not found')
    f = mk('mod', 'verif.compiled')
    x = lambda i: mk('symbol', const('x%d' % i))
    lst = lambda n: I.new_list(st, seq(*[x(i) for i in range(n)]))

    def sig(fun, *a, **k):
        del got[:]
        r = I.call(fun, [f] + list(a), k, st, None)
        if not got:
            return None, r
        s_ = I.reify(st, I.V(st, got[-1]))
        return (list(s_.args) if s_.op in ('tup', 'seq') else None), r
    for cx in (False, True):
        kw = {'complex_numbers': TRUE} if cx else {}
        S, _ = sig(F, I.new_list(st, seq(x(0))), **kw)
        A, _ = sig(F, I.new_list(st, seq(lst(2))), **kw)
        if not S or not A or len(S) != 1 or len(A) != 1:
            rep.undecided('signature of a compiled function', 'no signature is handed to the compiler')
            return
        S, A = S[0], A[0]
        nm = 'signature%s: ' % (' for complex numbers' if cx else '')
        rep.check(nm + 'numbers and vectors differ', S is not A, 'both are %s' % show(S), w)
        base_ = const('complex128' if cx else 'float64')
        for t, what in ((S, 'number'), (A, 'vector')):
            rep.check(nm + 'kind of %s' % what, any(y.op == 'mod' and y.args[0] == 'numba.' + base_.args[0] for y in subterms(t)),
                      'is %s' % show(t), w)
        names_ = {S: const('number'), A: const('vector')}
        call_it = lambda ts: seq(*[names_.get(y, y) for y in ts])
        for pat in ('v', 's', 'e', 'vs', 'sv', 'es', 'se', 'vev', 'eve', 'sev', 'vesvo', 'o', 'tT', 'Tt'):
            mk_ = {'v': lambda: lst(3), 's': lambda: x(0), 'e': lambda: lst(0), 'o': lambda: lst(1),
                   't': lambda: const('scalar'), 'T': lambda: const('array')}
            r, back = sig(F, I.new_list(st, seq(*[mk_[c]() for c in pat])), **kw)
            rep.equal(nm + 'arguments %s' % pat, call_it(r or []), call_it([S if c in 'st' else A for c in pat]), w)
            rep.equal(nm + 'arguments %s: the function is compiled' % pat, back, f, w)
        if G is not None:
            for n in (0, 1, 2, 3, 5):
                for arrs in (None, TRUE, FALSE):
                    k2 = dict(kw)
                    if arrs is not None:
                        k2['array_inputs'] = arrs
                    r, back = sig(G, num(n), **k2)
                    rep.equal(nm + '%d arguments, vectors %s' % (n, 'by default' if arrs is None else show(arrs)),
                              call_it(r or []), call_it([S if arrs is FALSE else A] * n), w + '_num_args')
    note(rep, I)


def build(prog, quads, law):
    s = base(prog)
    I, st, P = s.I, s.st, s.P
    if not quads:
        empty(I, st, P, 'quads')
    else:
        # at least one quadrature
        q = mk('cont', I.read(st, P, 'quads'))
        extra = I.input_obj('quad0', find_class(prog, CS, 'DynamicStruct'))
        st.heap[(I.read(st, P, 'quads'), '$')] = cat(seq(extra), q)
    snap(s)
    nu = slen(s.U0)
    opts = []
    for j in range(law):
        nm = 'law%d' % j
        k = fresh_bv()
        opts.append(tab(nu, k, mk('at', sym(nm), k)))
    s.opts = opts
    st.heap[(I.read(st, P, 'control_law'), '$')] = seq(*opts)
    s.syms = {k: field(I, st, plist(I, st, P, k), 'sym') for k in
              ('states', 'controls', 'parameters', 'constants', 'quads', 'constraint_parameters')}
    return s


def jac(s, on):
    I, st, P = s.I, s.st, s.P
    names = [('func_jac', None, 'df_dy'), ('func_jac', None, 'df_dp')] + \
        [('bc_jac', l, d) for l in ('initial', 'terminal') for d in ('dbc_dy', 'dbc_dp', 'dbc_dq')]
    return names


def EV(s, expr, **roles):
    """expr evaluated with the symbols of each role bound to the given vector"""
    I, st = s.I, s.st
    names = {'y': 'states', 'u': 'controls', 'p': 'parameters', 'k': 'constants', 'q': 'quads',
             'pc': 'constraint_parameters'}
    ps = [s.syms[names[r]] for r in roles]
    b = I.lib.bind_groups(I, st, ps, [v for v in roles.values()])
    return I.lib.evaluate(I, st, expr, b)


def V(s, name, n):
    v = sym(name)
    tm.LEN_AX[v] = n
    s.I.ranks[v] = 1
    return v


def one(prog, rep, nm, quads, law, ctl=False):
    s = build(prog, quads, law)
    I, st, P = s.I, s.st, s.P
    st.heap[(P, 'func_jac')] = dict_(I, st, {'df_dy': NONE, 'df_dp': NONE})
    st.heap[(P, 'bc_jac')] = dict_(I, st, {k: dict_(I, st, {'dbc_dy': NONE, 'dbc_dp': NONE, 'dbc_dq': NONE})
                                           for k in ('initial', 'terminal')})
    cls = find_class(prog, NP, 'NumericProblem')
    w = where(prog, cls)
    st.heap[(P, 'sympified')] = TRUE
    st.heap[(P, 'lambdified')] = FALSE
    fn = functor(I, st, 'CompileProblem', **({'use_control_arg': TRUE} if ctl else {}))
    R = transform(I, st, fn, P)
    N = I.read(st, P, 'functional_problem')
    rep.equal('%s: the compiled problem is the same problem' % nm, I.V(st, R), I.V(st, P), w)
    rep.equal('%s: the compiled problem is marked so' % nm, I.read(st, P, 'lambdified'), TRUE, w)
    note(rep, I)
    y, p, k = V(s, 'y', slen(s.S0)), V(s, 'p', slen(s.P0)), V(s, 'k', slen(s.K0))
    u = V(s, 'u', slen(s.U0))
    pc = V(s, 'pc', slen(plist(I, st, P, 'constraint_parameters')))
    q0, qf = V(s, 'q0', slen(s.Q0)), V(s, 'qf', slen(s.Q0))
    y0, yf = V(s, 'y0', slen(s.S0)), V(s, 'yf', slen(s.S0))
    ham = I.read(st, I.read(st, P, 'hamiltonian'), 'expr')
    fn = lambda f: I.read(st, N, f)

    def call(f, *a):
        g = fn(f)
        if g is None or g is NONE:
            return g
        return I.reify(st, I.V(st, I.call(g, list(a), {}, st, None)))
    rep.equal('%s: Hamiltonian' % nm, call('ham_func', y, u, p, k), EV(s, ham, y=y, u=u, p=p, k=k), w)

    def U(yy):
        """control at a state"""
        if law == 1:
            return EV(s, s.opts[0], y=yy, p=p, k=k)
        c = [EV(s, o, y=yy, p=p, k=k) for o in s.opts]
        h = [EV(s, ham, y=yy, u=x, p=p, k=k) for x in c]
        b, v = h[0], c[0]
        for i in range(1, law):
            better = lt(h[i], b)
            b, v = ite(better, h[i], b), ite(better, c[i], v)
        return v
    if law:
        rep.equal('%s: control is the option of least Hamiltonian' % nm, call('compute_u', y, p, k), U(y), w)
    eom = field(I, st, s.S0, 'eom')
    qeom = field(I, st, s.Q0, 'eom')
    if ctl:
        rep.equal('%s: state rates' % nm, call('deriv_func', y, u, p, k), EV(s, eom, y=y, u=u, p=p, k=k), w)
    elif law:
        rep.equal('%s: state rates' % nm, call('deriv_func', y, p, k), EV(s, eom, y=y, u=U(y), p=p, k=k), w)
    else:
        rep.equal('%s: state rates' % nm, call('deriv_func', y, p, k), EV(s, eom, y=y, p=p, k=k), w)
    if quads:
        rep.equal('%s: quadrature rates' % nm, call('quad_func', y, p, k),
                  EV(s, qeom, y=y, u=U(y), p=p, k=k) if law else EV(s, qeom, y=y, p=p, k=k), w)
    c0, cf = [field(I, st, clist(I, st, P, l), 'expr') for l in ('initial', 'terminal')]

    def roles(yy, qq):
        r = dict(y=yy)
        if quads:
            r['q'] = qq
        if law:
            r['u'] = U(yy)
        r.update(p=p, pc=pc, k=k)
        return r
    want = cat(EV(s, c0, **roles(y0, q0)), EV(s, cf, **roles(yf, qf)))
    got = call('bc_func', y0, q0, yf, qf, p, pc, k) if quads else call('bc_func', y0, yf, p, pc, k)
    rep.equal('%s: boundary conditions, initial then terminal, each at its own end' % nm, got, want, w)
    cost = I.read(st, P, 'cost')

    def croles(yy, qq):
        r = dict(y=yy)
        if quads:
            r['q'] = qq
        r.update(p=p, pc=pc, k=k)
        return r
    ca = (lambda yy, qq: (yy, qq, p, pc, k)) if quads else (lambda yy, qq: (yy, p, pc, k))
    rep.equal('%s: initial cost' % nm, call('initial_cost_func', *ca(y0, q0)),
              EV(s, I.read(st, cost, 'initial'), **croles(y0, q0)), w)
    rep.equal('%s: terminal cost' % nm, call('terminal_cost_func', *ca(yf, qf)),
              EV(s, I.read(st, cost, 'terminal'), **croles(yf, qf)), w)
    L = I.read(st, cost, 'path')
    if ctl:
        rep.equal('%s: running cost' % nm, call('path_cost_func', y, u, p, k), EV(s, L, y=y, u=u, p=p, k=k), w)
    else:
        rep.equal('%s: running cost' % nm, call('path_cost_func', y, p, k),
                  EV(s, L, y=y, u=U(y), p=p, k=k) if law else EV(s, L, y=y, p=p, k=k), w)
    if law < 2 and not ctl:
        scenario(rep, nm + ' jacobians', lambda: jacs(prog, rep, nm, quads, law))


def jacs(prog, rep, nm, quads, law):
    """analytic Jacobians: formed from the symbolic problem and compiled"""
    s = build(prog, quads, law)
    I, st, P = s.I, s.st, s.P
    # at least one parameter, so that every block exists
    extra = I.input_obj('param0', find_class(prog, CS, 'NamedDimensionalStruct'))
    st.heap[(I.read(st, P, 'parameters'), '$')] = cat(seq(extra), mk('cont', I.read(st, P, 'parameters')))
    snap(s)
    s.syms['parameters'] = field(I, st, s.P0, 'sym')
    st.heap[(P, 'func_jac')] = dict_(I, st, {'df_dy': NONE, 'df_dp': NONE})
    st.heap[(P, 'bc_jac')] = dict_(I, st, {k: dict_(I, st, {'dbc_dy': NONE, 'dbc_dp': NONE, 'dbc_dq': NONE})
                                           for k in ('initial', 'terminal')})
    w1 = where(prog, find_class(prog, MF, 'ComputeAnalyticalJacobians'))
    transform(I, st, functor(I, st, 'ComputeAnalyticalJacobians'), P)
    cls = find_class(prog, NP, 'NumericProblem')
    w = where(prog, cls)
    lc = I.read(st, P, 'local_compiler')
    N = I.instantiate(cls, [P], {'local_compiler': lc}, st, None)
    I.call_method(N, 'compile_problem', [], {}, st, None)
    note(rep, I)
    cp = plist(I, st, P, 'constraint_parameters')
    y, p, k = V(s, 'y', slen(s.S0)), V(s, 'p', slen(s.P0)), V(s, 'k', slen(s.K0))
    pc = V(s, 'pc', slen(cp))
    q0, qf = V(s, 'q0', slen(s.Q0)), V(s, 'qf', slen(s.Q0))
    y0, yf = V(s, 'y0', slen(s.S0)), V(s, 'yf', slen(s.S0))
    D = lambda e, v: I.lib.diff_(I, e, v)
    xs, ps, qs = s.syms['states'], s.syms['parameters'], s.syms['quads']
    pps = cat(ps, s.syms['constraint_parameters'])
    J = lambda es, vs: elems(I, st, es, lambda e: elems(I, st, vs, lambda v: D(e, v)))
    Z = lambda es, vs: rows(slen(es), lambda i: rows(slen(vs), lambda j: ZERO))
    eom = field(I, st, s.S0, 'eom')
    r = I.call(I.read(st, N, 'deriv_func_jac'), [y, p, k], {}, st, None)
    g = [I.reify(st, I.V(st, x)) for x in I.V(st, r).args] if I.V(st, r).op in ('tup', 'seq') else [None, None]
    if law:
        u = EV(s, s.opts[0], y=y, p=p, k=k)
        rep.equal('%s: Jacobian of the rates in the states' % nm, g[0], EV(s, J(eom, xs), y=y, u=u, p=p, k=k), w)
        rep.equal('%s: Jacobian of the rates in the parameters' % nm, g[1], EV(s, J(eom, ps), y=y, u=u, p=p, k=k), w)
        return
    rep.equal('%s: Jacobian of the rates in the states' % nm, g[0], EV(s, J(eom, xs), y=y, p=p, k=k), w)
    rep.equal('%s: Jacobian of the rates in the parameters' % nm, g[1], EV(s, J(eom, ps), y=y, p=p, k=k), w)
    c0, cf = [field(I, st, clist(I, st, P, l), 'expr') for l in ('initial', 'terminal')]
    R0 = dict(y=y0, q=q0, p=p, pc=pc, k=k) if quads else dict(y=y0, p=p, pc=pc, k=k)
    Rf = dict(y=yf, q=qf, p=p, pc=pc, k=k) if quads else dict(y=yf, p=p, pc=pc, k=k)
    a = [y0, q0, yf, qf, p, pc, k] if quads else [y0, yf, p, pc, k]
    r = I.call(I.read(st, N, 'bc_func_jac'), a, {}, st, None)
    r = I.V(st, r)
    g = [I.reify(st, I.V(st, x)) for x in r.args] if r.op in ('tup', 'seq') else [None] * 5
    want = [('initial states', cat(EV(s, J(c0, xs), **R0), Z(cf, xs))),
            ('terminal states', cat(Z(c0, xs), EV(s, J(cf, xs), **Rf))),
            ('parameters and constraint parameters', cat(EV(s, J(c0, pps), **R0), EV(s, J(cf, pps), **Rf)))]
    if quads:
        want += [('initial quadratures', cat(EV(s, J(c0, qs), **R0), Z(cf, qs))),
                 ('terminal quadratures', cat(Z(c0, qs), EV(s, J(cf, qs), **Rf)))]
    if len(g) != len(want):
        rep.undecided('%s: Jacobian blocks' % nm, 'returns %d values' % len(g), w)
        return
    for (t, e), x in zip(want, g):
        rep.equal('%s: Jacobian of the boundary conditions in the %s' % (nm, t), x, e, w)
