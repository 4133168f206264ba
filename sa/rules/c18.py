"""C18: sympification and substitution reach every component of the problem."""
import itertools
from .mapsc import *

EXPLANATION = ('Problem-wide substitution and sympification are applied abstractly to a symbolic problem with any number '
               'of components of every kind; the expressions left in every component are compared with the '
               'substituted or parsed originals.')

# component list -> expression fields
EXPRS = {
    'states': ('eom',), 'costates': ('eom',), 'coparameters': ('eom',), 'quads': ('eom',),
    'quantities': ('expr',), 'switches': ('sym_func',), 'constants_of_motion': ('expr',), 'units': ('expr',),
    'symmetries': ('field',),
}
SYMPS = {
    'states': ('eom', 'units'), 'costates': ('eom', 'units'), 'coparameters': ('eom', 'units'),
    'quads': ('eom', 'units'), 'parameters': ('units',), 'controls': ('units',), 'constants': ('units',),
    'constraint_parameters': ('units',), 'constraint_adjoints': ('units',),
    'quantities': ('expr',), 'constants_of_motion': ('expr', 'units'), 'units': ('expr',),
}


def run(prog, rep):
    rep.assumptions += ['distinct components do not share expression objects']
    scenario(rep, 'substitution', lambda: subs(prog, rep))
    scenario(rep, 'sympify', lambda: sympify(prog, rep))
    scenario(rep, 'quantities', lambda: quantities(prog, rep))
    for perm in itertools.permutations(range(3)):
        nm = 'quantities in terms of each other, defined in the order %s' % (perm,)
        scenario(rep, nm, lambda: nested(prog, rep, nm, perm))


def mkprob(prog, sympified):
    s = base(prog, sympified=sympified)
    I, st, P = s.I, s.st, s.P
    I.elemattr['units'] = find_class(prog, CS, 'NamedExpressionStruct')
    return s


def snapshot(s, spec):
    I, st, P = s.I, s.st, s.P
    return {(k, f): field(I, st, plist(I, st, P, k), f) for k, fs in spec.items() for f in fs}


def subs(prog, rep):
    s = mkprob(prog, True)
    I, st, P = s.I, s.st, s.P
    w = where(prog, find_class(prog, SP, 'Problem')) + '.subs_all'
    # components are already parsed: parsing them again changes nothing
    I.intercepts['LocalCompiler.sympify'] = lambda I, st, a, k: a[1]
    old, new = sym('old'), sym('new')
    S = lambda e: I.lib.sub1(I, e, old, new)
    sw = [I.input_obj('switch%d' % i, find_class(prog, CS, 'SwitchStruct')) for i in range(2)]
    for i, x in enumerate(sw):
        st.heap[(x, 'sym_func')] = sym('switch_func%d' % i, 'real')
    st.heap[(I.read(st, P, 'switches'), '$')] = seq(*sw)
    b4 = snapshot(s, EXPRS)
    cost = I.read(st, P, 'cost')
    c4 = {k: I.read(st, cost, k) for k in ('initial', 'path', 'terminal')}
    h4 = I.read(st, I.read(st, P, 'hamiltonian'), 'expr')
    con4 = {(k, f): field(I, st, clist(I, st, P, k), f) for k in ('initial', 'path', 'terminal')
            for f in ('expr', 'lower', 'upper')}
    I.call_method(P, 'subs_all', [old, new], {}, st, None)
    note(rep, I)
    for (k, f), e in b4.items():
        rep.equal('substitution reaches %s of every %s' % (f, k), field(I, st, plist(I, st, P, k), f),
                  elems(I, st, e, S), w)
    cost = I.read(st, P, 'cost')
    for k in c4:
        rep.equal('substitution reaches the %s cost' % k, I.read(st, cost, k), S(c4[k]), w)
    rep.equal('substitution reaches the Hamiltonian', I.read(st, I.read(st, P, 'hamiltonian'), 'expr'), S(h4), w)
    for (k, f), e in con4.items():
        got = field(I, st, clist(I, st, P, k), f)
        want = elems(I, st, e, S if f == 'expr' else (lambda x: ite(eq(x, NONE), x, S(x))))
        rep.equal('substitution reaches %s of every %s constraint' % (f, k), got, want, w)


def sympify(prog, rep):
    s = mkprob(prog, False)
    I, st, P = s.I, s.st, s.P
    w = where(prog, find_class(prog, SP, 'Problem')) + '.sympify_self'
    I.intercepts['LocalCompiler.sympify'] = lambda I, st, a, k: parse(I.reify(st, a[1]))
    I.intercepts['sympy.sympify'] = lambda I, st, a, k: parse(I.reify(st, a[0]))
    I.intercepts['CostStruct.check_path_units'] = lambda I, st, a, k: NONE
    b4 = snapshot(s, SYMPS)
    cost = I.read(st, P, 'cost')
    c4 = {k: I.read(st, cost, k) for k in ('initial', 'path', 'terminal', 'units', 'path_units')}
    con4 = {(k, f): field(I, st, clist(I, st, P, k), f) for k in ('initial', 'path', 'terminal')
            for f in ('expr', 'lower', 'upper', 'activator')}
    I.call_method(P, 'sympify_self', [], {}, st, None)
    note(rep, I)
    for (k, f), e in b4.items():
        rep.equal('parsing reaches %s of every %s' % (f, k), field(I, st, plist(I, st, P, k), f),
                  elems(I, st, e, parse), w, extra_vocab=('call:parse',))
    cost = I.read(st, P, 'cost')
    for k in c4:
        rep.equal('parsing reaches the cost: %s' % k, I.read(st, cost, k), parse(c4[k]), w)
    for (k, f), e in con4.items():
        got = field(I, st, clist(I, st, P, k), f)
        want = elems(I, st, e, parse if f == 'expr' else (lambda x: ite(eq(x, NONE), x, parse(x))))
        rep.equal('parsing reaches %s of every %s constraint' % (f, k), got, want, w)
    rep.equal('the problem is marked as parsed', I.read(st, P, 'sympified'), TRUE, w)


def parse(x):
    # parsing is idempotent
    if x.op == 'call' and x.args[0] == 'parse':
        return x
    if x is NONE:
        return x
    return mk('call', 'parse', x)


def quantities(prog, rep):
    """every quantity's symbol is replaced in the whole problem by its expression"""
    s = base(prog)
    I, st, P = s.I, s.st, s.P
    w = where(prog, find_class(prog, MF, 'ApplyQuantities'))
    rec = []
    qcls = find_class(prog, CS, 'NamedExpressionStruct')
    for n in (1, 2, 3):
        s = base(prog)
        I, st, P = s.I, s.st, s.P
        qs = []
        for i in range(n):
            q = I.input_obj('quantity%d' % i, qcls)
            st.heap[(q, 'sym')] = sym('q%d' % i)
            st.heap[(q, 'expr')] = sym('e%d' % i)
            st.heap[(q, 'free_symbols')] = EMPTY
            qs.append(q)
        st.heap[(I.read(st, P, 'quantities'), '$')] = seq(*qs)
        rec = []
        I.intercepts['Problem.subs_all'] = lambda I, st, a, k: (rec.append((a[1], I.reify(st, a[2]))), a[0])[1]
        fn = functor(I, st, 'ApplyQuantities')
        transform(I, st, fn, P)
        note(rep, I)
        got = seq(*[tup(a, b) for a, b in rec])
        want = seq(*[tup(sym('q%d' % i), sym('e%d' % i)) for i in range(n)])
        rep.equal_bag('%d quantities: each is substituted in the whole problem by its own expression' % n, got, want, w)


def nested(prog, rep, nm, perm):
    """q0 uses q1 and q2, q1 uses q2: nothing is left of any of them, whatever the order of definition"""
    s = base(prog)
    I, st, P = s.I, s.st, s.P
    w = where(prog, find_class(prog, MF, 'ApplyQuantities'))
    I.intercepts['LocalCompiler.sympify'] = lambda I, st, a, k: a[1]
    q = [tm.mk('symbol', const('quantity%d' % i)) for i in range(3)]
    x = [tm.mk('symbol', const('x%d' % i)) for i in range(3)]
    ex = [add(mul(q[1], x[0]), q[2]), mul(q[2], x[1]), x[2]]
    fin = [add(mul(mul(x[2], x[1]), x[0]), x[2]), mul(x[2], x[1]), x[2]]
    fs = [(q[1], q[2], x[0]), (q[2], x[1]), (x[2],)]
    qcls = find_class(prog, CS, 'NamedExpressionStruct')
    objs = []
    for i in range(3):
        o = I.input_obj('quantity_obj%d' % i, qcls)
        st.heap[(o, 'sym')] = q[i]
        st.heap[(o, 'expr')] = ex[i]
        st.heap[(o, 'free_symbols')] = seq(*fs[i])
        objs.append(o)
    st.heap[(I.read(st, P, 'quantities'), '$')] = seq(*[objs[i] for i in perm])
    stt = [I.input_obj('state_obj%d' % i, find_class(prog, CS, 'DynamicStruct')) for i in range(3)]
    for i, o in enumerate(stt):
        st.heap[(o, 'eom')] = mul(q[i], x[0])
        st.heap[(o, 'sym')] = x[i]
    st.heap[(I.read(st, P, 'states'), '$')] = seq(*stt)
    cost = I.read(st, P, 'cost')
    st.heap[(cost, 'path')] = add(q[0], mul(q[1], q[2]))
    transform(I, st, functor(I, st, 'ApplyQuantities'), P)
    note(rep, I)
    for i, o in enumerate(stt):
        rep.equal('%s: rate of state %d is fully expanded' % (nm, i), I.read(st, o, 'eom'), mul(fin[i], x[0]), w)
    rep.equal('%s: running cost is fully expanded' % nm, I.read(st, I.read(st, P, 'cost'), 'path'),
              add(fin[0], mul(fin[1], fin[2])), w)
