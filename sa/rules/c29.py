"""C29: every component a transformation introduces has the unit its meaning implies."""
from ..common import *
from . import c03, c14

EXPLANATION = ('Value-graph comparison of the units recorded for the components that the transformations introduce '
               '(costates, coparameters, multipliers, Hamiltonian, conserved quantities, control states, duration, new '
               'independent variable, trigonometric controls, derived cost units) with dimensional consistency, for a '
               'symbolic problem with any number of states, parameters, controls and constraints.')


def run(prog, rep):
    rep.assumptions += ['units are compared as formal expressions']
    for method in ('traditional', 'diffyg'):
        scenario(rep, 'dualize %s' % method, lambda: dualize(prog, rep, method))
        for m in (1, 2):
            scenario(rep, 'control law %s %d' % (method, m), lambda: control(prog, rep, method, m))
    for ns in (0, 1, 2):
        scenario(rep, 'conserved quantities %d' % ns, lambda: conserved(prog, rep, ns))
    scenario(rep, 'momentum shift', lambda: shift(prog, rep))
    scenario(rep, 'normalize time', lambda: normalize(prog, rep))
    scenario(rep, 'squash', lambda: squash(prog, rep))
    for i in (0, 1):
        scenario(rep, 'trigonometric control %d' % i, lambda: trig(prog, rep, i))
    scenario(rep, 'cost units', lambda: cost(prog, rep))


def units(I, st, s):
    return field(I, st, s, 'units')


def ulist(I, st, P, n):
    return units(I, st, plist(I, st, P, n))


def over(I, a, us):
    return elems(I, None, us, lambda u: div(a, u))


def dualize(prog, rep, method):
    w = where(prog, find_class(prog, MF, 'Dualize'))
    I, st, P = c03.setup(prog, method)
    C = I.read(st, I.read(st, P, 'cost'), 'units')
    T = I.read(st, I.read(st, P, 'independent_variable'), 'units')
    names = ('states', 'parameters', 'controls', 'quads', 'constants', 'constraint_parameters')
    before = {n: ulist(I, st, P, n) for n in names}
    u0, uf = units(I, st, clist(I, st, P, 'initial')), units(I, st, clist(I, st, P, 'terminal'))
    com0 = ulist(I, st, P, 'constants_of_motion')
    transform(I, st, functor(I, st, 'Dualize', const(method)), P)
    note(rep, I)
    m = 'dualize (%s): ' % method
    for n in names:
        rep.equal(m + 'units of the %s stay' % n, ulist(I, st, P, n), before[n], w)
    rep.equal(m + 'unit of the cost stays', I.read(st, I.read(st, P, 'cost'), 'units'), C, w)
    rep.equal(m + 'a costate has the unit of the cost per unit of its state', ulist(I, st, P, 'costates'),
              over(I, C, before['states']), w)
    rep.equal(m + 'a coparameter has the unit of the cost per unit of its parameter', ulist(I, st, P, 'coparameters'),
              over(I, C, before['parameters']), w)
    rep.equal(m + 'a multiplier has the unit of the cost per unit of its constraint',
              ulist(I, st, P, 'constraint_adjoints'), cat(over(I, C, u0), over(I, C, uf)), w)
    rep.equal(m + 'the Hamiltonian has the unit of the cost per unit of time',
              I.read(st, I.read(st, P, 'hamiltonian'), 'units'), div(C, T), w)
    rep.equal(m + 'the conserved Hamiltonian has the unit of the cost per unit of time',
              ulist(I, st, P, 'constants_of_motion'), cat(com0, seq(div(C, T))), w)
    lam = cat(over(I, C, before['states']), over(I, C, before['parameters']))
    rep.equal_bag(m + 'units of the initial conditions', units(I, st, clist(I, st, P, 'initial')), cat(u0, lam), w)
    rep.equal_bag(m + 'units of the terminal conditions', units(I, st, clist(I, st, P, 'terminal')),
                  cat(uf, lam, seq(div(C, T))), w)


def conserved(prog, rep, ns):
    """the geometric formulation records one conserved quantity per symmetry, in order, after the Hamiltonian"""
    w = where(prog, find_class(prog, MF, 'Dualize'))
    I, st, P = c03.setup(prog, 'diffyg')
    S0 = plist(I, st, P, 'states')
    fld, sy = [], []
    for i in range(ns):
        c = I.input_obj('symmetry%d' % i, find_class(prog, CS, 'SymmetryStruct'))
        f = rows(slen(S0), lambda k: mk('at', sym('field%d' % i), k))
        st.heap[(c, 'field')] = I.new_array(st, f)
        fld.append(f)
        sy.append(c)
    st.heap[(I.read(st, P, 'symmetries'), '$')] = seq(*sy)
    calls = []

    def noether(I, st, a, k):
        k = {**dict(zip(('prob', 'quantity'), a)), **k}
        calls.append(k['quantity'])
        i = len(calls) - 1
        return tup(mk('call', 'conserved', k['quantity']), mk('call', 'conserved_unit', k['quantity']))
    I.intercepts['noether'] = noether
    C = I.read(st, I.read(st, P, 'cost'), 'units')
    T = I.read(st, I.read(st, P, 'independent_variable'), 'units')
    com0 = plist(I, st, P, 'constants_of_motion')
    transform(I, st, functor(I, st, 'Dualize', const('diffyg')), P)
    note(rep, I)
    com = plist(I, st, P, 'constants_of_motion')
    m = '%d symmetries: ' % ns
    H = I.read(st, I.read(st, P, 'hamiltonian'), 'expr')
    rep.equal(m + 'the Hamiltonian comes first and then one quantity per symmetry, in order',
              field(I, st, com, 'expr'),
              cat(field(I, st, com0, 'expr'), seq(H, *[mk('call', 'conserved', c) for c in sy])), w)
    rep.equal(m + 'units of the conserved quantities', units(I, st, com),
              cat(units(I, st, com0), seq(div(C, T), *[mk('call', 'conserved_unit', c) for c in sy])), w)
    n = slen(com0)
    nm = [I.read(st, at(com, add(n, num(i))), 'name') for i in range(ns + 1)]
    for i in range(ns + 1):
        for j in range(i):
            rep.equal(m + 'conserved quantities %d and %d have different names' % (j, i), eq(nm[i], nm[j]), FALSE, w)
    for i in range(ns):
        rep.equal(m + 'symmetry %d moves its states and no costate' % i, I.V(st, I.read(st, sy[i], 'field')),
                  cat(fld[i], rows(slen(S0), lambda k: ZERO)), w)


def control(prog, rep, method, m):
    w = where(prog, find_class(prog, MF, 'DifferentialControlLaw'))
    I, st, P, us, H = c14.setup(prog, m)
    if method == 'diffyg':
        xs, ls = [], []
        for i in range(2):
            for p, l in (('x', xs), ('l', ls)):
                a = I.input_obj('%s%d' % (p, i), find_class(prog, CS, 'DynamicStruct'))
                st.heap[(a, 'sym')] = mk('symbol', const('%s%d' % (p, i)))
                l.append(a)
        st.heap[(I.read(st, P, 'states'), '$')] = seq(*xs)
        st.heap[(I.read(st, P, 'costates'), '$')] = seq(*ls)
    C = I.read(st, I.read(st, P, 'cost'), 'units')
    hu = I.read(st, I.read(st, P, 'hamiltonian'), 'units')
    uu = [I.read(st, c, 'units') for c in us]
    s0, c0 = ulist(I, st, P, 'states'), ulist(I, st, P, 'costates')
    i0, f0 = [units(I, st, clist(I, st, P, k)) for k in ('initial', 'terminal')]
    transform(I, st, functor(I, st, 'DifferentialControlLaw', const(method)), P)
    note(rep, I)
    t = 'control law (%s, %d controls): ' % (method, m)
    rep.equal(t + 'a control keeps its unit as a state', ulist(I, st, P, 'states'), cat(s0, seq(*uu)), w)
    lu = seq(*[div(C, u) for u in uu]) if method == 'diffyg' else EMPTY
    rep.equal(t + 'units of the costates', ulist(I, st, P, 'costates'), cat(c0, lu), w)
    rep.equal_bag(t + 'units of the initial conditions', units(I, st, clist(I, st, P, 'initial')), cat(i0, lu), w)
    rep.equal_bag(t + 'units of the terminal conditions', units(I, st, clist(I, st, P, 'terminal')),
                  cat(f0, seq(*[div(hu, u) for u in uu])), w)


def shift(prog, rep):
    w = where(prog, find_class(prog, MF, 'MomentumShift'))
    I = interp(prog)
    st = State()
    P = problem(I, st)
    iv = I.read(st, P, 'independent_variable')
    st.heap[(iv, 'name')] = const('t')
    T = I.read(st, iv, 'units')
    s0 = ulist(I, st, P, 'states')
    transform(I, st, functor(I, st, 'MomentumShift'), P)
    note(rep, I)
    rep.equal('momentum shift: time keeps its unit as a state', ulist(I, st, P, 'states'), cat(s0, seq(T)), w)
    rep.equal('momentum shift: the new independent variable has the unit of time',
              I.read(st, I.read(st, P, 'independent_variable'), 'units'), T, w)


def normalize(prog, rep):
    w = where(prog, find_class(prog, MF, 'NormalizeTime'))
    I = interp(prog)
    st = State()
    P = problem(I, st)
    iv = I.read(st, P, 'independent_variable')
    st.heap[(iv, 'name')] = const('t')
    T = I.read(st, iv, 'units')
    names = ('states', 'costates', 'coparameters', 'quads', 'controls', 'constants', 'constraint_parameters',
             'constraint_adjoints')
    before = {n: ulist(I, st, P, n) for n in names}
    p0 = ulist(I, st, P, 'parameters')
    C = I.read(st, I.read(st, P, 'cost'), 'units')
    transform(I, st, functor(I, st, 'NormalizeTime'), P)
    note(rep, I)
    for n in names:
        rep.equal('normalized time: units of the %s stay' % n, ulist(I, st, P, n), before[n], w)
    rep.equal('normalized time: the duration has the unit of time', ulist(I, st, P, 'parameters'), cat(p0, seq(T)), w)
    rep.equal('normalized time: the new independent variable has no unit',
              I.read(st, I.read(st, P, 'independent_variable'), 'units'), ONE, w)
    rep.equal('normalized time: unit of the cost stays', I.read(st, I.read(st, P, 'cost'), 'units'), C, w)


def squash(prog, rep):
    w = where(prog, find_class(prog, MF, 'SquashToBVP'))
    I = interp(prog)
    st = State()
    P = problem(I, st)
    g = lambda n: ulist(I, st, P, n)
    s, c, q, cp, np_, ca = [g(n) for n in ('states', 'costates', 'quads', 'coparameters', 'constraint_parameters',
                                          'constraint_adjoints')]
    transform(I, st, functor(I, st, 'SquashToBVP'), P)
    note(rep, I)
    rep.equal('flat problem: units of states and costates', g('states'), cat(s, c), w)
    rep.equal('flat problem: units of quadratures and coparameters', g('quads'), cat(q, cp), w)
    rep.equal('flat problem: units of the multipliers', g('constraint_parameters'), cat(np_, ca), w)


def trig(prog, rep, pos):
    w = where(prog, find_class(prog, MF, 'EpsTrig'))
    I = interp(prog)
    st = State()
    P = problem(I, st)
    us = []
    for i in range(2):
        c = I.input_obj('ctl%d' % i, find_class(prog, CS, 'NamedDimensionalStruct'))
        st.heap[(c, 'sym')] = mk('symbol', const('u%d' % i))
        st.heap[(c, 'name')] = const('u%d' % i)
        us.append(c)
    st.heap[(I.read(st, P, 'controls'), '$')] = seq(*us)
    c = I.input_obj('con', find_class(prog, CS, 'ConstraintStruct'))
    st.heap[(c, 'method')] = const('epstrig')
    st.heap[(c, 'expr')] = mk('symbol', const('u%d' % pos))
    st.heap[(I.read(st, I.read(st, P, 'constraints'), "['path']"), '$')] = seq(c)
    other = I.read(st, us[1 - pos], 'units')
    transform(I, st, functor(I, st, 'EpsTrig'), P)
    note(rep, I)
    want = [other, other]
    want[pos] = ONE
    rep.equal('trigonometric control %d has no unit, the other keeps its own' % pos, ulist(I, st, P, 'controls'),
              seq(*want), w)


def cost(prog, rep):
    c = find_class(prog, CS, 'CostStruct')
    w = where(prog, c)
    for have in ('none', 'boundary', 'path', 'both'):
        I = interp(prog)
        st = State()
        o = I.input_obj('cost', c)
        U, V, T = sym('boundary_unit', 'real'), sym('path_unit', 'real'), sym('time_unit', 'real')
        I.intercepts['_sympify_internal'] = lambda I, st, a, k: a[-1]
        st.heap[(o, 'units')] = U if have in ('boundary', 'both') else NONE
        st.heap[(o, 'path_units')] = V if have in ('path', 'both') else NONE
        v, pc, rs = attempt(I, st, lambda: I.call_method(o, 'check_path_units', [T], {}, st, None))
        note(rep, I)
        t = 'cost units (%s given): ' % have
        if have == 'boundary':
            rep.equal(t + 'unit kept', I.read(st, o, 'units'), U, w)
            rep.equal(t + 'running cost has the unit per unit of time', I.read(st, o, 'path_units'), div(U, T), w)
            rep.equal(t + 'accepted', pc, TRUE, w)
        elif have == 'path':
            rep.equal(t + 'cost has the unit of the running cost times time', I.read(st, o, 'units'), mul(V, T), w)
            rep.equal(t + 'unit of the running cost kept', I.read(st, o, 'path_units'), V, w)
            rep.equal(t + 'accepted', pc, TRUE, w)
        elif have == 'both':
            rep.equal(t + 'accepted exactly when consistent', pc, eq(U, mul(V, T)), w)
        else:
            rep.equal(t + 'left open', tup(I.read(st, o, 'units'), I.read(st, o, 'path_units')), tup(NONE, NONE), w)
            rep.equal(t + 'accepted', pc, TRUE, w)
