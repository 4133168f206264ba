"""C19: transformations compose as written, and each method applies its steps in order."""
import itertools
from .mapsc import *

EXPLANATION = ('Transformations with recorded effects are composed abstractly with every operator and applied to a problem; '
               'the two methods are assembled abstractly for every combination of options and several constraint lists '
               'and the order in which their steps reach the problem is compared with the specification.')
STEPS = ('MomentumShift', 'EpsTrig', 'UTM', 'RASHS', 'Dualize', 'AlgebraicControlLaw', 'DifferentialControlLaw',
         'NormalizeTime', 'MishchenkoFomenko', 'SquashToBVP', 'ComputeAnalyticalJacobians', 'CompileProblem', 'Sympify',
         'ApplyQuantities', 'IgnoreQuads')


def run(prog, rep):
    scenario(rep, 'composition', lambda: compose(prog, rep))
    scenario(rep, 'power', lambda: powers(prog, rep))
    CONS = [(), ('utm',), ('epstrig',), ('utm', 'epstrig'), ('epstrig', None, 'UTM'), ('eq0', 'utm', 'eqf'),
            ('utm0', 'epstrig', 'utmf'), ('half', 'utm'), ('EpsTrig', 'utm'), ('UTM0', 'eq0', 'EPSTRIG', 'utm', 'half')]
    for ms, nt, red, jac in itertools.product((False, True), repeat=4):
        for cm, method in itertools.product(('algebraic', 'differential'), ('traditional', 'diffyg')):
            opt = dict(do_momentum_shift=ms, do_normalize_time=nt, reduction=red, analytical_jacobian=jac,
                       control_method=cm, method=method)
            for cons, sw, sy in ((CONS[4], 1, (1, 1)),):
                scenario(rep, 'indirect', lambda: indirect(prog, rep, opt, cons, sw, sy))
    base_ = dict(do_momentum_shift=True, do_normalize_time=True, reduction=True, analytical_jacobian=True,
                 control_method='differential', method='diffyg')
    for cons in CONS:
        for sw in (0, 2):
            scenario(rep, 'indirect', lambda: indirect(prog, rep, base_, cons, sw, (0, 2)))
            scenario(rep, 'direct', lambda: direct(prog, rep, dict(do_momentum_shift=True, do_normalize_time=True), cons, sw))
    for cm in ('Algebraic', 'DIFFERENTIAL'):
        o2 = dict(base_, control_method=cm, analytical_jacobian=False, method='DiffyG')
        scenario(rep, 'indirect', lambda: indirect(prog, rep, o2, CONS[4], 1, (1, 1)))
    for sy in ((0, 0), (1, 0), (2, 1), (0, 1)):
        scenario(rep, 'indirect', lambda: indirect(prog, rep, base_, (), 0, sy))
    scenario(rep, 'indirect', lambda: indirect(prog, rep, {}, CONS[4], 1, (1, 1)))
    for ms, nt, jac in itertools.product((False, True), repeat=3):
        opt = dict(do_momentum_shift=ms, do_normalize_time=nt, analytical_jacobian=jac)
        scenario(rep, 'direct', lambda: direct(prog, rep, opt, CONS[4], 1))
    scenario(rep, 'direct', lambda: direct(prog, rep, {}, CONS[1], 0))
    scenario(rep, 'bad', lambda: bad(prog, rep))
    scenario(rep, 'pre', lambda: prepost(prog, rep))


def setup(prog):
    s = base(prog)
    I, st = s.I, s.st
    s.log = []
    I.int_literals = True
    I.maxrec = 40

    def rec(name):
        def f(I, st, a, k):
            m = I.read(st, a[0], 'method') if (a[0], 'method') in st.heap else None
            s.log.append((name, m))
            return a[1] if len(a) > 1 else k['prob']
        return f
    for n in STEPS:
        I.intercepts[n + '.transformation'] = rec(n)
    return s


def F(s, tag):
    """a new transformation that applies the uninterpreted effect `tag`"""
    I, st = s.I, s.st
    c = I.module_name(MF, 'GenericFunctor', st)
    if c is None:
        raise Broken('GenericFunctor not found')
    f = I.instantiate(c.args[0], [], {}, st, None)
    t = mk('mod', 'verif.t_' + tag)
    I.intercepts['verif.t_' + tag] = lambda I, st, a, k: mk('call', 'effect_' + tag, a[-1])
    st.heap[(f, 'transformation')] = t
    return f


def app(s, f, x):
    return s.I.call(f, [x], {}, s.st, None)


def bop(s, op, a, b):
    m = {'*': '__mul__', '<<': '__lshift__', '>>': '__rshift__', '**': '__pow__'}[op]
    return s.I.call_method(a, m, [b], {}, s.st, None)


def compose(prog, rep):
    s = setup(prog)
    w = where(prog, find_class(prog, MF, 'GenericFunctor'))
    a, b, c, d = [F(s, x) for x in 'abcd']
    x = sym('p')
    E = lambda tags: x if not tags else mk('call', 'effect_' + tags[0], E(tags[1:]))
    ab = bop(s, '*', a, b)
    rep.equal('a*b applies b, then a', app(s, ab, x), E('ab'), w)
    rep.equal('a<<b applies b, then a', app(s, bop(s, '<<', a, b), x), E('ab'), w)
    rep.equal('a>>b applies a, then b', app(s, bop(s, '>>', a, b), x), E('ba'), w)
    rep.equal('(a*b)*c', app(s, bop(s, '*', ab, c), x), E('abc'), w)
    bc = bop(s, '*', b, c)
    rep.equal('a*(b*c)', app(s, bop(s, '*', a, bc), x), E('abc'), w)
    cd = bop(s, '*', c, d)
    abcd = bop(s, '*', ab, cd)
    rep.equal('(a*b)*(c*d)', app(s, abcd, x), E('abcd'), w)
    rep.equal('a>>b>>c>>d', app(s, bop(s, '>>', bop(s, '>>', bop(s, '>>', a, b), c), d), x), E('dcba'), w)
    rep.equal('(a>>b)>>(c>>d)', app(s, bop(s, '>>', bop(s, '>>', a, b), bop(s, '>>', c, d)), x), E('dcba'), w)
    for n, f, t in (('a', a, 'a'), ('b', b, 'b'), ('c', c, 'c'), ('a*b', ab, 'ab'), ('b*c', bc, 'bc'), ('c*d', cd, 'cd')):
        rep.equal('composing leaves %s as it was' % n, app(s, f, x), E(t), w)
    rep.equal('applying twice gives the same', app(s, abcd, x), E('abcd'), w)
    c0 = s.I.module_name(MF, 'GenericFunctor', s.st)
    e = s.I.instantiate(c0.args[0], [], {}, s.st, None)
    rep.equal('the plain functor changes nothing', app(s, e, x), x, w)
    rep.equal('identity on the left', app(s, bop(s, '*', e, a), x), E('a'), w)
    rep.equal('identity on the right', app(s, bop(s, '*', a, e), x), E('a'), w)
    rep.equal('composing completes', s.st.pc, TRUE, w)
    note(rep, s.I)


def powers(prog, rep):
    w = where(prog, find_class(prog, MF, 'GenericFunctor')) + '.__pow__'
    x = sym('p')
    for n in (0, 1, 2, 3, 4, 9, 17):
        s = setup(prog)
        a = F(s, 'a')
        want = x
        for _ in range(n):
            want = mk('call', 'effect_a', want)
        rep.equal('a**%d' % n, app(s, bop(s, '**', a, num(n)), x), want, w)
        rep.equal('a**%d leaves a as it was' % n, app(s, a, x), mk('call', 'effect_a', x), w)
    s = setup(prog)
    ab = bop(s, '*', F(s, 'a'), F(s, 'b'))
    want = x
    for t in 'baba':
        want = mk('call', 'effect_' + t, want)
    rep.equal('(a*b)**2', app(s, bop(s, '**', ab, num(2)), x), want, w)
    s = setup(prog)
    rejects(rep, 'negative power is rejected', s.I, s.st, lambda: bop(s, '**', F(s, 'a'), num(-1)), w, 'ValueError')
    note(rep, s.I)


def fill(s, cons, sw, sy):
    """constraints: '<method>[0|f]' bounded at that place (default: path), eq0/eqf equality, half: one bound only"""
    I, st, P = s.I, s.st, s.P
    ccls = find_class(I.prog, CS, 'ConstraintStruct')
    lists = {'initial': [], 'path': [], 'terminal': []}
    for i, c in enumerate(cons):
        if c is None:
            c = 'eqp'
        o = I.input_obj('constraint%d' % i, ccls)
        loc = {'0': 'initial', 'f': 'terminal'}.get(c[-1], 'path')
        kind = c.rstrip('0f') if c not in ('half', 'eqf') else c
        lo = up = NONE
        if kind.lower() in ('utm', 'epstrig', 'newmagic'):
            lo, up = sym('lower%d' % i, 'real'), sym('upper%d' % i, 'real')
            st.heap[(o, 'method')] = const(kind)
        else:
            st.heap[(o, 'method')] = const('utm')
            if kind == 'half':
                up = sym('upper%d' % i, 'real')
                loc = 'path'
        st.heap[(o, 'lower')], st.heap[(o, 'upper')] = lo, up
        lists[loc].append((o, kind))
    cd = I.read(st, P, 'constraints')
    order = []
    for loc in ('initial', 'path', 'terminal'):
        st.heap[(I.read(st, cd, "['%s']" % loc), '$')] = seq(*[o for o, _ in lists[loc]])
        order += [k for _, k in lists[loc]]
    for nm, n, cl in (('switches', sw, 'SwitchStruct'), ('symmetries', sy[0], 'SymmetryStruct'),
                      ('constants_of_motion', sy[1], 'NamedDimensionalExpressionStruct')):
        st.heap[(I.read(st, P, nm), '$')] = seq(*[I.input_obj('%s%d' % (nm, i), find_class(I.prog, CS, cl)) for i in range(n)])
    return ['EpsTrig' if k.lower() == 'epstrig' else 'UTM' for k in order if k.lower() in ('utm', 'epstrig')]


def T_(v):
    return const(v) if isinstance(v, str) else TRUE if v else FALSE


def name_of(kind, opt, cons, sw, sy=None):
    o = ', '.join(k if v is True else '%s=%s' % (k, v) for k, v in sorted(opt.items()) if v is not False)
    return '%s [%s] constraints %s, %d switches%s' % (kind, o or 'default', cons, sw, '' if sy is None else ', %d+%d symmetries' % sy)


def same_order(rep, nm, s, got, want, w):
    rep.equal('%s: steps in order' % nm, seq(*[const(x) for x in got]), seq(*[const(x) for x in want]), w)


def indirect(prog, rep, opt, cons, sw, sy):
    s = setup(prog)
    I, st, P = s.I, s.st, s.P
    reg = fill(s, cons, sw, sy)
    w = 'beluga/symbolic/data_classes/mapping_functions.py:make_indirect_method'
    f = I.module_name(MF, 'make_indirect_method', st)
    if f is None:
        raise Broken('make_indirect_method not found')
    nm = name_of('indirect', opt, cons, sw, sy)
    fn = I.call(f, [P], {k: T_(v) for k, v in opt.items()}, st, None)
    r = app(s, fn, P)
    note(rep, I)
    g = lambda k, d: opt.get(k, d)
    want = (['MomentumShift'] if g('do_momentum_shift', True) else []) + reg + (['RASHS'] if sw else []) + ['Dualize']
    cm = g('control_method', 'differential')
    want.append('AlgebraicControlLaw' if cm.lower() == 'algebraic' else 'DifferentialControlLaw')
    if g('do_normalize_time', True):
        want.append('NormalizeTime')
    method = g('method', 'traditional')
    if method.lower() == 'diffyg' and g('reduction', False):
        want += ['MishchenkoFomenko'] * sum(sy)
    want.append('SquashToBVP')
    if g('analytical_jacobian', False) and cm != 'algebraic':
        want.append('ComputeAnalyticalJacobians')
    same_order(rep, nm, s, [n for n, _ in s.log], want, w)
    rep.equal('%s: the problem goes through' % nm, r, P, w)
    for n, m in s.log:
        if n in ('Dualize', 'DifferentialControlLaw') and m is not None:
            rep.equal('%s: %s uses the method asked for' % (nm, n), m, const(method), w)
    rep.equal('%s: completes' % nm, st.pc, TRUE, w)


def direct(prog, rep, opt, cons, sw):
    s = setup(prog)
    I, st, P = s.I, s.st, s.P
    reg = fill(s, cons, sw, (1, 1))
    w = 'beluga/symbolic/data_classes/mapping_functions.py:make_direct_method'
    f = I.module_name(MF, 'make_direct_method', st)
    if f is None:
        raise Broken('make_direct_method not found')
    nm = name_of('direct', opt, cons, sw)
    fn = I.call(f, [P], {k: T_(v) for k, v in opt.items()}, st, None)
    r = app(s, fn, P)
    note(rep, I)
    want = (['MomentumShift'] if opt.get('do_momentum_shift', False) else []) + reg + (['RASHS'] if sw else [])
    if opt.get('do_normalize_time', False):
        want.append('NormalizeTime')
    if opt.get('analytical_jacobian', True):
        want.append('ComputeAnalyticalJacobians')
    same_order(rep, nm, s, [n for n, _ in s.log], want, w)
    rep.equal('%s: the problem goes through' % nm, r, P, w)


def bad(prog, rep):
    for which in ('make_indirect_method', 'make_direct_method'):
        s = setup(prog)
        fill(s, ('utm', 'newmagic'), 0, (0, 0))
        f = s.I.module_name(MF, which, s.st)
        rejects(rep, '%s: unknown constraint method is rejected' % which, s.I, s.st,
                lambda: s.I.call(f, [s.P], {}, s.st, None), 'beluga/symbolic/data_classes/mapping_functions.py:' + which,
                'NotImplementedError')
    for cm in ('numeric', 'magic'):
        s = setup(prog)
        fill(s, (), 0, (0, 0))
        f = s.I.module_name(MF, 'make_indirect_method', s.st)
        rejects(rep, 'control method %s is rejected' % cm, s.I, s.st,
                lambda: s.I.call(f, [s.P], {'control_method': const(cm)}, s.st, None),
                'beluga/symbolic/data_classes/mapping_functions.py:make_indirect_method', 'NotImplementedError')
    note(rep, s.I)


def prepost(prog, rep):
    for which, want in (('make_preprocessor', ['Sympify', 'ApplyQuantities']), ('make_postprocessor', ['CompileProblem'])):
        s = setup(prog)
        f = s.I.module_name(MF, which, s.st)
        if f is None:
            raise Broken(which + ' not found')
        fn = s.I.call(f, [], {}, s.st, None)
        r = app(s, fn, s.P)
        w = 'beluga/symbolic/data_classes/mapping_functions.py:' + which
        same_order(rep, which, s, [n for n, _ in s.log], want, w)
        rep.equal(which + ': the problem goes through', r, s.P, w)
    note(rep, s.I)
