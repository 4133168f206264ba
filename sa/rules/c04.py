"""C04: bounded constraints are replaced by their regularised form, each by its own."""
from fractions import Fraction
from .mapsc import *

EXPLANATION = ('The penalty (UTM) and trigonometrisation (EpsTrig) steps are applied abstractly to problems whose '
               'constraint lists mix equality constraints and bounded constraints of both kinds at every location and '
               'position, with symbolic expressions, bounds and activators; the cost terms, the removed constraint and '
               'the substitution are compared with the regularisation formulas.')
HALF = num(Fraction(1, 2))
LOCS = ('initial', 'path', 'terminal')


def run(prog, rep):
    rep.assumptions += ['the activator of a bounded constraint is a constant of the problem']
    for loc in LOCS:
        for shape in SHAPES:
            nm = 'penalty, %s %s' % (loc, shape)
            scenario(rep, nm, lambda: utm(prog, rep, nm, loc, shape))
    scenario(rep, 'penalty precedence', lambda: precedence(prog, rep))
    for shape in ESHAPES:
        nm = 'trigonometric %s' % shape
        scenario(rep, nm, lambda: eps(prog, rep, nm, shape))
    scenario(rep, 'activator', lambda: activator(prog, rep))


# e: equality constraint, u: bounded by penalty, t: bounded by trigonometrisation, U: penalty method without bounds
# l, h: penalty method with a lower / an upper bound only; V, T: the method written in another case
SHAPES = ('u', 'eu', 'ue', 'Ueu', 'euu', 'teue', 'lu', 'hu', 'ulh', 'eV', 'lhVe')
ESHAPES = ('t', 'ut', 'tu', 'utt', 'eT', 'uT')


def mkcon(I, st, P, tag, kind, i, ctl=None):
    cls = find_class(I.prog, CS, 'ConstraintStruct')
    c = I.input_obj('con_%s%d' % (tag, i), cls)
    h = st.heap
    h[(c, 'method')] = const({'t': 'epstrig', 'T': 'EpsTrig', 'V': 'UTM'}.get(kind, 'utm'))
    h[(c, 'lower')] = NONE if kind in 'eUh' else sym('lower_%s%d' % (tag, i), 'real')
    h[(c, 'upper')] = NONE if kind in 'eUl' else sym('upper_%s%d' % (tag, i), 'real')
    h[(c, 'expr')] = ctl if ctl is not None else sym('expr_%s%d' % (tag, i), 'real')
    h[(c, 'activator')] = sym('eps_%s%d' % (tag, i), 'real')
    return c


def setup(prog, lists, ctl=None):
    s = base(prog)
    I, st, P = s.I, s.st, s.P
    empty(I, st, P, 'costates', 'coparameters')
    s.cons = {}
    kcls = find_class(prog, CS, 'Constant')
    consts = []
    for loc in LOCS:
        cs = [mkcon(I, st, P, loc[0], k, i, ctl(loc, k, i) if ctl else None) for i, k in enumerate(lists.get(loc, 'e'))]
        s.cons[loc] = cs
        st.heap[(I.read(st, I.read(st, P, 'constraints'), "['%s']" % loc), '$')] = seq(*cs)
        for c in cs:
            if I.read(st, c, 'lower') is not NONE or I.read(st, c, 'upper') is not NONE:
                k = I.input_obj('const_%d' % len(consts), kcls)
                st.heap[(k, 'sym')] = I.read(st, c, 'activator')
                consts.append(k)
    st.heap[(I.read(st, P, 'constants'), '$')] = seq(*consts)
    snap(s)
    return s


def penalty(I, st, c):
    e, lo, hi, a = [I.read(st, c, k) for k in ('expr', 'lower', 'upper', 'activator')]
    ang = mul(mul(mk('sym', 'pi', 'real'), HALF), div(sub(sub(mul(num(2), e), hi), lo), sub(hi, lo)))
    return ang, a


def costs(I, st, P):
    c = I.read(st, P, 'cost')
    return {k: I.read(st, c, k) for k in LOCS}


def utm(prog, rep, nm, loc, shape):
    s = setup(prog, {loc: shape})
    I, st, P = s.I, s.st, s.P
    before = costs(I, st, P)
    apply(s, 'UTM')
    note(rep, I)
    after = costs(I, st, P)
    w = s.where
    got = clist(I, st, P, loc)
    cands = [c for c, k in zip(s.cons[loc], shape) if k in 'uV']
    pick = [c for c in cands if got is seq(*[x for x in s.cons[loc] if x is not c])]
    rep.equal('%s: exactly one constraint is removed' % nm, slen(got), num(len(shape) - 1), w)
    if not pick:
        rep.equal('%s: a bounded penalty constraint is removed and the others stay' % nm, got,
                  seq(*[x for x in s.cons[loc] if x is not cands[0]]), w)
        c = cands[0]
    else:
        rep.ok('%s: a bounded penalty constraint is removed and the others stay' % nm, w)
        c = pick[0]
    ang, a = penalty(I, st, c)
    cosv = mk('call', 'cos', ang)
    want = add(before[loc], mul(a, sub(inv(cosv), ONE)))
    rep.equal('%s: its own penalty is added to the cost of that location' % nm, after[loc], want, w)
    for k in LOCS:
        if k != loc:
            rep.equal('%s: %s cost unchanged' % (nm, k), after[k], before[k], w)
            rep.equal('%s: %s constraints unchanged' % (nm, k), clist(I, st, P, k), seq(*s.cons[k]), w)
    rep.equal('%s: one trajectory mapper is registered' % nm, s.added, ONE, w)


def precedence(prog, rep):
    """with bounded constraints everywhere, three applications remove one each and leave the equality constraints"""
    s = setup(prog, {k: 'eu' for k in LOCS})
    I, st, P = s.I, s.st, s.P
    before = costs(I, st, P)
    for _ in range(3):
        apply(s, 'UTM')
    after = costs(I, st, P)
    for k in LOCS:
        ang, a = penalty(I, st, s.cons[k][1])
        want = add(before[k], mul(a, sub(inv(mk('call', 'cos', ang)), ONE)))
        rep.equal('penalty everywhere: %s cost carries its own penalty once' % k, after[k], want, s.where)
        rep.equal('penalty everywhere: %s equality constraints stay' % k, clist(I, st, P, k), seq(s.cons[k][0]), s.where)
    note(rep, I)


def activator(prog, rep):
    s = setup(prog, {'path': 'u'})
    I, st, P = s.I, s.st, s.P
    empty(I, st, P, 'constants')
    apply(s, 'UTM')
    rep.check('penalty: an activator that is no constant of the problem is rejected',
              True if st.pc is FALSE and I.raises[-1] else None, 'completes', s.where)


def eps(prog, rep, nm, shape):
    """the bounded expression is one of three controls"""
    ccls = find_class(prog, CS, 'NamedDimensionalStruct')
    names = ['ctl_a', 'ctl_b', 'ctl_c', 'ctl_d']
    syms = [tm.mk('symbol', const(n)) for n in names]
    pos_of = {0: 1, 1: 2, 2: 0}
    s = setup(prog, {'path': shape}, lambda loc, k, i: syms[pos_of[i]] if loc == 'path' and k in 'tT' else None)
    I, st, P = s.I, s.st, s.P
    ctls = []
    for n, y in zip(names, syms):
        c = I.input_obj(n, ccls)
        st.heap[(c, 'sym')] = y
        st.heap[(c, 'name')] = const(n)
        ctls.append(c)
    st.heap[(I.read(st, P, 'controls'), '$')] = seq(*ctls)
    rec = []

    def subs_all(I, st, a, k):
        rec.append((I.reify(st, a[1]), I.reify(st, a[2]), I.read(st, I.read(st, P, 'cost'), 'path')))
        return a[0]
    I.intercepts['Problem.subs_all'] = subs_all
    maps = []
    I.intercepts['new:EpsTrigMapper'] = lambda I, st, a, k: (maps.append((a, k)), mk('sym', 'mapper', 'any'))[1]
    before = costs(I, st, P)
    s.where = where(prog, find_class(prog, MF, 'EpsTrig'))
    fn = functor(I, st, 'EpsTrig')
    transform(I, st, fn, P)
    note(rep, I)
    w = s.where
    got = clist(I, st, P, 'path')
    cands = [(i, c) for i, (c, k) in enumerate(zip(s.cons['path'], shape)) if k in 'tT']
    pick = [(i, c) for i, c in cands if got is seq(*[x for x in s.cons['path'] if x is not c])]
    if pick:
        rep.ok('%s: one trigonometric constraint is removed and the others stay' % nm, w)
    else:
        rep.equal('%s: one trigonometric constraint is removed and the others stay' % nm, got,
                  seq(*[x for x in s.cons['path'] if x is not cands[0][1]]), w)
        pick = cands
    i, c = pick[0]
    u, lo, hi, a = [I.read(st, c, k) for k in ('expr', 'lower', 'upper', 'activator')]
    j = pos_of[i]
    cl = plist(I, st, P, 'controls')
    new = at(cl, num(j))
    rep.equal('%s: every other control keeps its place' % nm, cl,
              seq(*[x if q != j else new for q, x in enumerate(ctls)]), w)
    nsym = I.read(st, new, 'sym')
    rep.holds('%s: the bounded control is replaced by a new variable' % nm, not_(or_(*[eq(nsym, y) for y in syms])), w)
    after = costs(I, st, P)
    want = sub(before['path'], mul(a, mk('call', 'cos', nsym)))
    rep.equal('%s: running cost gets minus the activator times the cosine of the new variable' % nm, after['path'], want, w)
    for k in ('initial', 'terminal'):
        rep.equal('%s: %s cost unchanged' % (nm, k), after[k], before[k], w)
    if len(rec) != 1:
        rep.check('%s: the control is substituted exactly once' % nm, False if not rec and st.pc is TRUE else None,
                  '%d substitutions' % len(rec), w)
        return
    old, expr, costthen = rec[0]
    rep.equal('%s: the substituted expression is the bounded control' % nm, old, u, w)
    rep.equal('%s: the control becomes the middle plus half the range times the sine' % nm, expr,
              add(mul(HALF, add(lo, hi)), mul(mul(HALF, sub(hi, lo)), mk('call', 'sin', nsym))), w)
    if len(maps) == 1:
        a_, k_ = maps[0]
        _, f = find_class(prog, TMAP, 'EpsTrigMapper').find('__init__')
        ps = [p.arg for p in f.args.args][1:]
        b = dict(zip(ps, a_))
        b.update(k_)
        if {'control_idx', 'lower_expr', 'upper_expr'} <= set(b):
            rep.equal('%s: the mapper works on that control' % nm, b['control_idx'], num(j), w)
            rep.equal('%s: the mapper uses the lower bound' % nm, b['lower_expr'], lo, w)
            rep.equal('%s: the mapper uses the upper bound' % nm, b['upper_expr'], hi, w)
        RS = lambda x: I.reify(st, I.V(st, x))
        for p, lst in (('state_syms', 'states'), ('parameter_syms', 'parameters'), ('constant_syms', 'constants')):
            if p in b:
                rep.equal('%s: the mapper binds the %s in the order of the problem' % (nm, lst), RS(b[p]),
                          RS(field(I, st, plist(I, st, P, lst), 'sym')), w)
        if 'ind_var_sym' in b:
            rep.equal('%s: the mapper binds the independent variable' % nm, RS(b['ind_var_sym']),
                      I.read(st, I.read(st, P, 'independent_variable'), 'sym'), w)
