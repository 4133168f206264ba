"""C02: after mapping, every column holds the quantity that the transformed problem has at that position."""
from .mapsc import *

EXPLANATION = ('Each transformation is applied abstractly to a symbolic problem; the component lists it leaves and the '
               'trajectory its mapper produces are compared position by position as value graphs.')


def run(prog, rep):
    rep.assumptions += ['trajectory arrays have the shapes of the problem they belong to']
    for name, f in SCEN.items():
        scenario(rep, name, lambda: f(prog, rep, name))


def fwd(s, rep, name):
    I, st = s.I, s.st
    if s.mapper is None:
        rep.undecided(name, 'no mapper registered', s.where)
        return None
    r = I.call_method(s.mapper, 'map', [s.sol], {}, st, None)
    note(rep, I)
    return r, where(s.prog, I.class_of(s.mapper))


def rowtab(s, row):
    k = fresh_bv()
    r = row(k)
    return None if r is None else tab(s.N, k, r)


def one_mapper(rep, s, name):
    rep.equal('%s: registers exactly one trajectory mapper' % name, s.added, ONE, s.where)


def momentum(prog, rep, name):
    s = base(prog)
    snap(s)
    traj(s)
    apply(s, 'MomentumShift')
    one_mapper(rep, s, name)
    I, st = s.I, s.st
    r = fwd(s, rep, name)
    if not r:
        return
    r, wh = r
    S1 = plist(I, st, s.P, 'states')
    rep.equal('%s: state columns follow the new state list' % name, tf(I, st, r, 'y'),
              rowtab(s, lambda k: lookup_row(s, S1, k)), wh)
    rep.equal('%s: the costate of time sits in the column of the time state' % name, tf(I, st, r, 'dual'),
              rowtab(s, lambda k: lookup_row(s, S1, k, dual=True)), wh)
    rep.equal('%s: the new state advances with unit rate' % name,
              field(I, st, S1, 'eom'), cat(field(I, st, s.S0, 'eom'), seq(ONE)), s.where)
    tv = I.read(st, I.read(st, s.P, 'independent_variable'), 'name')
    rep.holds('%s: the new independent variable has another name' % name, not_(eq(tv, s.tvn0)), s.where)
    for f in ('u', 'q', 'dynamical_parameters', 'const'):
        rep.equal('%s: %s unchanged' % (name, f), tf(I, st, r, f), arr(s.sol, f), wh)


def normtime(prog, rep, name):
    s = base(prog)
    snap(s)
    traj(s)
    apply(s, 'NormalizeTime')
    one_mapper(rep, s, name)
    I, st = s.I, s.st
    r = fwd(s, rep, name)
    if not r:
        return
    r, wh = r
    t = arr(s.sol, 't')
    dt = sub(at(t, num(-1)), at(t, ZERO))
    P1 = plist(I, st, s.P, 'parameters')
    n0 = slen(s.P0)
    # where does the new parameter sit among the parameters?
    want = None
    old = field(I, st, s.P0, 'sym')
    new = field(I, st, P1, 'sym')
    if old.op == 'seq' and new.op == 'seq' and len(new.args) == len(old.args) + 1:
        pv = arr(s.sol, 'dynamical_parameters')
        want = seq(*[at(pv, num(old.args.index(x))) if x in old.args else dt for x in new.args])
    elif new.op == 'cat' and new.args[0] is old and len(new.args) == 2 and new.args[1].op == 'seq' \
            and len(new.args[1].args) == 1:
        want = cat(arr(s.sol, 'dynamical_parameters'), seq(dt))
    elif new.op == 'cat' and new.args[-1] is old and new.args[0].op == 'seq' and len(new.args[0].args) == 1:
        want = cat(seq(dt), arr(s.sol, 'dynamical_parameters'))
    if want is None:
        rep.undecided('%s: parameter values follow the new parameter list' % name, 'parameter list shape', s.where)
    else:
        rep.equal('%s: parameter values follow the new parameter list' % name, tf(I, st, r, 'dynamical_parameters'),
                  want, wh)
    k = fresh_bv()
    rep.equal('%s: the normalised time runs over elapsed time / duration' % name, tf(I, st, r, 't'),
              tab(s.N, k, div(sub(at(t, k), at(t, ZERO)), dt)), wh)
    for f in ('y', 'u', 'q', 'dual', 'const'):
        rep.equal('%s: %s unchanged' % (name, f), tf(I, st, r, f), arr(s.sol, f), wh)


def diffctl(method):
    def go(prog, rep, name):
        s = base(prog, dualized=True)
        snap(s)
        traj(s)
        I, st = s.I, s.st
        if method == 'diffyg':
            I.intercepts['make_standard_symplectic_form'] = lambda I, st, a, k: I.new_list(
                st, mk('call', 'omega', I.reify(st, a[0])), 'matrix')
            I.intercepts['make_hamiltonian_vector_field'] = lambda I, st, a, k: I.new_list(st, mk('call', 'chi', a[0]))
        apply(s, 'DifferentialControlLaw', const(method))
        one_mapper(rep, s, name)
        r = fwd(s, rep, name)
        if not r:
            return
        r, wh = r
        S1 = plist(I, st, s.P, 'states')
        k = fresh_bv()
        nm = cat(field(I, st, s.S0, 'name'), field(I, st, s.U0, 'name'))
        # the former controls are states now, and the columns are in that order
        rep.equal('%s: every control became a state' % name, field(I, st, S1, 'name'), nm, s.where)
        rep.equal('%s: state columns follow the new state list' % name, tf(I, st, r, 'y'),
                  rowtab(s, lambda k: cat(at(arr(s.sol, 'y'), k), at(arr(s.sol, 'u'), k))), wh)
        rep.equal('%s: no control is left' % name, slen(plist(I, st, s.P, 'controls')), ZERO, s.where)
        for f in ('t', 'q', 'dynamical_parameters', 'const'):
            rep.equal('%s: %s unchanged' % (name, f), tf(I, st, r, f), arr(s.sol, f), wh)
        if method == 'traditional':
            rep.equal('%s: dual unchanged' % name, tf(I, st, r, 'dual'), arr(s.sol, 'dual'), wh)
        else:
            n = slen(s.U0)
            rep.equal('%s: one new costate column per control' % name, tf(I, st, r, 'dual'),
                      rowtab(s, lambda k: cat(at(arr(s.sol, 'dual'), k), rows(n, lambda j: ZERO))), wh)
    return go


def squash(prog, rep, name):
    s = base(prog, dualized=True)
    snap(s)
    I, st = s.I, s.st
    cp, ca = plist(I, st, s.P, 'constraint_parameters'), plist(I, st, s.P, 'constraint_adjoints')
    cop = plist(I, st, s.P, 'coparameters')
    traj(s, dual=slen(s.C0), nondynamical_parameters=add(slen(cp), slen(ca)))
    apply(s, 'SquashToBVP')
    one_mapper(rep, s, name)
    r = fwd(s, rep, name)
    if not r:
        return
    r, wh = r
    asm = (pos(s.N),)
    rep.equal('%s: states become states then costates' % name, plist(I, st, s.P, 'states'), cat(s.S0, s.C0), s.where)
    rep.equal('%s: quadratures become quadratures then coparameters' % name, plist(I, st, s.P, 'quads'),
              cat(s.Q0, cop), s.where)
    rep.equal('%s: constraint parameters become constraint parameters then multipliers' % name,
              plist(I, st, s.P, 'constraint_parameters'), cat(cp, ca), s.where)
    for f in ('costates', 'coparameters', 'constraint_adjoints'):
        rep.equal('%s: no %s left' % (name, f), slen(plist(I, st, s.P, f)), ZERO, s.where)
    rep.equal('%s: state columns follow the new state list' % name, tf(I, st, r, 'y'),
              rowtab(s, lambda k: cat(at(arr(s.sol, 'y'), k), at(arr(s.sol, 'dual'), k))), wh, asm)
    for f in ('t', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        rep.equal('%s: %s unchanged' % (name, f), tf(I, st, r, f), arr(s.sol, f), wh)
    # backwards: the multipliers are dropped, the user's constraint parameters stay
    b = I.call_method(s.mapper, 'inv_map', [r], {}, st, None)
    rep.equal('%s: the way back keeps exactly the constraint parameters' % name,
              tf(I, st, b, 'nondynamical_parameters'),
              slice_(arr(s.sol, 'nondynamical_parameters'), ZERO, slen(cp)), wh, asm)


def dual(prog, rep, name):
    s = base(prog)
    empty(s.I, s.st, s.P, 'costates', 'coparameters', 'constraint_adjoints')
    snap(s)
    traj(s, nondynamical_parameters=None)
    apply(s, 'Dualize')
    one_mapper(rep, s, name)
    I, st = s.I, s.st
    r = fwd(s, rep, name)
    if not r:
        return
    r, wh = r
    rep.equal('%s: one initial multiplier value per boundary constraint' % name,
              slen(tf(I, st, r, 'nondynamical_parameters')), slen(plist(I, st, s.P, 'constraint_adjoints')), wh)
    for f in ('t', 'y', 'q', 'u', 'dual', 'dynamical_parameters', 'const'):
        rep.equal('%s: %s unchanged' % (name, f), tf(I, st, r, f), arr(s.sol, f), wh)


SCEN = {
    'momentum shift': momentum,
    'time normalisation': normtime,
    'differential control': diffctl('traditional'),
    'differential control (geometric)': diffctl('diffyg'),
    'squash to BVP': squash,
    'dualization': dual,
}
