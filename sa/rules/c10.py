"""C10: a continuation step moves every named constant from its present value to its target on the stated grid."""
from ..common import *

CT = 'beluga.continuation.continuation'
EXPLANATION = ('The continuation strategies are run abstractly: initialisation, one arbitrary step of the iteration '
               '(inductive in the step counter) and the end of the iteration, for any number of cases, any constants '
               'and any values; the constants of every produced guess are compared with the grid in closed form.')
CNAMES = ('a', 'b', 'c', 'd')


def run(prog, rep):
    rep.assumptions += ['numpy.linspace/logspace yield the uniform (geometric) grid']
    for spacing in ('linear', 'log'):
        scenario(rep, 'manual %s' % spacing, lambda: manual(prog, rep, spacing))
        scenario(rep, 'bisection %s' % spacing, lambda: bisect(prog, rep, spacing))
    for n in (2, 3):
        scenario(rep, 'product %d' % n, lambda: product(prog, rep, n))
    scenario(rep, 'sparse', lambda: sparse(prog, rep))
    scenario(rep, 'names', lambda: unknown(prog, rep))
    scenario(rep, 'reuse', lambda: reuse(prog, rep))
    scenario(rep, 'list of steps', lambda: add_steps(prog, rep))
    scenario(rep, 'separate steps', lambda: separate(prog, rep))
    for spacing in ('linear', 'log'):
        scenario(rep, 'divisions %s' % spacing, lambda: divisions(prog, rep, spacing))


class S:
    pass


def setup(prog, cls, *args, **kw):
    s = S()
    s.prog = prog
    I = s.I = interp(prog)
    st = s.st = State()
    I.attrcls[('ContinuationStrategy', 'gammas')] = 'list'
    s.P = problem(I, st)
    ks = []
    for n in CNAMES:
        c = I.input_obj('const_' + n, find_class(prog, CS, 'Constant'))
        st.heap[(c, 'name')] = const(n)
        ks.append(c)
    st.heap[(I.read(st, s.P, 'constants'), '$')] = seq(*ks)
    s.sol = trajectory(I, st, 'start', const=num(4))
    s.k0 = [sym('k0_' + n, 'real') for n in CNAMES]
    st.heap[(mk('attr', 'const', s.sol), '$')] = seq(*s.k0)
    s.cls = find_class(prog, CT, cls)
    s.w = where(prog, s.cls)
    s.step = I.instantiate(s.cls, list(args), kw, st, None)
    return s


def target(s, name):
    t = sym('target_' + name, 'real')
    f = s.I.read(s.st, s.step, 'const')
    s.I.call(f, [const(name), t], {}, s.st, None)
    return t


def call(s, m, *a, **kw):
    return s.I.call_method(s.step, m, list(a), kw, s.st, None)


def solved(s, name, conv=True):
    """a result trajectory handed back by the solver"""
    I, st = s.I, s.st
    r = trajectory(I, st, name, const=num(4))
    st.heap[(mk('attr', 'const', r), '$')] = seq(*[sym('%s_%s' % (name, n), 'real') for n in CNAMES])
    st.heap[(r, 'converged')] = TRUE if conv else FALSE
    return r


def kconst(s, g):
    return s.I.reify(s.st, s.I.V(s.st, s.I.read(s.st, g, 'const')))


def grid(v, t, k, n, spacing):
    """k-th of n points from v to t"""
    from ..lib import fn1
    if spacing == 'linear':
        return add(v, mul(k, tm.div(sub(t, v), sub(n, ONE))))
    l = lambda x: log10(x)
    return tm.power(num(10), add(l(v), mul(k, tm.div(sub(l(t), l(v)), sub(n, ONE)))))


def log10(x):
    from ..lib import fn1
    return fn1('log10')(x)


def prime(s, k, spacing=None):
    """the strategy in the middle of the iteration: k steps done, the last one converged"""
    I, st = s.I, s.st
    last = solved(s, 'last')
    g = I.V(st, I.read(st, s.step, 'gammas'))
    st.heap[(I.read(st, s.step, 'gammas'), '$')] = cat(g, seq(last))
    st.heap[(s.step, 'ctr')] = k
    return last


def manual(prog, rep, spacing):
    n = add(sym('n', 'nat'), num(2))
    for order in (('c', 'a'), ('a', 'd')):
        nm = 'manual %s %s' % (spacing, '/'.join(order))
        s = setup(prog, 'ManualStrategy')
        I, st = s.I, s.st
        T = {x: target(s, x) for x in order}
        call(s, 'num_cases', n, spacing=const(spacing))
        call(s, 'reset')
        call(s, 'init', s.sol, s.P)
        note(rep, I)
        rep.equal('%s: number of cases' % nm, I.V(st, call(s, 'num_cases')), n, s.w)
        # first step
        g = call(s, 'next')
        want = [grid(s.k0[CNAMES.index(x)], T[x], ZERO, n, spacing) if x in T else s.k0[i]
                for i, x in enumerate(CNAMES)]
        rep.equal('%s: the first guess has the constants of the starting solution' % nm, kconst(s, g), seq(*want), s.w)
        rep.equal('%s: the counter advances' % nm, I.V(st, I.read(st, s.step, 'ctr')), ONE, s.w)
        # arbitrary step
        s = setup(prog, 'ManualStrategy')
        I, st = s.I, s.st
        T = {x: target(s, x) for x in order}
        call(s, 'num_cases', n, spacing=const(spacing))
        call(s, 'reset')
        call(s, 'init', s.sol, s.P)
        k = add(sym('k', 'nat'), ONE)
        prime(s, k)
        st.pc = and_(st.pc, lt(k, n))
        n0 = len(I.raises[-1]) if I.raises else 0
        g = call(s, 'next')
        note(rep, I)
        got = kconst(s, g)
        for i, x in enumerate(CNAMES):
            e = grid(s.k0[i], T[x], k, n, spacing) if x in T else sym('last_' + x, 'real')
            rep.equal('%s: constant %s at step k' % (nm, x), at(got, num(i)), e, s.w, assume=(lt(k, n),))
        rep.equal('%s: step k advances the counter by one' % nm, I.V(st, I.read(st, s.step, 'ctr')), add(k, ONE), s.w,
                  assume=(lt(k, n),))
        for x in T:
            rep.equal('%s: the grid ends at the target of %s' % (nm, x),
                      grid(s.k0[CNAMES.index(x)], T[x], sub(n, ONE), n, spacing) if spacing == 'linear' else T[x],
                      T[x], s.w)


        # past the last step
        s = fresh(prog, order, n, spacing)
        prime(s, n)
        rejects(rep, '%s: after the last case the iteration stops' % nm, s.I, s.st, lambda: call(s, 'next'), s.w,
                'StopIteration')
        # a failed step
        s = fresh(prog, order, n, spacing)
        I, st = s.I, s.st
        k = add(sym('k', 'nat'), ONE)
        last = prime(s, k)
        st.heap[(last, 'converged')] = FALSE
        rejects(rep, '%s: a step that did not converge stops the continuation' % nm, I, st, lambda: call(s, 'next'),
                s.w, 'RuntimeError')


def fresh(prog, order, n, spacing, cls='ManualStrategy', **kw):
    s = setup(prog, cls, **kw)
    s.T = {x: target(s, x) for x in order}
    call(s, 'num_cases', n, spacing=const(spacing))
    call(s, 'reset')
    call(s, 'init', s.sol, s.P)
    return s


def between(a, b, j, n, spacing):
    return grid(a, b, j, n, spacing)


def bisect(prog, rep, spacing):
    """a failed step is retried from halfway, the grid keeps every old point and ends where it did"""
    n = add(sym('n', 'nat'), num(2))
    order = ('c', 'a')
    for div in (2, 3):
        nm = 'bisection into %d, %s' % (div, spacing)
        kw = dict(num_divisions=num(div)) if div != 2 else {}
        s = fresh(prog, order, n, spacing, 'BisectionStrategy', **kw)
        I, st = s.I, s.st
        rep.equal('%s: number of cases' % nm, I.V(st, call(s, 'num_cases')), n, s.w)
        k = add(sym('k', 'nat'), num(2))
        last = prime(s, k)
        st.heap[(last, 'converged')] = FALSE
        A = (not_(lt(n, k)),)
        st.pc = and_(st.pc, A[0])
        km1, km2 = sub(k, ONE), sub(k, num(2))

        def point(x, j):
            """j-th of the points between the last good case and the failed one, then the grid goes on"""
            i = CNAMES.index(x)
            a, b = [grid(s.k0[i], s.T[x], q, n, spacing) for q in (km2, km1)]
            if j < div:
                return grid(a, b, num(j), num(div + 1), spacing)
            if j == div:
                return b
            return grid(s.k0[i], s.T[x], add(km1, num(j - div)), n, spacing)
        prev = 'last'
        for j in range(1, div + 2):
            if j == div + 1:
                A += (lt(k, n),)
                st.pc = and_(st.pc, A[1])
            g = call(s, 'next')
            note(rep, I)
            got = kconst(s, g)
            tag = 'intermediate point %d' % j if j < div else ('failed case again' if j == div else 'case after it')
            for i, x in enumerate(CNAMES):
                e = point(x, j) if x in s.T else sym('%s_%s' % (prev, x), 'real')
                rep.equal('%s: after a failure, %s: constant %s' % (nm, tag, x), at(got, num(i)), e, s.w, assume=A)
            prev = 'again%d' % j
            call(s, 'add_gamma', solved(s, prev))
        rep.equal('%s: the number of cases grows by the inserted points' % nm, I.V(st, call(s, 'num_cases')),
                  add(n, num(div - 1)), s.w, assume=A)
    # the very first case failing, or too many divisions, ends the continuation
    s = fresh(prog, order, n, spacing, 'BisectionStrategy')
    call(s, 'next')
    call(s, 'add_gamma', solved(s, 'bad', False))
    rejects(rep, 'bisection %s: a first case that does not converge is an error' % spacing, s.I, s.st,
            lambda: call(s, 'next'), s.w, 'RuntimeError')
    s = fresh(prog, order, n, spacing, 'BisectionStrategy', max_divisions=num(1))
    call(s, 'next')
    call(s, 'add_gamma', solved(s, 'good'))
    call(s, 'next')
    for j in range(2):
        call(s, 'add_gamma', solved(s, 'bad%d' % j, False))
        call(s, 'next')
    call(s, 'add_gamma', solved(s, 'bad2', False))
    rejects(rep, 'bisection %s: the number of successive divisions is limited' % spacing, s.I, s.st,
            lambda: call(s, 'next'), s.w, 'RuntimeError')


def iterate(s, m, tag='it', guesses=None):
    """constants of the next m guesses, every one of them solved"""
    out = []
    for j in range(m):
        g = call(s, 'next')
        if g is None or s.st.pc is FALSE:
            break
        if guesses is not None:
            guesses.append(tf(s.I, s.st, g, 'y'))
        out.append(kconst(s, g))
        r = solved(s, '%s%d' % (tag, j))
        # the solver keeps the constants it was given
        s.st.heap[(mk('attr', 'const', r), '$')] = out[-1]
        call(s, 'add_gamma', r)
    return out


def lin(v, t, j, n):
    return v if j == 0 else grid(v, t, num(j), num(n), 'linear')


def prep(prog, cls, order, sub):
    s = setup(prog, cls)
    s.T = {x: target(s, x) for x in order}
    call(s, 'num_subdivisions', sub)
    call(s, 'reset')
    call(s, 'init', s.sol, s.P)
    return s


def whole(s, order, pts):
    """full constant vectors for points given per continued constant"""
    out = []
    for p in pts:
        d = dict(zip(order, p))
        out.append(seq(*[d.get(x, s.k0[i]) for i, x in enumerate(CNAMES)]))
    return out


def product(prog, rep, n):
    import itertools
    for order in (('c',), ('c', 'a'), ('b', 'a', 'd')):
        nm = 'product space of %d constants, %d values each' % (len(order), n)
        s = prep(prog, 'ProductStrategy', order, num(n))
        I, st = s.I, s.st
        m = n ** len(order)
        rep.equal('%s: number of cases' % nm, I.V(st, call(s, 'num_cases')), num(m), s.w)
        got = iterate(s, m)
        note(rep, I)
        rep.equal('%s: all cases are visited' % nm, num(len(got)), num(m), s.w)
        if len(got) != m:
            continue
        pts = list(itertools.product(*[[lin(s.k0[CNAMES.index(x)], s.T[x], j, n) for j in range(n)] for x in order]))
        want = whole(s, order, pts)
        rep.equal_bag('%s: every combination is visited exactly once' % nm, seq(*got), seq(*want), s.w)
        rep.equal('%s: the first case has the present constants' % nm, got[0], seq(*s.k0), s.w)
        rejects(rep, '%s: then the iteration stops' % nm, I, st, lambda: call(s, 'next'), s.w, 'StopIteration')
    s = prep(prog, 'ProductStrategy', ('c', 'a'), num(n))
    call(s, 'next')
    call(s, 'add_gamma', solved(s, 'bad', False))
    rejects(rep, 'product space, %d values: a first case that does not converge is an error' % n, s.I, s.st,
            lambda: call(s, 'next'), s.w, 'RuntimeError')


def sparse(prog, rep):
    import itertools
    for order, major, minor in ((('c',), (3,), (1,)), (('d',), (3,), (3,)), (('c', 'a'), (2, 2), (0, 0)), (('c', 'a'), (3, 2), (1, 2)),
                                (('b', 'a', 'd'), (2, 2, 2), (0, 1, 0))):
        nm = 'sparse product %s, %s+%s' % ('/'.join(order), major, minor)
        tp = lambda v: tup(*[num(x) for x in v])
        s = prep(prog, 'SparseProductStrategy', order, tup(tp(major), tp(minor)))
        I, st = s.I, s.st
        lo = [s.k0[CNAMES.index(x)] for x in order]
        hi = [s.T[x] for x in order]
        axes = [[lin(lo[i], hi[i], j, major[i]) for j in range(major[i])] for i in range(len(order))]
        pts = list(itertools.product(*axes))
        for i in range(len(order)):
            # intermediate points along variable i, earlier ones on their grid, later ones at the start
            for head in itertools.product(*axes[:i]):
                for j in range(major[i] - 1):
                    a, b = axes[i][j], axes[i][j + 1]
                    for q in range(1, minor[i] + 1):
                        v = add(a, mul(num(q), tm.div(sub(b, a), num(minor[i] + 1))))
                        pts.append(head + (v,) + tuple(lo[i + 1:]))
        want = whole(s, order, pts)
        rep.equal('%s: number of cases' % nm, I.V(st, call(s, 'num_cases')), num(len(want)), s.w)
        got = iterate(s, len(want))
        note(rep, I)
        rep.equal('%s: all cases are visited' % nm, num(len(got)), num(len(want)), s.w)
        if len(got) != len(want):
            continue
        rep.equal_bag('%s: every grid point and every intermediate point is visited exactly once' % nm, seq(*got),
                      seq(*want), s.w)
        rep.equal('%s: the first case has the present constants' % nm, got[0], seq(*s.k0), s.w)
        if len(order) == 1:
            m = major[0] * (minor[0] + 1) - minor[0]
            rep.equal('%s: the points are visited from the present value to the target' % nm, seq(*got),
                      seq(*whole(s, order, [(lin(lo[0], hi[0], j, m),) for j in range(m)])), s.w)
        rejects(rep, '%s: then the iteration stops' % nm, I, st, lambda: call(s, 'next'), s.w, 'StopIteration')


def unknown(prog, rep):
    for cls in ('ManualStrategy', 'BisectionStrategy', 'ProductStrategy', 'SparseProductStrategy'):
        s = setup(prog, cls)
        target(s, 'nothing')
        rejects(rep, '%s: a name that is no constant is rejected' % cls, s.I, s.st,
                lambda: call(s, 'init', s.sol, s.P), s.w)


def reuse(prog, rep):
    """running the same step object again starts from the solution it is given then"""
    for cls in ('ManualStrategy', 'BisectionStrategy', 'ProductStrategy', 'SparseProductStrategy'):
        s = setup(prog, cls)
        I, st = s.I, s.st
        T = {x: target(s, x) for x in ('c', 'a')}
        if cls in ('ManualStrategy', 'BisectionStrategy'):
            call(s, 'num_cases', num(3))
        elif cls == 'ProductStrategy':
            call(s, 'num_subdivisions', num(2))
        else:
            call(s, 'num_subdivisions', tup(tup(num(2), num(2)), tup(ZERO, ZERO)))
        call(s, 'reset')
        call(s, 'init', s.sol, s.P)
        n1 = I.V(st, call(s, 'num_cases'))
        if n1.op != 'num':
            rep.undecided('%s: reuse' % cls, 'number of cases', s.w)
            continue
        done = iterate(s, int(n1.args[0]))
        rep.equal('%s: it visits all its cases' % cls, num(len(done)), n1, s.w)
        if num(len(done)) is not n1:
            continue
        new = trajectory(I, st, 'second', const=num(4))
        k1 = [sym('k1_' + n, 'real') for n in CNAMES]
        st.heap[(mk('attr', 'const', new), '$')] = seq(*k1)
        call(s, 'reset')
        call(s, 'init', new, s.P)
        rep.equal('%s: same number of cases when run again' % cls, I.V(st, call(s, 'num_cases')), n1, s.w)
        g0 = len(st.heap) and tf(I, st, new, 'y')
        first = []
        got = iterate(s, int(n1.args[0]), 'again', first)
        rep.equal('%s: run again, it visits all its cases' % cls, num(len(got)), n1, s.w)
        if num(len(got)) is not n1:
            continue
        rep.equal('%s: run again, the first guess is the solution it is given' % cls, first[0], g0, s.w)
        rep.equal('%s: run again, it starts at the constants it is given' % cls, got[0], seq(*k1), s.w)
        want = seq(*[T.get(x, k1[i]) for i, x in enumerate(CNAMES)])
        rep.equal('%s: run again, it ends at the targets' % cls, got[-1], want, s.w)
        rep.equal('%s: the given solution keeps its constants' % cls, kconst(s, new), seq(*k1), s.w)
        rejects(rep, '%s: run again, it stops after the last case' % cls, I, st, lambda: call(s, 'next'), s.w,
                'StopIteration')


NAMED = (('manual', 'ManualStrategy'), ('bisection', 'BisectionStrategy'), ('productspace', 'ProductStrategy'),
         ('sparse_product', 'SparseProductStrategy'))


def steplist(prog):
    I = interp(prog)
    st = State()
    cls = find_class(prog, CT, 'ContinuationList')
    return I, st, I.instantiate(cls, [], {}, st, None), where(prog, cls)


def add_steps(prog, rep):
    """steps are kept in the order they are added, each of the kind asked for"""
    I, st, L, w = steplist(prog)
    want = []
    for nm, cls in NAMED + NAMED[::-1]:
        kw = {'num_divisions': num(3)} if nm == 'bisection' else {'num_cases': num(7)} if nm == 'manual' else {}
        o = I.call_method(L, 'add_step', [const(nm)], kw, st, None)
        c = I.class_of(o)
        rep.check('a %s step is of the right kind' % nm, getattr(c, 'name', None) == cls if c is not None else None,
                  'made a %s' % getattr(c, 'name', c), w)
        for a, v in kw.items():
            got = I.V(st, I.call_method(o, 'num_cases', [], {}, st, None)) if a == 'num_cases' else I.read(st, o, a)
            rep.equal('a %s step gets its arguments (%s)' % (nm, a), got, v, w)
        want.append(o)
    o = I.call_method(L, 'add_step', [], {}, st, None)
    c = I.class_of(o)
    rep.check('a step is manual by default', getattr(c, 'name', None) == 'ManualStrategy' if c is not None else None,
              'made a %s' % getattr(c, 'name', c), w)
    want.append(o)
    own = I.instantiate(find_class(prog, CT, 'ProductStrategy'), [], {}, st, None)
    o = I.call_method(L, 'add_step', [own], {}, st, None)
    rep.equal('a step object is added itself', o, own, w)
    want.append(own)
    rep.equal('the steps are kept in the order they are added', I.read(st, L, '$', EMPTY), seq(*want), w)
    note(rep, I)
    rejects(rep, 'an unknown kind of step is rejected', I, st,
            lambda: I.call_method(L, 'add_step', [const('nothing')], {}, st, None), w, 'ValueError')
    if all(I.class_of(x) is not None for x in want):
        rep.equal('two steps are two objects', num(len({id(I.V(st, x)) for x in want})), num(len(want)), w)


def separate(prog, rep):
    """a constant set on one step is not continued in another"""
    for nm, cls in NAMED:
        s = setup(prog, cls)
        I, st = s.I, s.st
        one = s.step
        Ta = target(s, 'a')
        s.step = I.instantiate(s.cls, [], {}, st, None)
        Tc = target(s, 'c')
        if cls in ('ManualStrategy', 'BisectionStrategy'):
            call(s, 'num_cases', num(3))
            m = 3
        elif cls == 'ProductStrategy':
            call(s, 'num_subdivisions', num(3))
            m = 3
        else:
            call(s, 'num_subdivisions', tup(tup(num(2)), tup(num(1))))
            m = 3
        call(s, 'reset')
        call(s, 'init', s.sol, s.P)
        n1 = I.V(st, call(s, 'num_cases'))
        rep.equal('%s: two steps are separate: number of cases' % cls, n1, num(m), s.w)
        if n1 is not num(m):
            continue
        got = iterate(s, m)
        want = [seq(s.k0[0], s.k0[1], lin(s.k0[2], Tc, j, m), s.k0[3]) for j in range(m)]
        rep.equal('%s: only the constants set on a step are continued in it' % cls, seq(*got), seq(*want), s.w)
        note(rep, I)


def divisions(prog, rep, spacing):
    """only successive divisions count towards the limit"""
    n = 6
    s = fresh(prog, ('c',), num(n), spacing, 'BisectionStrategy', max_divisions=num(1))
    I, st = s.I, s.st
    call(s, 'next')
    call(s, 'add_gamma', solved(s, 'first'))
    call(s, 'next')
    for j in range(4):
        call(s, 'add_gamma', solved(s, 'bad%d' % j, False))
        call(s, 'next')
        call(s, 'add_gamma', solved(s, 'mid%d' % j))
        call(s, 'next')
    note(rep, I)
    rep.equal('bisection %s: a case that converges after a division lets later ones be divided again' % spacing,
              st.pc, TRUE, s.w)
