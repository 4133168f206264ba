"""C11: the continuation driver solves every case in order and returns every result."""
from .c10 import *

EXPLANATION = ('The continuation driver is run abstractly with real strategy objects and a solver that returns arbitrary '
               'trajectories; the sequence of problems handed to the solver, the chaining between cases and steps, '
               'the scaling around each solve and the returned set are compared with the specification.')


OWN = {'call:factors', 'call:scale', 'call:unscale'}


def run(prog, rep):
    rep.own |= OWN
    rep.assumptions += ['the boundary-value solver is an arbitrary function of the guess it is given']
    for conv in (True, False):
        scenario(rep, 'guess %s' % conv, lambda: given_guess(prog, rep, conv))
    for auto in (True, False):
        a = 'scaled' if auto else 'unscaled'
        scenario(rep, 'no steps, no success ' + a, lambda: nosteps(prog, rep, a, auto, False))
        scenario(rep, 'choice ' + a, lambda: choice(prog, rep, a, auto))
        scenario(rep, 'no steps ' + a, lambda: nosteps(prog, rep, a, auto))
        for cls in ('ManualStrategy', 'BisectionStrategy'):
            scenario(rep, '%s %s' % (cls, a), lambda: chain(prog, rep, cls, a, auto))
            scenario(rep, 'failing %s %s' % (cls, a), lambda: failing(prog, rep, cls, a, auto))
            scenario(rep, 'guesses %s %s' % (cls, a), lambda: guesses(prog, rep, cls, a, auto))


FUN = {'derivative_function': 'deriv_func', 'derivative_function_jac': 'deriv_func_jac',
       'quadrature_function': 'quad_func', 'boundarycondition_function': 'bc_func',
       'boundarycondition_function_jac': 'bc_func_jac', 'inequality_constraint_function': 'ineq_constraints'}


SCALED = ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters')


def sc(kind, x, F):
    other = 'unscale' if kind == 'scale' else 'scale'
    if x.op == 'call' and x.args[0] == other and x.args[2] is F:
        return x.args[1]
    return mk('call', kind, x, F)


def driver(prog, cls='ManualStrategy'):
    s = setup(prog, cls)
    I, st = s.I, s.st
    acls = find_class(prog, 'beluga.numeric.bvp_solvers.BaseAlgorithm', 'BaseAlgorithm')
    s.alg = I.instantiate(acls, [], {}, st, None)
    s.fp = I.input_obj('numeric', find_class(prog, NP, 'NumericProblem'))
    st.heap[(s.P, 'functional_problem')] = s.fp
    for f in FUN.values():
        st.heap[(s.fp, f)] = mk('mod', 'verif.' + f)
        I.intercepts['verif.' + f] = lambda I, st, a, k: sym('residuals')
    s.log = []
    s.conv = []

    def solve(I, st, a, k):
        g = a[1]
        i = len(s.log)
        r = trajectory(I, st, 'result%d' % i, const=num(4))
        c = s.conv[i] if i < len(s.conv) else True
        st.heap[(r, 'converged')] = TRUE if c else FALSE
        st.heap[(mk('attr', 'const', r), '$')] = kconst_(I, st, g)
        d = {f: tf(I, st, g, f) for f in SCALED}
        d['const'] = kconst_(I, st, g)
        d['pool'] = k.get('pool', a[2] if len(a) > 2 else NONE)
        d['fun'] = {f: I.read(st, a[0], f) for f in FUN}
        s.log.append((d, r))
        from .c08 import dict_
        return dict_(I, st, {'sol': r, 'niter': num(1)})
    I.intercepts['BaseAlgorithm.solve'] = solve

    def bar(I, st, a, k):
        """a progress bar: iterates over what it is given, the rest is display"""
        for m in ('refresh', 'close', 'update', 'set_description', 'set_description_str', 'set_postfix', 'write'):
            st.heap[(a[0], m)] = mk('mod', 'verif.display')
        return a[0]
    I.intercepts['tqdm.tqdm'] = bar
    I.intercepts['verif.display'] = lambda I, st, a, k: NONE

    def factors(I, st, a, k):
        return mk('call', 'factors', tf(I, st, a[0], 'y'), tf(I, st, a[0], 't'), kconst_(I, st, a[0]))

    def scale(I, st, a, k):
        inv = k.get('inv', a[2] if len(a) > 2 else FALSE)
        kind = 'unscale' if inv is TRUE else 'scale'
        r = I.copy_value(st, a[0], True)
        for f in SCALED:
            v = sc(kind, tf(I, st, a[0], f), a[1])
            tm.LEN_AX[v] = sym('N', 'nat')
            I.ranks[v] = 2 if f in MATS else 1
            st.heap[(r, f)] = I.new_array(st, v)
        k = kconst_(I, st, a[0])
        st.heap[(r, 'const')] = I.new_array(st, seq(*[sc(kind, x, a[1]) for x in k.args]))
        return r
    I.intercepts['verif.scale'] = scale
    I.intercepts['verif.factors'] = factors
    st.heap[(s.fp, 'scale_sol')] = mk('mod', 'verif.scale')
    st.heap[(s.fp, 'compute_scale_factors')] = mk('mod', 'verif.factors')
    return s


def kconst_(I, st, g):
    return I.reify(st, I.V(st, I.read(st, g, 'const')))


def run_(s, steps, auto):
    I, st = s.I, s.st
    f = I.module_name(CT, 'run_continuation_set', st)
    s.w2 = where(s.prog, f.args[0]) if f is not None and f.op == 'fn' else CT
    s.pool = sym('pool')
    return I.call(f, [s.alg, steps, s.sol, s.P, s.pool, TRUE if auto else FALSE], {}, st, None)


def expect_case(rep, s, nm, i, given, k, auto):
    """case i hands the solver the guess `given` (fields) with constants k"""
    d, r = s.log[i]
    F = mk('call', 'factors', given['y'], given['t'], k)
    for f in SCALED:
        if given.get(f) is None:
            continue
        rep.equal('%s: case %d starts from the right trajectory (%s)' % (nm, i + 1, f), d[f],
                  sc('scale', given[f], F) if auto else given[f], s.w2)
    rep.equal('%s: case %d has the right constants' % (nm, i + 1), d['const'],
              seq(*[sc('scale', x, F) for x in k.args]) if auto else k, s.w2)
    rep.equal('%s: case %d gets the process pool' % (nm, i + 1), d['pool'], s.pool, s.w2)
    for f, src in FUN.items():
        rep.equal('%s: case %d solves the compiled problem (%s)' % (nm, i + 1, f), d['fun'][f],
                  mk('mod', 'verif.' + src), s.w2)
    # the fields of the result as the user's units have them
    out = {f: (sc('unscale', arr(r, f), F) if auto else arr(r, f)) for f in SCALED}
    out['const'] = k
    return out


def fields(s, g):
    I, st = s.I, s.st
    d = {f: tf(I, st, g, f) for f in SCALED}
    d['const'] = kconst_(I, st, g)
    return d


def compare(rep, s, nm, g, want, conv):
    got = fields(s, g)
    for f in SCALED + ('const',):
        rep.equal('%s (%s)' % (nm, f), got[f], want[f], s.w2)
    rep.equal('%s keeps the solver\'s convergence flag' % nm, s.I.read(s.st, g, 'converged'),
              TRUE if conv else FALSE, s.w2)


def given_guess(prog, rep, conv):
    """whatever flag the given guess carries, it is only used until a case has converged"""
    for cls in ('ManualStrategy', 'BisectionStrategy', 'ProductStrategy', 'SparseProductStrategy'):
        nm = '%s, guess flagged %s' % (cls, 'converged' if conv else 'not converged')
        s = setup(prog, cls)
        I, st = s.I, s.st
        st.heap[(s.sol, 'converged')] = TRUE if conv else FALSE
        T = target(s, 'c')
        if cls in ('ManualStrategy', 'BisectionStrategy'):
            call(s, 'num_cases', num(3))
        elif cls == 'ProductStrategy':
            call(s, 'num_subdivisions', num(3))
        else:
            call(s, 'num_subdivisions', tup(tup(num(3)), tup(ZERO)))
        call(s, 'reset')
        call(s, 'init', s.sol, s.P)
        g = call(s, 'next')
        for f in ('t', 'y', 'dynamical_parameters'):
            rep.equal('%s: the first case starts from it (%s)' % (nm, f), tf(I, st, g, f), arr(s.sol, f), s.w)
        r = solved(s, 'res')
        st.heap[(mk('attr', 'const', r), '$')] = kconst(s, g)
        call(s, 'add_gamma', r)
        I.expand_arg = True
        g = call(s, 'next')
        note(rep, I)
        far = num(9 * 10 ** 99)
        d = sum_abs(kconst(s, r), kconst(s, g))
        for f in ('t', 'y', 'dynamical_parameters'):
            rep.equal('%s: the second case starts from the first solution (%s)' % (nm, f), tf(I, st, g, f), arr(r, f), s.w,
                      assume=(lt(d, far),))
        rep.equal('%s: its flag is left alone' % nm, I.read(st, s.sol, 'converged'), TRUE if conv else FALSE, s.w)


def nosteps(prog, rep, nm, auto, ok=True):
    nm = 'no continuation, ' + nm + ('' if ok else ', no success')
    s = driver(prog)
    s.conv = [ok]
    I, st = s.I, s.st
    b4 = fields(s, s.sol)
    r = run_(s, NONE, auto)
    note(rep, I)
    rep.equal('%s: one problem is solved' % nm, num(len(s.log)), ONE, s.w2)
    if len(s.log) != 1:
        return
    want = expect_case(rep, s, nm, 0, b4, b4['const'], auto)
    out = I.V(st, r)
    if not (out.op == 'seq' and len(out.args) == 1):
        rep.undecided('%s: shape of the result' % nm, show(out)[:200], s.w2)
        return
    inner = I.V(st, out.args[0])
    if not (inner.op == 'seq' and len(inner.args) == 1):
        rep.undecided('%s: shape of the result' % nm, show(inner)[:200], s.w2)
        return
    compare(rep, s, '%s: the result' % nm, inner.args[0], want, ok)


def chain(prog, rep, cls, nm, auto):
    """two steps of three and two cases"""
    nm = '%s, %s' % (cls, nm)
    s = driver(prog, cls)
    I, st = s.I, s.st
    Tc = target(s, 'c')
    call(s, 'num_cases', num(3))
    one = s.step
    s.step = I.instantiate(s.cls, [], {}, st, None)
    Ta = target(s, 'a')
    call(s, 'num_cases', num(2))
    two = s.step
    steps = I.new_list(st, seq(one, two)) if hasattr(I, 'new_list') else None
    if steps is None:
        steps = I.alloc('list', 'steps')
        st.heap[(steps, '$')] = seq(one, two)
    s.conv = [True] * 5
    b4 = fields(s, s.sol)
    r = run_(s, steps, auto)
    note(rep, I)
    for f, v in fields(s, s.sol).items():
        rep.equal('%s: the given starting trajectory is not modified (%s)' % (nm, f), v, b4[f], s.w2)
    rep.equal('%s: every case of every step is solved once' % nm, num(len(s.log)), num(5), s.w2)
    if len(s.log) != 5:
        return
    a0, b0, c0, d0 = s.k0
    ks = [seq(a0, b0, lin(c0, Tc, j, 3), d0) for j in range(3)]
    ks += [seq(lin(a0, Ta, j, 2), b0, Tc, d0) for j in range(2)]
    res = []
    for i in range(5):
        if i == 0:
            given = dict(b4)
        elif i == 3:
            # the second step starts from the last solution of the first one
            given = dict(res[2])
        else:
            # among the solutions of this step
            given = {f: s.log[i][0][f] for f in SCALED}
            given = {f: (v.args[1] if auto and v.op == 'call' and v.args[0] == 'scale' else v)
                     for f, v in given.items()}
        res.append(expect_case(rep, s, nm, i, given, ks[i], auto))
    out = I.V(st, r)
    if not (out.op == 'seq' and len(out.args) == 2):
        rep.undecided('%s: shape of the result' % nm, show(out)[:200], s.w2)
        return
    n = 0
    for j, m in enumerate((3, 2)):
        inner = I.V(st, out.args[j])
        if not (inner.op == 'seq'):
            rep.undecided('%s: shape of the result' % nm, show(inner)[:200], s.w2)
            return
        rep.equal('%s: step %d returns all its solutions' % (nm, j + 1), num(len(inner.args)), num(m), s.w2)
        if len(inner.args) != m:
            return
        for i in range(m):
            compare(rep, s, '%s: step %d solution %d' % (nm, j + 1, i + 1), inner.args[i], res[n], s.conv[n])
            n += 1


def failing(prog, rep, cls, nm, auto):
    """a case that fails is never followed silently by the next one"""
    nm = '%s, %s' % (cls, nm)
    for bad in range(3):
        s = driver(prog, cls)
        I, st = s.I, s.st
        T = target(s, 'c')
        call(s, 'num_cases', num(3))
        steps = I.alloc('list', 'steps')
        st.heap[(steps, '$')] = seq(s.step)
        s.conv = [i != bad for i in range(3)]
        if cls == 'ManualStrategy' or bad == 0:
            rejects(rep, '%s: failure of case %d is an error' % (nm, bad + 1), I, st, lambda: run_(s, steps, auto),
                    s.w, 'RuntimeError')
            rep.equal('%s: nothing is solved after the failure of case %d' % (nm, bad + 1), num(len(s.log)),
                      num(bad + 1), s.w2)
        else:
            r = run_(s, steps, auto)
            c0 = s.k0[2]
            pts = [lin(c0, T, j, 3) for j in range(3)]
            mid = mul(tm.div(ONE, num(2)), add(pts[bad - 1], pts[bad]))
            pts = pts[:bad + 1] + [mid] + pts[bad:]
            rep.equal('%s: after failure of case %d the number of solves' % (nm, bad + 1), num(len(s.log)),
                      num(len(pts)), s.w2)
            if len(s.log) == len(pts):
                for i, p in enumerate(pts):
                    k = at(s.log[i][0]['const'], num(2))
                    k = k.args[1] if auto and k.op == 'call' and k.args[0] == 'scale' else k
                    rep.equal('%s: failure of case %d: constant in solve %d' % (nm, bad + 1, i + 1), k, p, s.w2)
                out = I.V(st, r)
                inner = I.V(st, out.args[0]) if out.op == 'seq' and len(out.args) == 1 else None
                if inner is None or inner.op != 'seq':
                    rep.undecided('%s: failure of case %d: shape of the result' % (nm, bad + 1), show(out)[:200], s.w2)
                    continue
                rep.equal('%s: failure of case %d: the number of solutions returned' % (nm, bad + 1),
                          num(len(inner.args)), num(len(pts)), s.w2)
                if len(inner.args) != len(pts):
                    continue
                for i, g in enumerate(inner.args):
                    d, res = s.log[i]
                    un = lambda x: x.args[1] if auto and x.op == 'call' and x.args[0] == 'scale' else x
                    F = mk('call', 'factors', un(d['y']), un(d['t']), seq(*[un(x) for x in d['const'].args]))
                    want = {f: (sc('unscale', arr(res, f), F) if auto else arr(res, f)) for f in SCALED}
                    want['const'] = seq(*[un(x) for x in d['const'].args])
                    compare(rep, s, '%s: failure of case %d: solution %d' % (nm, bad + 1, i + 1), g, want,
                            i != bad)
        note(rep, I)


def choice(prog, rep, nm, auto):
    """the guess of a case is the converged solution with the nearest constants"""
    n = 4
    s = driver(prog, 'BisectionStrategy')
    I, st = s.I, s.st
    T = target(s, 'c')
    call(s, 'num_cases', num(n))
    call(s, 'reset')
    call(s, 'init', s.sol, s.P)
    far = num(9 * 10 ** 99)
    near = lambda k1, k2: sum_abs(k1, k2)
    sols = []
    for i, ok in enumerate((True, True, False)):
        g = call(s, 'next')
        kg = kconst(s, g)
        r = solved(s, 'res%d' % i, ok)
        ks = seq(*[sym('r%d_%s' % (i, x), 'real') for x in CNAMES])
        st.heap[(mk('attr', 'const', r), '$')] = ks
        call(s, 'add_gamma', r)
        sols.append((r, ks, ok))
    I.expand_arg = True
    g = call(s, 'next')
    # constants of the failed case, the continued one halfway back
    c = [lin(s.k0[2], T, j, n) for j in (1, 2)]
    kg = seq(*[mul(tm.div(ONE, num(2)), add(*c)) if x == 'c' else sym('r2_' + x, 'real') for x in CNAMES])
    d = [near(ks, kg) for r, ks, ok in sols]
    A = tuple(lt(x, far) for x in d[:2])
    for f in ('y', 't', 'dynamical_parameters'):
        want = ite(lt(d[1], d[0]), arr(sols[1][0], f), arr(sols[0][0], f))
        rep.equal('%s: the guess is the nearest solution that converged (%s)' % (nm, f), tf(I, st, g, f), want, s.w,
                  assume=A)


def sum_abs(k1, k2):
    from ..lib import fn1
    out = ZERO
    for a, b in zip(k1.args, k2.args):
        out = add(out, fn1('abs')(sub(b, a)))
    return out


def guesses(prog, rep, cls, nm, auto):
    """with given numbers: every case starts from the nearest solution of its step that converged"""
    for bad in (None, 1, 2) if cls == 'BisectionStrategy' else (None,):
        tag = '%s, %s, given numbers%s' % (cls, nm, '' if bad is None else ', case %d fails' % (bad + 1))
        s = driver(prog, cls)
        I, st = s.I, s.st
        I.expand_arg = True
        s.k0 = [num(x) for x in (2, 5, 3, 7)]
        st.heap[(mk('attr', 'const', s.sol), '$')] = seq(*s.k0)
        one = s.step
        I.call(I.read(st, one, 'const'), [const('c'), num(11)], {}, st, None)
        call(s, 'num_cases', num(3))
        s.step = two = I.instantiate(s.cls, [], {}, st, None)
        I.call(I.read(st, two, 'const'), [const('a'), num(-4)], {}, st, None)
        call(s, 'num_cases', num(2))
        steps = I.alloc('list', 'steps')
        st.heap[(steps, '$')] = seq(one, two)
        cs = [3, 7, 11]
        # constants, index of the solution the guess comes from (None: the given one), whether it converges
        plan = [((2, 5, c, 7), i - 1 if i else None, True) for i, c in enumerate(cs)]
        if bad is not None:
            mid = (cs[bad - 1] + cs[bad]) // 2
            plan = plan[:bad] + [((2, 5, cs[bad], 7), bad - 1, False), ((2, 5, mid, 7), bad - 1, True),
                                 ((2, 5, cs[bad], 7), bad + 1, True)] \
                + [((2, 5, c, 7), bad + 2 + i, True) for i, c in enumerate(cs[bad + 1:])]
        m = len(plan)
        plan += [((2, 5, 11, 7), m - 1, True), ((-4, 5, 11, 7), m, True)]
        s.conv = [p[2] for p in plan]
        b4 = fields(s, s.sol)
        r = run_(s, steps, auto)
        note(rep, I)
        rep.equal('%s: number of problems solved' % tag, num(len(s.log)), num(len(plan)), s.w2)
        if len(s.log) != len(plan):
            continue
        res = []
        for i, (k, src, ok) in enumerate(plan):
            given = b4 if src is None else res[src]
            res.append(expect_case(rep, s, tag, i, given, seq(*[num(x) for x in k]), auto))
        out = s.R(st, r) if hasattr(s, 'R') else I.V(st, r)
        if out.op != 'seq' or len(out.args) != 2:
            rep.undecided('%s: shape of the result' % tag, show(out)[:200], s.w2)
            continue
        flat = []
        for j, want in enumerate((m, 2)):
            inner = I.V(st, out.args[j])
            if inner.op != 'seq':
                rep.undecided('%s: shape of the result' % tag, show(inner)[:200], s.w2)
                break
            rep.equal('%s: step %d returns all its solutions' % (tag, j + 1), num(len(inner.args)), num(want), s.w2)
            flat += inner.args
        if len(flat) != len(plan):
            continue
        for i, g in enumerate(flat):
            compare(rep, s, '%s: solution %d' % (tag, i + 1), g, res[i], plan[i][2])
