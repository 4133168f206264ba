"""C24: the initial guess is built from what the user asked for."""
from .c16 import *

GG = 'beluga.continuation.guess_generators'
EXPLANATION = ('Guess generators are constructed and run abstractly with symbolic options, an uninterpreted propagator and '
               'problem map; the trajectory handed to the map and the one returned are compared with the specification. '
               'The helper that adapts constants to a guess is run on symbolic trajectories for several sets of names.')


def run(prog, rep):
    rep.assumptions += ['guesses for costates and controls are given per component, or one float for all costates']
    for mode in ('auto', 'ones'):
        for direction in ('forward', 'reverse', None):
            for co in ('list', 'scalar', 'negative', 'integer', None):
                for how in ('helper', 'constructor', 'setup', 'twice'):
                    nm = '%s, %s, costates %s, by %s' % (mode, direction or 'default direction', co or 'default', how)
                    scenario(rep, nm, lambda: guess(prog, rep, nm, mode, direction, co, how))
        scenario(rep, 'bad options', lambda: bad(prog, rep, mode))
    for how in ('helper', 'constructor'):
        scenario(rep, 'static', lambda: static(prog, rep, how))
    scenario(rep, 'mode', lambda: badmode(prog, rep))
    for case in MATCH:
        scenario(rep, 'constants', lambda: match(prog, rep, *case))


def gen(I, st, how, kw):
    cls = find_class(I.prog, GG, 'GuessGenerator')
    if how == 'constructor':
        return I.instantiate(cls, [], kw, st, None)
    if how == 'setup':
        g = I.instantiate(cls, [], {}, st, None)
        r = I.call_method(g, 'setup', [], kw, st, None)
        return r
    f = I.module_name(GG, 'guess_generator', st)
    if f is None:
        raise Broken('guess_generator not found')
    if how == 'twice':
        a = dict(kw)
        b = {k: v for k, v in kw.items() if k == 'mode'}
        b['start'] = I.new_list(st, vec('other', 2))
        g = I.call(f, [], a, st, None)
        I.call(f, [], b, st, None)          # a second generator does not disturb the first
        return g
    m = kw.pop('mode')
    return I.call(f, [m], kw, st, None)


def guess(prog, rep, nm, mode, direction, co, how):
    I = interp(prog)
    I.int_literals = True
    st = State()
    R = lambda st, x: I.reify(st, I.V(st, x))
    w = where(prog, find_class(prog, GG, 'GuessGenerator'))
    ny, nq, nu, npar, nn = 2, 1, 2, 2, 3
    kw = {'mode': const(mode), 'start': I.new_list(st, vec('start', ny)),
          'quad_guess': I.new_array(st, vec('quad', nq)), 'control_guess': I.new_list(st, vec('control', nu))}
    # the duration is the size of what is given; a positive symbol here
    dur = num(7)
    kw['time_integrate'] = dur
    if direction:
        kw['direction'] = const(direction)
    from fractions import Fraction
    if co == 'list':
        kw['costate_guess'] = I.new_list(st, vec('costate', ny))
        d0 = vec('costate', ny)
    elif co in ('scalar', 'negative', 'integer'):
        c = num({'scalar': Fraction(3, 2), 'negative': Fraction(-5, 2), 'integer': Fraction(-3)}[co])
        kw['costate_guess'] = c
        d0 = seq(*[c] * ny)
    else:
        d0 = seq(*[num(Fraction(1, 10))] * ny)
    start, quad, ctrl = vec('start', ny), vec('quad', nq), vec('control', nu)
    g = gen(I, st, how, kw)
    sol = mktraj(I, st, 'solinit', dict(const=vec('k', 2), dynamical_parameters=vec('p0_', npar),
                                        nondynamical_parameters=vec('m0_', nn)))
    rec = {}
    FN = {'t': vec('T', 2), 'y': mat('Y', 2, 3), 'q': mat('Q', 2, 1), 'u': mat('U', 2, 1), 'dynamical_parameters': vec('P', 1),
          'nondynamical_parameters': vec('M', 2), 'const': vec('K', 2)}

    def omap(I, st, a, k):
        rec['in'] = {f: tf(I, st, a[0], f) for f in TFIELDS}
        return mktraj(I, st, 'mapped', FN)
    I.intercepts['verif.map'] = omap

    def prop(I, st, a, k):
        rec['prop'] = [a[1], a[2]] + [R(st, x) for x in a[3:]]
        return mktraj(I, st, 'propagated', {'t': vec('PT', 3), 'y': mat('PY', 3, 3), 'q': mat('PQ', 3, 1)})
    I.intercepts['Propagator.__call__'] = prop
    fn = I.input_obj('bvp_fn', find_class(prog, NP, 'NumericProblem'))
    st.heap[(fn, 'deriv_func')], st.heap[(fn, 'quad_func')] = mk('mod', 'verif.deriv'), mk('mod', 'verif.quad')
    r = I.call_method(g, 'generate', [fn, sol, mk('mod', 'verif.map'), mk('mod', 'verif.inv')], {}, st, None)
    note(rep, I)
    rep.equal('%s: completes' % nm, st.pc, TRUE, w)
    if 'in' not in rec:
        rep.undecided('%s: map' % nm, 'the problem map was not reached')
        return
    n = 2 if mode == 'auto' else 4
    end = dur if direction != 'reverse' else neg(dur)
    T = seq(num(0), end) if n == 2 else seq(*[mul(num(Fraction(i, 3)), end) for i in range(4)])
    want = {'t': T, 'y': seq(*[start] * n), 'dual': seq(*[d0] * n), 'q': seq(*[quad] * n), 'u': seq(*[ctrl] * n),
            'dynamical_parameters': seq(*[ONE] * npar), 'nondynamical_parameters': seq(*[ONE] * nn), 'const': vec('k', 2)}
    for f, v in want.items():
        rep.equal('%s: %s of the guess is what was asked for' % (nm, f), rec['in'][f], v, w)
    if mode == 'auto':
        rep.equal('%s: the mapped guess is propagated from its first node' % nm, seq(*rec.get('prop', [])),
                  seq(mk('mod', 'verif.deriv'), mk('mod', 'verif.quad'), FN['t'], FN['y'].args[0], FN['q'].args[0],
                      FN['dynamical_parameters'], FN['const']), w)
        for f, v in (('t', vec('PT', 3)), ('y', mat('PY', 3, 3)), ('q', mat('PQ', 3, 1))):
            rep.equal('%s: %s of the result is the propagated one' % (nm, f), tf(I, st, r, f), v, w)
        fs = ('dynamical_parameters', 'nondynamical_parameters', 'const')
    else:
        fs = FN
    for f in fs:
        rep.equal('%s: %s of the result is the mapped one' % (nm, f), tf(I, st, r, f), FN[f], w)


def bad(prog, rep, mode):
    w = where(prog, find_class(prog, GG, 'GuessGenerator'))
    for k, v in (('direction', const('sideways')), ('time_integrate', num(0))):
        I = interp(prog)
        st = State()
        kw = {'mode': const(mode), 'start': I.new_list(st, vec('start', 2)), k: v}
        rejects(rep, '%s: bad %s is rejected' % (mode, k), I, st, lambda: gen(I, st, 'constructor', kw), w, 'ValueError')
    # a negative duration counts by its size
    I = interp(prog)
    st = State()
    g = gen(I, st, 'constructor', {'mode': const(mode), 'start': I.new_list(st, vec('start', 2)), 'time_integrate': num(-3)})
    rec = {}
    I.int_literals = True
    I.intercepts['verif.map'] = lambda I, st, a, k: (rec.__setitem__('t', tf(I, st, a[0], 't')), mktraj(
        I, st, 'm', {'t': vec('T', 2), 'y': mat('Y', 2, 3), 'q': mat('Q', 2, 1)}))[1]
    I.intercepts['Propagator.__call__'] = lambda I, st, a, k: mktraj(I, st, 'pp', {'t': vec('PT', 3), 'y': mat('PY', 3, 3)})
    fn = I.input_obj('bvp_fn', find_class(prog, NP, 'NumericProblem'))
    sol = mktraj(I, st, 'solinit', {})
    I.call_method(g, 'generate', [fn, sol, mk('mod', 'verif.map'), mk('mod', 'verif.inv')], {}, st, None)
    if 't' in rec:
        rep.equal('%s: a negative duration counts by its size' % mode, at(rec['t'], sub(slen(rec['t']), ONE)), num(3), w)
    note(rep, I)


def static(prog, rep, how):
    I = interp(prog)
    st = State()
    w = where(prog, find_class(prog, GG, 'GuessGenerator'))
    F = {'t': vec('t', 2), 'y': mat('y', 2, 2), 'u': mat('u', 2, 1), 'const': vec('k', 2)}
    user = mktraj(I, st, 'user', F)
    g = gen(I, st, how, {'mode': const('static'), 'solinit': user})
    rec = {}

    def omap(I, st, a, k):
        rec['in'] = {f: tf(I, st, a[0], f) for f in TFIELDS}
        for f in TFIELDS:       # a map may work in place
            x = I.read(st, a[0], f)
            st.heap[(x, '$')] = vec('changed', 2)
            st.heap[(a[0], f)] = I.new_array(st, vec('changed', 2))
        return a[0]
    I.intercepts['verif.map'] = omap
    other = mktraj(I, st, 'solinit', {'const': vec('kk', 2)})
    for i in range(2):
        r = I.call_method(g, 'generate', [NONE, other, mk('mod', 'verif.map'), mk('mod', 'verif.inv')], {}, st, None)
        for f in TFIELDS:
            rep.equal('static by %s, run %d: %s of the user\'s guess reaches the map' % (how, i + 1, f), rec['in'][f], F.get(f, EMPTY), w)
        for f in TFIELDS:
            rep.equal('static by %s, run %d: the user\'s own %s is left alone' % (how, i + 1, f), tf(I, st, user, f),
                      F.get(f, EMPTY), w)
        rep.equal('static by %s: the mapped guess is returned' % how, tf(I, st, r, 't'), vec('changed', 2), w)
    note(rep, I)


def badmode(prog, rep):
    w = where(prog, find_class(prog, GG, 'GuessGenerator'))
    I = interp(prog)
    st = State()
    rejects(rep, 'an unknown mode is rejected', I, st, lambda: gen(I, st, 'constructor', {'mode': const('magic')}), w, 'ValueError')


# (states, independent variable, constants)
MATCH = [
    (('x', 'v'), 't', ('x_0', 'v_0', 'x_f', 'v_f', 't_f')),
    (('x', 'v'), 't', ('g', 'v_f', 'x_0', 'eps')),
    (('x',), 't', ('a', 'b')),
    (('h', 'theta', 'v'), 'tau', ('v_f', 'tau_0', 'theta_f', 'h_0', 'mu', 'tau_f', 'h_f')),
    (('x', 'x_0'), 't', ('x_0_0', 'x_f')),
    (('x', 'X'), 't', ('x_f', 'X_f', 'X_0', 'T_f', 'x_F')),
    (('V', 'h'), 't', ('v_f', 'V_f', 'H_0', 'h_0', 'h_f')),
]


def match(prog, rep, states, indep, constants):
    I = interp(prog)
    st = State()
    s_ = problem(I, st)
    P = s_
    f = I.module_name(GG, 'match_constants_to_states', st)
    if f is None:
        raise Broken('match_constants_to_states not found')
    w = 'beluga/continuation/guess_generators.py:match_constants_to_states'
    objs = []
    for n in states:
        o = I.input_obj('state_' + n, find_class(prog, CS, 'DynamicStruct'))
        st.heap[(o, 'name')] = const(n)
        objs.append(o)
    st.heap[(I.read(st, P, 'states'), '$')] = seq(*objs)
    t = I.input_obj('indep', find_class(prog, CS, 'NamedDimensionalStruct'))
    st.heap[(t, 'name')] = const(indep)
    st.heap[(P, 'independent_variable')] = t
    objs = []
    for n in constants:
        o = I.input_obj('const_' + n, find_class(prog, CS, 'Constant'))
        st.heap[(o, 'name')] = const(n)
        objs.append(o)
    st.heap[(I.read(st, P, 'constants'), '$')] = seq(*objs)
    g = dict(t=vec('t', 3), y=mat('y', 3, len(states)), const=vec('k', len(constants)), u=mat('u', 3, 1))
    T = mktraj(I, st, 'sol', g)
    r = I.call(f, [P, T], {}, st, None)
    note(rep, I)
    val = {}
    for i, n in enumerate(states):
        val[n + '_0'], val[n + '_f'] = g['y'].args[0].args[i], g['y'].args[-1].args[i]
    val[indep + '_0'], val[indep + '_f'] = g['t'].args[0], g['t'].args[-1]
    want = seq(*[val.get(n, k) for n, k in zip(constants, g['const'].args)])
    nm = 'constants %s' % (constants,)
    rep.equal('%s take the end values of the states they are named after' % nm, tf(I, st, r, 'const'), want, w)
    for x in ('t', 'y', 'u'):
        rep.equal('%s: %s stays' % (nm, x), tf(I, st, r, x), g[x], w)
