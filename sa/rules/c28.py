"""C28: solve carries the user's problem through the method asked for and every solution back."""
from .c16 import *

BB = 'beluga.beluga'
EXPLANATION = ('The top-level solve function is run abstractly with uninterpreted transformations, guess generator, '
               'continuation driver and problem maps; what each of them is given and what the user gets back is '
               'compared with the specification for all combinations of options.')


def run(prog, rep):
    for method in ('traditional', 'indirect', 'BrysonHo', 'Traditional', 'diffyg', 'direct'):
        scenario(rep, method, lambda: solve(prog, rep, method))
    for kw in (dict(helper=True), dict(control=False), dict(helper=True, control=False), dict(cpus=3), dict(cpus=2), dict(autoscale=False),
               dict(save=False), dict(save='my.file'), dict(optim=True), dict(optim=True, method='direct'),
               dict(nodes=1), dict(nodes=4, helper=True), dict(own=True)):
        m = kw.pop('method', 'traditional')
        scenario(rep, str(kw), lambda: solve(prog, rep, m, **kw))
    for kw in (dict(method='collocation'), dict(cpus=0), dict(noocp=True), dict(nomap=True), dict(noinv=True)):
        scenario(rep, str(kw), lambda: bad(prog, rep, kw))
    scenario(rep, 'post', lambda: post(prog, rep))


def setup28(prog, control=True, nodes=3, optim=False):
    s = S()
    I = s.I = interp(prog)
    I.int_literals = True
    st = s.st = State()
    s.R = lambda st, x: I.reify(st, I.V(st, x))
    s.rec = {}
    rec = s.rec
    pc = find_class(prog, SP, 'Problem')
    s.ocp = I.input_obj('ocp', pc)
    st.heap[(s.ocp, 'mark')] = const('user')
    s.inner = I.input_obj('user_state', find_class(prog, CS, 'NamedDimensionalStruct'))
    st.heap[(s.inner, 'name')] = const('x')
    st.heap[(s.ocp, 'states')] = I.new_list(st, seq(s.inner))
    s.bvp = I.input_obj('bvp', pc)
    fp = I.input_obj('fp', find_class(prog, NP, 'NumericProblem'))
    st.heap[(s.bvp, 'functional_problem')] = fp
    s.fp = fp
    st.heap[(fp, 'compute_u')] = mk('mod', 'verif.u') if control else NONE
    I.intercepts['verif.u'] = lambda I, st, a, k: I.new_array(st, seq(*[mk('call', 'u', num(i), *[s.R(st, x) for x in a]) for i in range(2)]))
    cs = []
    for i in range(3):
        o = I.input_obj('constant%d' % i, find_class(prog, CS, 'Constant'))
        st.heap[(o, 'default_val')] = sym('dv%d' % i, 'real')
        cs.append(o)
    l = I.new_list(st, seq(*cs))
    st.heap[(s.bvp, 'constants')] = l
    MARK = 'mark'

    def stage(name):
        def call(I, st, a, k):
            rec.setdefault('stages', []).append((name, I.read(st, a[0], MARK), a[0]))
            st.heap[(a[0], MARK)] = const(name)          # transformations work in place
            l = I.read(st, a[0], 'states')
            for x in I.V(st, l).args:
                if I.class_of(x) is not None:
                    st.heap[(x, 'name')] = const('changed')
            st.heap[(l, '$')] = cat(I.V(st, l), seq(const(name)))
            if name == 'post':
                return s.bvp
            return a[0]
        I.intercepts['verif.' + name] = call

        def make(I, st, a, k):
            rec['made_' + name] = (list(a), dict(k))
            if a:
                st.heap[(a[0], MARK)] = const('assembling')
            return mk('mod', 'verif.' + name)
        return make
    I.intercepts['make_preprocessor'] = stage('pre')
    I.intercepts['make_indirect_method'] = stage('indirect')
    I.intercepts['make_direct_method'] = stage('direct')
    I.intercepts['make_postprocessor'] = stage('post')

    def inv(I, st, a, k):
        rec.setdefault('inv', []).append(a[0])
        return mk('call', 'inverse', a[0]) if a[0].op in ('sym',) else invtraj(I, st, a[0])

    def invtraj(I, st, T):
        rec['helper_in'] = {f: tf(I, st, T, f) for f in TFIELDS}
        st.heap[(T, 'y')] = I.new_array(st, mat('clobbered', 2, 2))     # the map may work in place
        return mktraj(I, st, 'inverse', {'const': vec('ik', 2)})
    I.intercepts['verif.map'] = lambda I, st, a, k: a[0]
    I.intercepts['verif.inv'] = inv
    st.heap[(s.bvp, 'map_sol')] = mk('mod', 'verif.map')
    st.heap[(s.bvp, 'inv_map_sol')] = mk('mod', 'verif.inv')

    def helper(I, st, a, k):
        rec['helper'] = (a[0], tf(I, st, a[1], 'const'))
        st.heap[(a[1], 'const')] = I.new_array(st, vec('hk', 3))
        return a[1]
    I.intercepts['match_constants_to_states'] = helper
    G = {'t': vec('t', nodes), 'y': mat('y', nodes, 2), 'u': mat('gu', nodes, 1), 'dynamical_parameters': vec('p', 2),
         'nondynamical_parameters': vec('m', 1), 'const': vec('gk', 3)}
    s.G = G

    def generate(I, st, a, k):
        rec['gen'] = [a[1], tf(I, st, a[2], 'const'), a[3], a[4]]
        return mktraj(I, st, 'guess', G)
    I.intercepts['GuessGenerator.generate'] = generate
    s.gen = I.input_obj('generator', find_class(prog, 'beluga.continuation.guess_generators', 'GuessGenerator'))

    def run_(I, st, a, k):
        rec['run'] = (list(a), dict(k))
        names = ('bvp_algorithm', 'steps', 'solinit', 'bvp', 'pool', 'autoscale')
        d = dict(zip(names, a))
        for x, v in k.items():
            d['bvp_algorithm' if x == 'bvp_algo' else x] = v
        rec['args'] = d
        rec['init'] = {f: tf(I, st, d['solinit'], f) for f in TFIELDS}
        sets = [I.new_list(st, seq(*[sym('sol%d%d' % (i, j)) for j in range(n)])) for i, n in enumerate((2, 1, 3))]
        return I.new_list(st, seq(*sets))
    I.intercepts['run_continuation_set'] = run_
    I.intercepts['save'] = lambda I, st, a, k: (rec.__setitem__('save', (list(a), dict(k))), NONE)[1]
    sh = find_class(prog, SH, 'Shooting')
    s.alg = I.input_obj('algorithm', sh)
    I.intercepts['Shooting.close'] = lambda I, st, a, k: (rec.__setitem__('closed', True), NONE)[1]
    I.intercepts['BaseAlgorithm.close'] = I.intercepts['Shooting.close']
    s.pool = sym('pool')

    def pool(I, st, a, k):
        rec['cpus'] = k.get('processes', a[0] if a else None)
        return s.pool
    for n in ('pathos.multiprocessing.Pool', 'pathos.pools.ProcessPool'):
        I.intercepts[n] = pool
    s.steps = sym('steps')
    s.f = I.module_name(BB, 'solve', st)
    if s.f is None:
        raise Broken('solve not found')
    return s


def solve(prog, rep, method, helper=False, control=True, cpus=1, autoscale=True, save=None, optim=False, nodes=3, own=False):
    s = setup28(prog, control, nodes)
    I, st, rec = s.I, s.st, s.rec
    w = 'beluga/beluga.py:solve'
    nm = ', '.join([method] + [x for x, c in (('initial helper', helper), ('no control law', not control), ('%d processes' % cpus, cpus > 1),
                               ('no scaling', not autoscale), ('save=%s' % save, save is not None), ('options', optim),
                               ('%d nodes' % nodes, nodes != 3), ('own boundary value problem', own)) if c])
    kw = {'ocp': s.ocp, 'guess_generator': s.gen, 'bvp_algorithm': s.alg, 'steps': s.steps, 'n_cpus': num(cpus),
          'method': const(method), 'autoscale': TRUE if autoscale else FALSE}
    if helper:
        kw['initial_helper'] = TRUE
    if save is not None:
        kw['save_sols'] = const(save) if isinstance(save, str) else TRUE if save else FALSE
    if optim:
        kw['optim_options'] = dict_(I, st, {'control_method': const('algebraic'), 'analytical_jacobian': TRUE})
    if own:
        kw['bvp'], kw['ocp_map'], kw['ocp_map_inverse'] = s.bvp, mk('mod', 'verif.map'), mk('mod', 'verif.inv')
    r = I.call(s.f, [], kw, st, None)
    note(rep, I)
    rep.equal('%s: completes' % nm, st.pc, TRUE, w)
    mid = 'direct' if method == 'direct' else 'indirect'
    stages = rec.get('stages', [])
    if own:
        rep.equal('%s: no transformation is applied' % nm, num(len(stages)), num(0), w)
    else:
        rep.equal('%s: the problem goes through preprocessing, the method and postprocessing' % nm,
                  seq(*[const(n) for n, _, _ in stages]), seq(const('pre'), const(mid), const('post')), w)
        rep.equal('%s: each stage gets the result of the one before' % nm, seq(*[m for _, m, _ in stages]),
                  seq(const('user'), const('pre'), const(mid)), w)
        a, k = rec.get('made_' + mid, ([], {}))
        if mid == 'indirect':
            m = k.get('method', a[3] if len(a) > 3 else None)
            rep.equal('%s: the method is handed on' % nm, m, const('diffyg' if method == 'diffyg' else 'traditional'), w)
        if optim:
            b = bound(prog, 'make_%s_method' % mid, a, k)
            for o, v in (('control_method', const('algebraic')), ('analytical_jacobian', TRUE)):
                if b is not None and o not in b and 'made_' + mid in rec:
                    rep.fail('%s: option %s is handed on' % (nm, o), 'the method is made without it', w)
                else:
                    rep.equal('%s: option %s is handed on' % (nm, o), (b or {}).get(o), v, w)
    rep.equal('%s: the user\'s problem is left alone' % nm, I.read(st, s.ocp, 'mark'), const('user'), w)
    rep.equal('%s: the states of the user\'s problem are left alone' % nm, I.V(st, I.read(st, s.ocp, 'states')), seq(s.inner), w)
    rep.equal('%s: the state of the user\'s problem is left alone' % nm, I.read(st, s.inner, 'name'), const('x'), w)
    if 'gen' not in rec or 'args' not in rec:
        rep.undecided('%s: driver' % nm, 'guess or driver not reached')
        return
    rep.equal('%s: the guess generator gets the compiled problem' % nm, rec['gen'][0], s.fp, w)
    rep.equal('%s: the guess has the default constants' % nm, rec['gen'][1], seq(*[sym('dv%d' % i, 'real') for i in range(3)]), w)
    rep.equal('%s: the guess generator gets the problem maps' % nm, seq(*rec['gen'][2:]),
              seq(mk('mod', 'verif.map'), mk('mod', 'verif.inv')), w)
    d, init = rec['args'], rec['init']
    for x, v in (('bvp_algorithm', s.alg), ('steps', s.steps), ('bvp', s.bvp), ('pool', s.pool if cpus > 1 else NONE),
                 ('autoscale', TRUE if autoscale else FALSE)):
        rep.equal('%s: the continuation gets the right %s' % (nm, x), d.get(x), v, w)
    if cpus > 1:
        rep.equal('%s: as many processes as asked for' % nm, rec.get('cpus'), num(cpus), w)
    K = s.G['const']
    if helper:
        K = vec('hk', 3)
        rep.equal('%s: constants are matched on the user\'s problem' % nm, rec['helper'][0], s.ocp, w)
        rep.equal('%s: constants are matched on the guess in the user\'s terms' % nm, rec['helper'][1], vec('ik', 2), w)
        for f in TFIELDS if 'helper_in' in rec else ():
            rep.equal('%s: the guess is mapped back for the helper: %s' % (nm, f), rec['helper_in'][f], s.G.get(f, EMPTY), w)
    want = dict(s.G, const=K)
    if control:
        want['u'] = seq(*[seq(*[mk('call', 'u', num(j), s.G['y'].args[i], s.G['dynamical_parameters'], K) for j in range(2)])
                          for i in range(nodes)])
    for f in TFIELDS:
        rep.equal('%s: %s of the guess handed to the continuation' % (nm, f), init[f], want.get(f, EMPTY), w)
    out = s.R(st, r)
    want = seq(*[seq(*[mk('call', 'inverse', sym('sol%d%d' % (i, j))) for j in range(n)]) for i, n in enumerate((2, 1, 3))])
    rep.equal('%s: every solution is returned, mapped back, in order' % nm, out, want, w)
    if save is False:
        rep.check('%s: nothing is saved' % nm, 'save' not in rec, 'saved although save_sols is False', w)
    else:
        if 'save' not in rec:
            rep.fail('%s: solutions are saved' % nm, 'not saved', w)
            return
        a, k = rec['save']
        g = lambda i, x: a[i] if len(a) > i else k.get(x)
        rep.equal('%s: the returned solutions are saved' % nm, s.R(st, g(0, 'sol_set')), want, w)
        rep.equal('%s: the problem is saved' % nm, g(1, 'ocp'), s.ocp, w)
        rep.equal('%s: the boundary value problem is saved' % nm, g(2, 'bvp'), s.bvp, w)
        rep.equal('%s: saved under the name asked for' % nm, g(3, 'filename') or const('data.beluga'),
                  const(save if isinstance(save, str) else 'data.beluga'), w)


def bound(prog, name, a, k):
    """arguments by parameter name"""
    r = prog.lookup(BB, name)
    if r is None or r[0] != 'def':
        return dict(k) if len(a) <= 1 else None
    ps = [p.arg for p in r[2].args.posonlyargs + r[2].args.args]
    return dict(zip(ps, a), **k)


def bad(prog, rep, kw):
    s = setup28(prog)
    I, st = s.I, s.st
    w = 'beluga/beluga.py:solve'
    a = {'ocp': s.ocp, 'guess_generator': s.gen, 'bvp_algorithm': s.alg, 'steps': s.steps, 'n_cpus': num(kw.get('cpus', 1)),
         'method': const(kw.get('method', 'traditional'))}
    exc = 'NotImplementedError'
    what = 'an unknown method'
    if 'cpus' in kw:
        exc, what = 'ValueError', 'no processes'
    if 'noocp' in kw:
        del a['ocp']
        what = 'no problem'
    if 'nomap' in kw or 'noinv' in kw:
        a['bvp'] = s.bvp
        a['ocp_map_inverse' if 'nomap' in kw else 'ocp_map'] = mk('mod', 'verif.inv')
        exc, what = 'ValueError', 'a boundary value problem without %s map' % ('forward' if 'nomap' in kw else 'inverse')
    rejects(rep, '%s is rejected' % what, I, st, lambda: I.call(s.f, [], a, st, None), w, exc)
    note(rep, I)


def post(prog, rep):
    """any number of steps and solutions"""
    I = interp(prog)
    st = State()
    I.intercepts['verif.inv'] = lambda I, st, a, k: mk('call', 'inverse', a[0])
    f = I.module_name(BB, 'postprocess_continuations', st)
    if f is None:
        raise Broken('postprocess_continuations not found')
    for sizes in ((), (0,), (1,), (3, 0, 2)):
        sets = [I.new_list(st, seq(*[sym('sol%d%d' % (i, j)) for j in range(n)])) for i, n in enumerate(sizes)]
        r = I.call(f, [I.new_list(st, seq(*sets)), mk('mod', 'verif.inv')], {}, st, None)
        rep.equal('postprocessing of %s solutions' % (sizes,), I.reify(st, I.V(st, r)),
                  seq(*[seq(*[mk('call', 'inverse', sym('sol%d%d' % (i, j))) for j in range(n)]) for i, n in enumerate(sizes)]),
                  'beluga/beluga.py:postprocess_continuations')
    note(rep, I)
