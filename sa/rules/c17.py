"""C17: the problem the user enters is the problem that is stored."""
from .mapsc import *

EXPLANATION = ('Every input method of the problem is run abstractly on a new problem with symbolic arguments; the fields of '
               'the component it stores, the other component lists, the result of a repeated name and the checks of '
               'completeness and units are compared with the specification.')

LOC = ('initial', 'path', 'terminal')
# method -> (list, component fields in argument order)
SPEC = {
    'state': ('states', ('name', 'eom', 'units')),
    'costate': ('costates', ('name', 'eom', 'units')),
    'coparameter': ('coparameters', ('name', 'eom', 'units')),
    'quad': ('quads', ('name', 'eom', 'units')),
    'parameter': ('parameters', ('name', 'units')),
    'control': ('controls', ('name', 'units')),
    'constraint_parameter': ('constraint_parameters', ('name', 'units')),
    'constant': ('constants', ('name', 'default_val', 'units')),
    'quantity': ('quantities', ('name', 'expr')),
    'switch': ('switches', ('name', 'functions', 'conditions', 'tol_param')),
    'constant_of_motion': ('constants_of_motion', ('name', 'expr', 'units')),
}
KEYS = {
    'state': ('name', 'eom', 'units'), 'costate': ('name', 'eom', 'units'), 'coparameter': ('name', 'eom', 'units'),
    'quad': ('name', 'eom', 'units'), 'parameter': ('name', 'units'), 'control': ('name', 'units'),
    'constraint_parameter': ('name', 'units'), 'constant': ('name', 'default_value', 'units'),
    'quantity': ('name', 'expr'), 'switch': ('name', 'functions', 'conditions', 'activator'),
    'constant_of_motion': ('name', 'expr', 'units'),
}
NODUP = ('constraint_parameter',)     # accepts a name that is in use
ALL = [k for k in LISTS if k not in ('constraint_adjoints',)]


def run(prog, rep):
    rep.assumptions += ['names are strings']
    for m in SPEC:
        for kw in (False, True):
            nm = '%s%s' % (m, ' by keyword' if kw else '')
            scenario(rep, nm, lambda: named(prog, rep, m, nm, kw))
        if m not in NODUP:
            scenario(rep, m + ', name in use', lambda: duplicate(prog, rep, m))
    scenario(rep, 'independent', lambda: independent(prog, rep))
    for k in LOC:
        for full in (False, True):
            scenario(rep, k + ' constraint', lambda: constraint(prog, rep, k, full))
    scenario(rep, 'cost', lambda: costs(prog, rep))
    scenario(rep, 'scale', lambda: scale(prog, rep))
    scenario(rep, 'symmetry', lambda: symmetry(prog, rep))
    scenario(rep, 'functions', lambda: functions(prog, rep))
    scenario(rep, 'no states', lambda: incomplete(prog, rep))
    scenario(rep, 'names', lambda: names(prog, rep))
    scenario(rep, 'units', lambda: units(prog, rep))
    scenario(rep, 'several', lambda: several(prog, rep))


def new(prog):
    I = interp(prog)
    st = State()
    I.attrcls.clear()
    I.elemattr.clear()
    I.dictkeys.clear()
    P = I.instantiate(find_class(prog, SP, 'Problem'), [], {}, st, None)
    return I, st, P


def args(I, st, m, tag=''):
    out = []
    for f in SPEC[m][1]:
        if f == 'name':
            out.append(const('The_Name' + tag))
        elif f == 'default_val':
            out.append(sym('value' + tag, 'real'))
        elif f in ('functions', 'conditions'):
            l = I.alloc('list', f)
            st.heap[(l, '$')] = seq(sym(f + '0' + tag), sym(f + '1' + tag))
            out.append(l)
        else:
            out.append(sym(f + tag))
    return out


def snap_all(I, st, P):
    d = {k: plist(I, st, P, k) for k in ALL}
    for k in LOC:
        d[k + ' constraints'] = clist(I, st, P, k)
    c = I.read(st, P, 'cost')
    for k in ('initial', 'path', 'terminal', 'units', 'path_units'):
        d['cost ' + k] = I.read(st, c, k)
    d['independent variable'] = I.read(st, P, 'independent_variable')
    return d


def others(rep, nm, I, st, P, b4, changed, w):
    for k, v in snap_all(I, st, P).items():
        if k not in changed:
            if v is not b4[k]:
                rep.equal('%s: %s unchanged' % (nm, k), v, b4[k], w)
                return
    rep.ok('%s: everything else unchanged' % nm, w)


def sym_locals(I, st, P):
    return I.read(st, I.read(st, P, 'local_compiler'), 'sym_locals')


def named(prog, rep, m, nm, kw):
    I, st, P = new(prog)
    w = where(prog, find_class(prog, SP, 'Problem')) + '.' + m
    lst, fs = SPEC[m]
    a = args(I, st, m)
    # one component of the same kind is there already
    I.call_method(P, m, args(I, st, m, '_before'), {}, st, None)
    b4 = snap_all(I, st, P)
    if kw:
        ret = I.call_method(P, m, [], dict(zip(KEYS[m], a)), st, None)
    else:
        ret = I.call_method(P, m, a, {}, st, None)
    note(rep, I)
    rep.equal('%s returns the problem' % nm, ret, P, w)
    others(rep, nm, I, st, P, b4, (lst,), w)
    now = plist(I, st, P, lst)
    if now.op != 'seq' or len(now.args) != 2:
        rep.check('%s: appends one component' % nm, False if now.op == 'seq' else None, show(now)[:200], w)
        return
    rep.equal('%s: earlier components stay' % nm, now.args[0], b4[lst].args[0], w)
    o = now.args[1]
    for f, v in zip(fs, a):
        got = I.read(st, o, f)
        if f in ('functions', 'conditions'):
            got, v = I.V(st, got), I.V(st, v)
        elif f == 'default_val':
            pass
        rep.equal('%s: %s is the one given' % (nm, f), got, v, w)
    if 'name' in fs:
        s = I.read(st, o, 'sym')
        rep.equal('%s: symbol has the name' % nm, s, tm.mk('symbol', a[0]), w)
        rep.equal('%s: expressions refer to it by its name' % nm,
                  I.lib.dict_get(I, st, sym_locals(I, st, P), a[0]), s, w)
    rep.equal('%s: shares the compiler of the problem' % nm, I.read(st, o, 'local_compiler'),
              I.read(st, P, 'local_compiler'), w)
    rep.equal('%s completes' % nm, st.pc, TRUE, w)


def duplicate(prog, rep, m):
    w = where(prog, find_class(prog, SP, 'Problem')) + '.' + m
    for other in ('independent', 'state', 'parameter', 'control', 'constant', 'quantity', 'switch', 'constant_of_motion',
                  'quad', 'constraint_parameter', 'costate', 'coparameter'):
        I, st, P = new(prog)
        if other == 'independent':
            I.call_method(P, other, [const('The_Name'), sym('units0')], {}, st, None)
        else:
            I.call_method(P, other, args(I, st, other), {}, st, None)
        b4 = snap_all(I, st, P)
        nm = '%s with the name of a %s is rejected' % (m, other)
        rejects(rep, nm, I, st, lambda: I.call_method(P, m, args(I, st, m), {}, st, None), w, 'RuntimeWarning')
    note(rep, I)


def independent(prog, rep):
    I, st, P = new(prog)
    w = where(prog, find_class(prog, SP, 'Problem')) + '.independent'
    b4 = snap_all(I, st, P)
    r = I.call_method(P, 'independent', [const('t'), sym('units')], {}, st, None)
    o = I.read(st, P, 'independent_variable')
    rep.equal('independent returns the problem', r, P, w)
    rep.equal('independent: name', I.read(st, o, 'name'), const('t'), w)
    rep.equal('independent: units', I.read(st, o, 'units'), sym('units'), w)
    rep.equal('independent: symbol', I.read(st, o, 'sym'), tm.mk('symbol', const('t')), w)
    others(rep, 'independent', I, st, P, b4, ('independent variable',), w)
    I, st, P = new(prog)
    I.call_method(P, 'state', args(I, st, 'state'), {}, st, None)
    rejects(rep, 'independent with the name of a state is rejected', I, st,
            lambda: I.call_method(P, 'independent', [const('The_Name'), sym('units')], {}, st, None), w, 'RuntimeWarning')


def constraint(prog, rep, loc, full):
    I, st, P = new(prog)
    m = loc + '_constraint'
    w = where(prog, find_class(prog, SP, 'Problem')) + '.' + m
    vals = {k: sym('c_' + k) for k in ('expr', 'units', 'lower', 'upper', 'activator', 'method')}
    nm = '%s constraint%s' % (loc, ', all arguments' if full else '')
    I.call_method(P, m, [sym('e0'), sym('u0'), sym('l0'), sym('up0'), sym('a0')], {}, st, None)
    b4 = snap_all(I, st, P)
    if full:
        r = I.call_method(P, m, [vals['expr'], vals['units']],
                          {k: vals[k] for k in ('activator', 'upper', 'method', 'lower')}, st, None)
        want = vals
    elif loc == 'path':
        r = I.call_method(P, m, [vals[k] for k in ('expr', 'units', 'lower', 'upper', 'activator')], {}, st, None)
        want = dict(vals, method=const('utm'))
    else:
        r = I.call_method(P, m, [vals['expr'], vals['units']], {}, st, None)
        want = dict(vals, method=const('utm'), lower=NONE, upper=NONE, activator=NONE)
    note(rep, I)
    rep.equal('%s returns the problem' % nm, r, P, w)
    others(rep, nm, I, st, P, b4, (loc + ' constraints',), w)
    now = clist(I, st, P, loc)
    if now.op != 'seq' or len(now.args) != 2:
        rep.check('%s: appends one constraint' % nm, False if now.op == 'seq' else None, show(now)[:200], w)
        return
    rep.equal('%s: earlier constraints stay' % nm, now.args[0], b4[loc + ' constraints'].args[0], w)
    for k in vals:
        rep.equal('%s: %s is the one given' % (nm, k), I.read(st, now.args[1], k), want[k], w)
    rep.equal('%s: shares the compiler of the problem' % nm, I.read(st, now.args[1], 'local_compiler'),
              I.read(st, P, 'local_compiler'), w)


def costs(prog, rep):
    I, st, P = new(prog)
    w = where(prog, find_class(prog, SP, 'Problem'))
    c = I.read(st, P, 'cost')
    zero = num(0)
    for k in LOC:
        rep.equal('no %s cost to begin with' % k, I.read(st, c, k), zero, w)
    for k in LOC:
        I, st, P = new(prog)
        b4 = snap_all(I, st, P)
        r = I.call_method(P, k + '_cost', [sym('e'), sym('u')], {}, st, None)
        un = 'path_units' if k == 'path' else 'units'
        c = I.read(st, P, 'cost')
        rep.equal('%s cost returns the problem' % k, r, P, w)
        rep.equal('%s cost: expression is the one given' % k, I.read(st, c, k), sym('e'), w)
        rep.equal('%s cost: units are the ones given' % k, I.read(st, c, un), sym('u'), w)
        others(rep, '%s cost' % k, I, st, P, b4, ('cost ' + k, 'cost ' + un), w)
    # all three together
    I, st, P = new(prog)
    for k in ('terminal', 'path', 'initial'):
        I.call_method(P, k + '_cost', [sym('e_' + k), sym('u_path' if k == 'path' else 'u')], {}, st, None)
    c = I.read(st, P, 'cost')
    for k in LOC:
        rep.equal('three costs: %s is the one given' % k, I.read(st, c, k), sym('e_' + k), w)
    rep.equal('three costs: units', I.read(st, c, 'units'), sym('u'), w)
    rep.equal('three costs: path units', I.read(st, c, 'path_units'), sym('u_path'), w)
    I, st, P = new(prog)
    I.call_method(P, 'set_cost', [], {'terminal': sym('e_terminal'), 'initial': sym('e_initial'), 'path': sym('e_path'),
                                      'units': sym('u')}, st, None)
    c = I.read(st, P, 'cost')
    for k in LOC:
        rep.equal('set_cost: %s is the one given' % k, I.read(st, c, k), sym('e_' + k), w)
    rep.equal('set_cost: units', I.read(st, c, 'units'), sym('u'), w)
    rep.equal('set_cost: shares the compiler of the problem', I.read(st, c, 'local_compiler'),
              I.read(st, P, 'local_compiler'), w)
    note(rep, I)


def scale(prog, rep):
    I, st, P = new(prog)
    w = where(prog, find_class(prog, SP, 'Problem')) + '.scale'
    b4 = snap_all(I, st, P)
    r = I.call_method(P, 'scale', [], {'m': sym('e_m'), 's': sym('e_s'), 'kg': sym('e_kg')}, st, None)
    note(rep, I)
    rep.equal('scale returns the problem', r, P, w)
    us = plist(I, st, P, 'units')
    if us.op != 'seq' or len(us.args) != 3:
        rep.check('scale: one unit each', False if us.op == 'seq' else None, show(us)[:200], w)
        return
    got = seq(*[tup(I.read(st, x, 'name'), I.read(st, x, 'expr'), I.read(st, x, 'sym')) for x in us.args])
    want = seq(*[tup(const(n), sym('e_' + n), tm.mk('symbol', const(n))) for n in ('m', 's', 'kg')])
    rep.equal_bag('scale: each unit has its own magnitude', got, want, w)
    others(rep, 'scale', I, st, P, b4, ('units',), w)
    rejects(rep, 'scale with a name in use is rejected', I, st,
            lambda: I.call_method(P, 'scale', [], {'m': sym('again')}, st, None), w, 'RuntimeWarning')


def symmetry(prog, rep):
    for d in (None, FALSE, TRUE):
        I, st, P = new(prog)
        w = where(prog, find_class(prog, SP, 'Problem')) + '.symmetry'
        b4 = snap_all(I, st, P)
        f = I.alloc('list', 'f')
        st.heap[(f, '$')] = seq(sym('f0'), sym('f1'))
        r = I.call_method(P, 'symmetry', [f, sym('u')], {} if d is None else {'remove': d}, st, None)
        now = plist(I, st, P, 'symmetries')
        rep.equal('symmetry returns the problem', r, P, w)
        if now.op != 'seq' or len(now.args) != 1:
            rep.check('symmetry: appended', False if now.op == 'seq' else None, show(now)[:200], w)
            return
        o = now.args[0]
        rep.equal('symmetry: field is the one given', I.V(st, I.read(st, o, 'field')), seq(sym('f0'), sym('f1')), w)
        rep.equal('symmetry: units are the ones given', I.read(st, o, 'units'), sym('u'), w)
        rep.equal('symmetry: removal as asked for', I.read(st, o, 'remove'), TRUE if d is None else d, w)
        others(rep, 'symmetry', I, st, P, b4, ('symmetries',), w)
    note(rep, I)


def functions(prog, rep):
    for kind in ('custom_function', 'table'):
        I, st, P = new(prog)
        w = where(prog, find_class(prog, SP, 'Problem')) + '.' + kind
        gen = {}

        def mkgen(I, st, a, k):
            r = mk('call', 'generator', *[I.reify(st, I.V(st, x)) for x in a])
            gen['r'] = r
            gen['k'] = dict(zip(('base_func', 'name', 'arg_types', 'local_compiler'), a), **k)
            return r
        for n in ('CustomFunctionGenerator', 'SymTableGenerator'):
            I.intercepts['new:' + n] = mkgen
        I.intercepts['jit_compile_func'] = lambda I, st, a, k: mk('call', 'jit', a[0])
        I.intercepts['new:TableSpline1D'] = lambda I, st, a, k: mk('call', 'spline', *[I.reify(st, I.V(st, x)) for x in a])
        au = I.alloc('list', 'au')
        st.heap[(au, '$')] = seq(sym('au0'), sym('au1')) if kind == 'custom_function' else seq(sym('au0'))
        data, adata = I.alloc('list', 'data'), I.alloc('list', 'adata')
        st.heap[(data, '$')], st.heap[(adata, '$')] = vec('d', 4), vec('x', 4)
        if kind == 'custom_function':
            a = [const('fun'), sym('f'), sym('u'), au]
        else:
            a = [const('fun'), const('1d_spline'), data, adata, sym('u'), au]
        b4 = snap_all(I, st, P)
        r = I.call_method(P, kind, a, {}, st, None)
        note(rep, I)
        lst = 'custom_functions' if kind == 'custom_function' else 'tables'
        now = plist(I, st, P, lst)
        rep.equal('%s returns the problem' % kind, r, P, w)
        if now.op != 'seq' or len(now.args) != 1:
            rep.check('%s: appended' % kind, False if now.op == 'seq' else None, show(now)[:200], w)
            return
        o = now.args[0]
        rep.equal('%s: name' % kind, I.read(st, o, 'name'), const('fun'), w)
        rep.equal('%s: units' % kind, I.read(st, o, 'units'), sym('u'), w)
        rep.equal('%s: argument units' % kind, I.V(st, I.read(st, o, 'arg_units')), I.V(st, au), w)
        rep.equal('%s: expressions refer to it by its name' % kind,
                  I.lib.dict_get(I, st, sym_locals(I, st, P), const('fun')), gen.get('r'), w,
                  assume=(not_(eq(NONE, gen['r'])),))
        if kind == 'custom_function':
            rep.equal('custom_function: the function is the one given', gen['r'].args[1], mk('call', 'jit', sym('f')), w)
            rep.equal('custom_function: it is known by the name given', gen['k'].get('name', NONE), const('fun'), w)
            rep.equal('custom_function: one argument per argument unit', slen(I.V(st, gen['k'].get('arg_types', NONE))),
                      num(2), w)
            rep.equal('custom_function: its derivatives go to the compiler of the problem',
                      gen['k'].get('local_compiler', NONE), I.read(st, P, 'local_compiler'), w)
        else:
            rep.equal('table: data and arguments are the ones given', gen['r'].args[1],
                      mk('call', 'spline', const('fun'), vec('d', 4), vec('x', 4)), w)
        others(rep, kind, I, st, P, b4, (lst,), w)
        rejects(rep, '%s with a name in use is rejected' % kind, I, st,
                lambda: I.call_method(P, kind, a, {}, st, None), w, 'RuntimeWarning')
        if kind == 'table':
            I, st, P = new(prog)
            for n in ('CustomFunctionGenerator', 'SymTableGenerator'):
                I.intercepts['new:' + n] = mkgen
            I.intercepts['new:TableSpline1D'] = lambda I, st, a, k: sym('spline')
            a[1] = const('1D_Spline')
            b = [I.alloc('list', 'b%d' % i) if x in (data, adata, au) else x for i, x in enumerate(a)]
            for x, y in zip(a, b):
                if x is not y:
                    st.heap[(y, '$')] = vec('z', 1 if x is au else 4)
            v, pc, rs = attempt(I, st, lambda: I.call_method(P, kind, b, {}, st, None))
            rep.equal('the kind of table in capitals is accepted', pc, TRUE, w)
            I, st, P = new(prog)
            a[1] = const('2d_magic')
            rejects(rep, 'unknown kind of table is rejected', I, st,
                    lambda: I.call_method(P, kind, a, {}, st, None), w, 'NotImplementedError')


def vec(tag, n):
    return seq(*[sym('%s%d' % (tag, i), 'real') for i in range(n)])


def parsing(I):
    from .c18 import parse
    I.intercepts['LocalCompiler.sympify'] = lambda I, st, a, k: parse(I.reify(st, I.V(st, a[1])))
    I.intercepts['sympy.sympify'] = lambda I, st, a, k: parse(I.reify(st, I.V(st, a[0])))


def incomplete(prog, rep):
    w = where(prog, find_class(prog, SP, 'Problem')) + '.sympify_self'
    I, st, P = new(prog)
    parsing(I)
    I.call_method(P, 'control', args(I, st, 'control'), {}, st, None)
    rejects(rep, 'a problem without states is rejected', I, st,
            lambda: I.call_method(P, 'sympify_self', [], {}, st, None), w, 'RuntimeError')
    I, st, P = new(prog)
    parsing(I)
    I.intercepts['CostStruct.check_path_units'] = lambda I, st, a, k: a[0]
    I.call_method(P, 'state', args(I, st, 'state'), {}, st, None)
    v, pc, rs = attempt(I, st, lambda: I.call_method(P, 'sympify_self', [], {}, st, None))
    rep.equal('a problem with one state is accepted', pc, TRUE, w)
    note(rep, I)


def names(prog, rep):
    """what is entered is read with the names of the problem"""
    w = where(prog, find_class(prog, SP, 'Problem')) + '.sympify_self'
    I, st, P = new(prog)
    I.intercepts['CostStruct.check_path_units'] = lambda I, st, a, k: a[0]

    def read(I, st, a, k):
        l = k.get('locals', a[1] if len(a) > 1 else NONE)
        if a[0] is NONE or a[0].op == 'call' and a[0].args[0] == 'read':
            return a[0]
        return mk('call', 'read', I.reify(st, I.V(st, a[0])), const(l is sym_locals(I, st, P)))
    I.intercepts['sympy.sympify'] = read
    I.call_method(P, 'independent', [const('Time'), sym('u_time')], {}, st, None)
    kinds = [m for m in SPEC if m not in ('switch',)]
    given = {}
    for m in kinds:
        given[m] = args(I, st, m, '_' + m)
        I.call_method(P, m, given[m], {}, st, None)
    for k in LOC:
        I.call_method(P, k + '_constraint', [sym('e_' + k), sym('u_' + k), sym('l_' + k), sym('up_' + k), sym('a_' + k)],
                      {}, st, None)
        I.call_method(P, k + '_cost', [sym('c_' + k), sym('cu_' + k)], {}, st, None)
    I.call_method(P, 'sympify_self', [], {}, st, None)
    note(rep, I)
    rd = lambda e: mk('call', 'read', e, const(True))
    nm = '%s of a %s is read with the names of the problem'
    rep.equal(nm % ('units', 'independent variable'), I.read(st, I.read(st, P, 'independent_variable'), 'units'),
              rd(sym('u_time')), w)
    for m in kinds:
        lst, fs = SPEC[m]
        o = plist(I, st, P, lst).args[0]
        for f, v in zip(fs, given[m]):
            if f in ('eom', 'expr', 'units'):
                rep.equal(nm % (f, m), I.read(st, o, f), rd(v), w)
    for k in LOC:
        o = clist(I, st, P, k).args[0]
        for f, v in (('expr', 'e_'), ('units', 'u_'), ('lower', 'l_'), ('upper', 'up_'), ('activator', 'a_')):
            rep.equal(nm % (f, k + ' constraint'), I.read(st, o, f), rd(sym(v + k)), w,
                      assume=(not_(eq(NONE, sym(v + k))),))
        rep.equal(nm % (k, 'cost'), I.read(st, I.read(st, P, 'cost'), k), rd(sym('c_' + k)), w)
    rep.equal('everything is read', st.pc, TRUE, w)


def units(prog, rep):
    w = where(prog, find_class(prog, CS, 'CostStruct')) + '.check_path_units'
    # a parsed unit is kept as it is, so that the comparison is between the given units
    def mkc(u, pu):
        I, st, P = new(prog)
        I.intercepts['LocalCompiler.sympify'] = lambda I, st, a, k: a[1]
        I.intercepts['sympy.sympify'] = lambda I, st, a, k: a[0]
        I.call_method(P, 'independent', [const('t'), sym('u_t', 'real')], {}, st, None)
        I.call_method(P, 'state', args(I, st, 'state'), {}, st, None)
        c = I.read(st, P, 'cost')
        st.heap[(c, 'units')], st.heap[(c, 'path_units')] = u, pu
        return I, st, P, c
    U, PU, UT = sym('u', 'real'), sym('pu', 'real'), sym('u_t', 'real')
    go = lambda I, st, P: attempt(I, st, lambda: I.call_method(P, 'check_sufficient_problem', [], {}, st, None))
    I, st, P, c = mkc(U, NONE)
    v, pc, rs = go(I, st, P)
    rep.equal('path cost units follow from boundary cost units', I.read(st, c, 'path_units'), div(U, UT), w)
    rep.equal('boundary cost units are kept', I.read(st, c, 'units'), U, w)
    rep.equal('boundary cost units alone are accepted', pc, TRUE, w)
    I, st, P, c = mkc(NONE, PU)
    v, pc, rs = go(I, st, P)
    rep.equal('boundary cost units follow from path cost units', I.read(st, c, 'units'), mul(PU, UT), w)
    rep.equal('path cost units are kept', I.read(st, c, 'path_units'), PU, w)
    I, st, P, c = mkc(U, PU)
    v, pc, rs = go(I, st, P)
    note(rep, I)
    rep.equal('inconsistent cost units are rejected', pc, eq(U, mul(PU, UT)), w)
    cc = FALSE
    for n, p in rs:
        if n.split('.')[-1] == 'RuntimeWarning':
            cc = or_(cc, p)
    rep.equal('inconsistent cost units are reported', cc, not_(eq(U, mul(PU, UT))), w)


def several(prog, rep):
    """the order of entry is the order of the components"""
    I, st, P = new(prog)
    w = where(prog, find_class(prog, SP, 'Problem'))
    for i in range(3):
        for m in SPEC:
            a = args(I, st, m, '_%s_%d' % (m, i))
            I.call_method(P, m, a, {}, st, None)
    note(rep, I)
    for m, (lst, fs) in SPEC.items():
        now = plist(I, st, P, lst)
        got = elems(I, st, now, lambda x: I.read(st, x, 'name'))
        rep.equal('several components: %s in the order of entry' % lst, got,
                  seq(*[const('The_Name_%s_%d' % (m, i)) for i in range(3)]), w)
    rep.equal('several components: all accepted', st.pc, TRUE, w)
