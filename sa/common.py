"""Shared set-up for rules: symbolic problems, trajectories and helpers."""
from .interp import Interp, State
from .program import AnalysisError
from . import terms as tm
from .terms import *
from .report import Broken

MF = 'beluga.symbolic.data_classes.mapping_functions'
SP = 'beluga.symbolic.data_classes.symbolic_problem'
CS = 'beluga.symbolic.data_classes.components_structures'
TMAP = 'beluga.numeric.data_classes.trajectory_mappers'
TRAJ = 'beluga.numeric.data_classes.Trajectory'
NP = 'beluga.numeric.data_classes.NumericProblem'
CC = 'beluga.numeric.compilation.component_compilation'
LC = 'beluga.numeric.compilation.LocalCompiler'

LISTS = {
    'states': 'DynamicStruct', 'costates': 'DynamicStruct', 'coparameters': 'DynamicStruct',
    'quads': 'DynamicStruct', 'parameters': 'NamedDimensionalStruct', 'controls': 'NamedDimensionalStruct',
    'constraint_parameters': 'NamedDimensionalStruct', 'constraint_adjoints': 'NamedDimensionalStruct',
    'constants': 'Constant', 'quantities': 'NamedExpressionStruct', 'custom_functions': 'FunctionStruct',
    'tables': 'TableStruct', 'switches': 'SwitchStruct', 'symmetries': 'SymmetryStruct',
    'constants_of_motion': 'NamedDimensionalExpressionStruct', 'units': 'NamedExpressionStruct',
}


def find_class(prog, mod, name):
    try:
        return prog.find_class(mod, name)
    except AnalysisError as x:
        raise Broken(str(x))


def where(prog, obj):
    """file:name of a class or function"""
    m = getattr(obj, 'module', None)
    p = getattr(m, 'path', '')
    p = p.split('/repo/')[-1] if '/repo/' in p else p
    return '%s:%s' % (p, getattr(obj, 'qual', getattr(obj, 'name', '')))


def interp(prog):
    tm.BV_BOUND.clear()
    tm.LEN_AX.clear()
    tm.ROW_LEN.clear()
    tm.ATTR_LEN.clear()
    tm.ATTR_ROW.clear()
    I = Interp(prog)
    for nm, cl in LISTS.items():
        if nm == 'units':
            # a component's .units is an expression, Problem.units is a list
            I.attrcls[('Problem', 'units')] = 'list'
            continue
        I.attrcls[('Problem', nm)] = 'list'
        try:
            I.elemattr[nm] = prog.find_class(CS, cl)
        except AnalysisError as x:
            raise Broken(str(x))
    I.attrcls[('Problem', 'sol_map_chain')] = 'list'
    I.attrcls[('Problem', 'control_law')] = 'list'
    I.attrcls[('Problem', 'constraints')] = 'dict'
    I.dictkeys['constraints'] = seq(const('initial'), const('path'), const('terminal'))
    for k in ('initial', 'path', 'terminal'):
        I.attrcls["['%s']" % k] = 'list'
        I.elemattr["['%s']" % k] = find_class(prog, CS, 'ConstraintStruct')
    I.attrcls[('Problem', 'cost')] = find_class(prog, CS, 'CostStruct')
    I.attrcls[('Problem', 'hamiltonian')] = find_class(prog, CS, 'DimensionalExpressionStruct')
    I.attrcls[('Problem', 'independent_variable')] = find_class(prog, CS, 'NamedDimensionalStruct')
    I.attrcls['local_compiler'] = find_class(prog, LC, 'LocalCompiler')
    return I


def problem(I, st, name='prob', sympified=True, dualized=None):
    cls = find_class(I.prog, SP, 'Problem')
    P = I.input_obj(name, cls)
    st.heap[(P, 'sympified')] = TRUE if sympified else FALSE
    if dualized is not None:
        st.heap[(P, 'dualized')] = TRUE if dualized else FALSE
    if CONC[0] is not None:
        concretise(I, st, P)
    lc = I.get_attr(P, 'local_compiler', st, None)
    for m in ('lambdify', 'sympify', 'add_symbolic_local', 'add_function_local'):
        try:
            st.heap[(P, m)] = I.get_attr(lc, m, st, None)
        except Exception:
            pass
    return P


# sizes of the problem's lists in an instance run (None: lists of any length)
CONC = [None]


def concretise(I, st, P):
    """give the problem's lists definite lengths and their elements definite names"""
    def fill(lst, tag, n, cls):
        es = []
        for i in range(n):
            o = I.input_obj('%s%d' % (tag, i), cls)
            if 'NamedStruct' in [c.name for c in cls.mro()]:
                st.heap[(o, 'name')] = const('%s%d' % (tag, i))
                st.heap[(o, 'sym')] = mk('symbol', const('%s%d' % (tag, i)))
            es.append(o)
        st.heap[(lst, '$')] = seq(*es)
    size = CONC[0]
    for i, (nm, cl) in enumerate(LISTS.items()):
        if nm in ('units', 'custom_functions', 'tables', 'switches'):
            continue
        fill(I.read(st, P, nm), nm, size(i), find_class(I.prog, CS, cl))
    cs = I.read(st, P, 'constraints')
    for i, k in enumerate(('initial', 'path', 'terminal')):
        fill(I.read(st, cs, "['%s']" % k), k, size(20 + i), find_class(I.prog, CS, 'ConstraintStruct'))


def empty(I, st, P, *names):
    for n in names:
        st.heap[(I.read(st, P, n), '$')] = EMPTY


def plist(I, st, P, name):
    """current content of a list field of the problem"""
    return I.V(st, I.read(st, P, name))


def clist(I, st, P, loc):
    return I.V(st, I.read(st, I.read(st, P, 'constraints'), "['%s']" % loc))


def elems(I, st, s, f):
    """tabulate f over the elements of the sequence s, segment by segment"""
    if s.op == 'cat':
        return cat(*[elems(I, st, x, f) for x in s.args])
    if s.op in ('seq', 'tup'):
        return seq(*[f(x) for x in s.args])
    if s.op == 'ite':
        return ite(s.args[0], elems(I, st, s.args[1], f), elems(I, st, s.args[2], f))
    b = fresh_bv()
    return tab(slen(s), b, f(at(s, b)))


def field(I, st, s, name):
    """sequence of attribute `name` of the elements of s"""
    return elems(I, st, s, lambda x: I.reify(st, I.read(st, x, name)))


def functor(I, st, name, *args, **kw):
    """an instance of a problem transformation"""
    c = I.module_name(MF, name, st)
    if c is None or c.op != 'cls':
        raise Broken('transformation %s not found' % name)
    return I.instantiate(c.args[0], list(args), dict(kw), st, None)


def transform(I, st, fn, P):
    return I.call_method(fn, 'transformation', [P], {}, st, None)


def note(rep, I):
    fs = rep.analysed.setdefault('functions', [])
    for q in I.funcs_seen:
        if q not in fs:
            fs.append(q)
    rep.analysed['calls_resolved'] = rep.analysed.get('calls_resolved', 0) + I.ncalls


def scenario(rep, name, fn, budget=90):
    """run one analysis scenario; engine limits make its obligations undecided, never an alarm"""
    import time
    import traceback
    from .interp import State
    left = rep.t0 + 480 - time.time()       # the whole check has to answer within 900 s
    if left < 5:
        rep.undecided(name, 'analysis budget exceeded')
        return
    tm.DEADLINE[0] = time.time() + min(budget, left)
    n0 = len(rep.obligs)
    try:
        return fn()
    except Broken:
        raise
    except tm.Budget:
        rep.undecided(name, 'analysis budget exceeded')
    except RecursionError:
        rep.undecided(name, 'analysis depth exceeded')
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)[-1]
        rep.undecided(name, 'engine limit: %r at %s:%d' % (x, tb.filename.split('/')[-1], tb.lineno))
        if DEBUG:
            traceback.print_exc()
    finally:
        tm.DEADLINE[0] = None


import os
DEBUG = bool(os.environ.get('SA_DEBUG'))


# ---------------------------------------------------------------- trajectories
TFIELDS = ('t', 'dual_t', 'y', 'dual', 'q', 'u', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters', 'const')
MATS = ('y', 'dual', 'q', 'u', 'dual_u')


def trajectory(I, st, name='sol', **dims):
    """symbolic trajectory; dims gives row lengths of matrices / lengths of vectors, None = empty array"""
    cls = find_class(I.prog, TRAJ, 'Trajectory')
    S = I.input_obj(name, cls)
    N = dims.get('N') or sym('N', 'nat')
    for f in TFIELDS:
        I.attrcls[('Trajectory', f)] = 'ndarray'
        p = mk('attr', f, S)
        c = mk('cont', p)
        d = dims.get(f, 'default')
        if d is None:
            st.heap[(p, '$')] = EMPTY
            continue
        if f in MATS:
            tm.LEN_AX[c] = N
            tm.ROW_LEN[c] = d if d != 'default' else sym('n_' + f, 'nat')
            I.ranks[c] = 2
        elif f in ('t', 'dual_t'):
            tm.LEN_AX[c] = N
            I.ranks[c] = 1
        else:
            tm.LEN_AX[c] = d if d != 'default' else sym('n_' + f, 'nat')
            I.ranks[c] = 1
    return S


def tf(I, st, S, f):
    """current content of a trajectory field"""
    v = I.read(st, S, f)
    return I.reify(st, I.V(st, v))


def arr(S, f):
    """original content of a trajectory field"""
    return mk('cont', mk('attr', f, S))


def mapper_of(I, st, P, n=-1):
    chain = plist(I, st, P, 'sol_map_chain')
    if chain.op == 'cat' and chain.args[-1].op == 'seq':
        return chain.args[-1].args[n]
    if chain.op == 'seq' and chain.args:
        return chain.args[n]
    return None


def rows(n, f):
    b = fresh_bv()
    return tab(n, b, f(b))


def exc_name(r):
    """class name of a raised exception"""
    e = r.exc
    while e is not None and getattr(e, 'op', None) in ('exc', 'call', 'inst', 'cls', 'fn'):
        a = e.args[0]
        if isinstance(a, str):
            return a
        if hasattr(a, 'name'):
            return a.name
        e = a
    if getattr(e, 'op', None) == 'const':
        return str(e.args[0])
    return show(e) if e is not None else '?'


def attempt(I, st, thunk):
    """run thunk; returns (value, condition of normal completion, [(exception name, condition)])"""
    n0 = len(I.raises[-1])
    v = thunk()
    rs = [(exc_name(r), r.pc) for r in I.raises[-1][n0:]]
    return v, st.pc, rs


def rejects(rep, name, I, st, thunk, where='', exc=None, assume=()):
    """thunk never completes normally (and raises the given exception when one is named)"""
    v, pc, rs = attempt(I, st, thunk)
    rep.equal(name, pc, FALSE, where, assume=assume)
    if exc:
        c = FALSE
        for n, p in rs:
            if n.split('.')[-1] == exc:
                c = or_(c, p)
        rep.equal('%s (%s)' % (name, exc), c, TRUE, where, assume=assume)
    return rs


def dict_(I, st, d):
    x = I.alloc('dict', 'd')
    st.heap[(x, '$keys')] = seq(*[const(k) for k in d])
    for k, v in d.items():
        st.heap[(x, "['%s']" % k)] = v
    return x


def spread(t):
    """evaluation of an expression distributed over sums, products, powers and elementary functions"""
    fun = ('sin', 'cos', 'exp', 'asin', 'acos', 'log', 'tan', 'atan', 'sqrt')

    def look(e, binds):
        for b in binds:
            s, v = b.args
            if s.op == 'seq' and e in s.args:
                return at(v, num(s.args.index(e)))
            if e.op == 'at' and e.args[0] is s:
                return at(v, e.args[1])
            if e.op == 'attr' and s.op == 'tab':
                n, k, body = open_binder(s)
                if body.op == 'attr' and body.args[0] == e.args[0] and e.args[1].op == 'at' and body.args[1].op == 'at' \
                        and body.args[1].args[0] is e.args[1].args[0] and body.args[1].args[1] is k:
                    return at(v, e.args[1].args[1])
        return None

    def ev(e, binds):
        if e.op == 'num':
            return e
        if e.op == 'poly':
            r = ZERO
            for m, c in e.args[0]:
                p = num(c)
                for a, k in m:
                    p = mul(p, power(ev(a, binds), num(k)))
                r = add(r, p)
            return r
        if e.op == 'call' and e.args[0] in fun:
            return mk('call', e.args[0], *[ev(a, binds) for a in e.args[1:]])
        if e.op == 'inv':
            return div(ONE, ev(e.args[0], binds))
        r = look(e, binds)
        return r if r is not None else mk('ev', e, mk('tup', *binds))
    def go(t):
        if t.op == 'tab':
            n, b, body = open_binder(t)
            return tab(n, b, go(body))
        if t.op == 'seq':
            return seq(*[go(x) for x in t.args])
        if t.op == 'cat':
            return cat(*[go(x) for x in t.args])
        if t.op == 'ite':
            return ite(t.args[0], go(t.args[1]), go(t.args[2]))
        m = {x: ev(x.args[0], x.args[1].args) for x in subterms(t) if x.op == 'ev' and x.args[1].op == 'tup'}
        return subst(t, m) if m else t
    return go(t)
