"""C05: a switched quantity becomes the blend of its alternatives, each with its own logistic weight."""
from .mapsc import *

EXPLANATION = ('The switch component is parsed abstractly for every shape of alternatives and conditions (with symbolic '
               'expressions) and the blend it builds is compared with the relaxed-switching formula; the replacement '
               'step is checked to substitute each switch by its own blend in the whole problem.')


def run(prog, rep):
    for shape in ((1,), (1, 1), (1, 1, 1), (2, 1), (1, 2), (2, 2)):
        nm = 'alternatives with %s conditions' % (list(shape),)
        scenario(rep, nm, lambda: blend(prog, rep, nm, shape))
    scenario(rep, 'symbolic sizes', lambda: sizes(prog, rep))
    for n in (1, 2, 3):
        scenario(rep, 'replace %d' % n, lambda: replace(prog, rep, n))


def sig(c, tol):
    return inv(add(ONE, mk('call', 'exp', div(c, tol))))


def blend(prog, rep, nm, shape):
    s = base(prog)
    I, st = s.I, s.st
    cls = find_class(prog, CS, 'SwitchStruct')
    w = where(prog, cls)
    I.intercepts['LocalCompiler.sympify'] = lambda I, st, a, k: a[1]
    fs = [sym('f%d' % i, 'real') for i in range(len(shape))]
    cs = [[sym('c%d_%d' % (i, j), 'real') for j in range(n)] for i, n in enumerate(shape)]
    tol = sym('tol', 'real')
    lc = I.read(st, s.P, 'local_compiler')
    fl = I.new_list(st, seq(*fs))
    cl = I.new_list(st, seq(*[I.new_list(st, seq(*r)) for r in cs]))
    sw = I.instantiate(cls, [const('sw'), fl, cl, tol], {'local_compiler': lc}, st, None)
    I.call_method(sw, 'sympify_self', [], {}, st, None)
    note(rep, I)
    want = ZERO
    for f, row in zip(fs, cs):
        for c in row:
            want = add(want, mul(f, sig(c, tol)))
    rep.equal('%s: the blend is the sum of alternatives times the logistic weight of their own conditions' % nm,
              I.read(st, sw, 'sym_func'), want, w)
    # parsing again gives the same blend
    I.call_method(sw, 'sympify_self', [], {}, st, None)
    rep.equal('%s: parsing twice gives the same blend' % nm, I.read(st, sw, 'sym_func'), want, w)


def sizes(prog, rep):
    """any number of alternatives with one condition each"""
    s = base(prog)
    I, st = s.I, s.st
    cls = find_class(prog, CS, 'SwitchStruct')
    w = where(prog, cls)
    I.intercepts['LocalCompiler.sympify'] = lambda I, st, a, k: a[1]
    n = sym('n', 'nat')
    fs, cs = sym('functions'), sym('conds')
    k = fresh_bv()
    tol = sym('tol', 'real')
    lc = I.read(st, s.P, 'local_compiler')
    f = rows(n, lambda k: mk('at', fs, k))
    c = rows(n, lambda k: seq(mk('at', cs, k)))
    sw = I.instantiate(cls, [const('sw'), I.new_list(st, f), I.new_list(st, c), tol], {'local_compiler': lc}, st, None)
    I.call_method(sw, 'sympify_self', [], {}, st, None)
    note(rep, I)
    want = sum_(n, k, mul(mk('at', fs, k), sig(mk('at', cs, k), tol)))
    rep.equal('any number of alternatives: the blend is the weighted sum', I.read(st, sw, 'sym_func'), want, w)


def replace(prog, rep, n):
    s = base(prog)
    I, st, P = s.I, s.st, s.P
    cls = find_class(prog, CS, 'SwitchStruct')
    w = where(prog, find_class(prog, MF, 'RASHS'))
    sw = [I.input_obj('switch%d' % i, cls) for i in range(n)]
    for i, x in enumerate(sw):
        st.heap[(x, 'sym_func')] = sym('blend%d' % i, 'real')
    st.heap[(I.read(st, P, 'switches'), '$')] = seq(*sw)
    rec = []
    I.intercepts['Problem.subs_all'] = lambda I, st, a, k: (rec.append((I.reify(st, a[1]), I.reify(st, a[2]))), a[0])[1]
    transform(I, st, functor(I, st, 'RASHS'), P)
    note(rep, I)
    got = seq(*[tup(a, b) for a, b in rec])
    want = seq(*[tup(I.read(st, x, 'sym'), sym('blend%d' % i, 'real')) for i, x in enumerate(sw)])
    rep.equal_bag('%d switches: each symbol is replaced in the whole problem by its own blend' % n, got, want, w)
