"""Models of the library functions the repository calls (builtins, numpy, sympy, copy, ...).

Arrays and lists are sequence terms; a matrix is a sequence of rows.  Calls that have no model
become uninterpreted applications of their name to the values of their arguments, so equal
calls on equal values stay equal and nothing else is assumed about them.
"""
import ast
from .terms import *
from .terms import _rowlen
from .program import AnalysisError, ClassObj

SEQ_OPS = {'seq', 'cat', 'tab', 'insat', 'delat', 'setat', 'slice', 'insmany', 'delmany', 'cont', 'perm', 'filt',
           'flat', 'tup'}


LOG_LEVELS = {'NOTSET': 0, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'WARN': 30, 'ERROR': 40, 'CRITICAL': 50, 'FATAL': 50}


def libname(d):
    if d.startswith('logging.') and d[8:] in LOG_LEVELS:
        return num(LOG_LEVELS[d[8:]])
    if d in ('sympy.pi', 'numpy.pi', 'math.pi'):
        return sym('pi', 'real')
    if d in ('numpy.nan', 'math.nan'):
        return sym('nan', 'real')
    if d in ('numpy.inf', 'math.inf'):
        return sym('inf', 'real')
    if d in ('numpy.newaxis',):
        return NONE
    return mk('mod', d)


# ------------------------------------------------------------------ ranks
def rank(I, t):
    if t.op in ('seq', 'tup'):
        return 1 + max([rank(I, x) for x in t.args] or [0])
    if t.op == 'tab':
        return 1 + rank(I, t.args[2])
    if t.op == 'cat':
        return max(rank(I, x) for x in t.args)
    if t.op in ('insat', 'setat', 'delat', 'slice', 'insmany', 'delmany'):
        return max(1, rank(I, t.args[0]))
    if t.op == 'at':
        return max(0, rank(I, t.args[0]) - 1)
    if t.op == 'ite':
        return max(rank(I, t.args[1]), rank(I, t.args[2]))
    if t.op == 'cont':
        p = t.args[0]
        while p.op == 'cp':
            p = p.args[1]
        if t in I.ranks:
            return I.ranks[t]
        if p.op == 'attr':
            return I.ranks.get(p.args[0], 1)
        return 1
    if t.op in ('perm', 'filt', 'flat'):
        return 1
    if t.op == 'call' and isinstance(t.args[0], str):
        return I.ranks.get('call:' + t.args[0], 0)
    if t.op in ('sym', 'ev', 'attr', 'wexit', 'fold'):
        return I.ranks.get(t, 0)
    return 0


def is_arr(I, st, v):
    return I.class_of(v) in ('ndarray',) or rank(I, v) > 0


def as_seq(I, st, v):
    c = I.class_of(v)
    if c in ('list', 'ndarray', 'deque'):
        return I.V(st, v)
    if c == 'matrix':
        return flatten(I, I.read(st, v, '$', EMPTY))
    if c == 'dict':
        return dict_keys(I, st, v)
    if isinstance(c, ClassObj):
        if 'list' in c.ext_bases():
            return I.read(st, v, '$', EMPTY)
        if 'dict' in c.ext_bases():
            return dict_keys(I, st, v)
    if v.op == 'tup':
        return seq(*v.args)
    if v.op == 'ite':
        return ite(v.args[0], as_seq(I, st, v.args[1]), as_seq(I, st, v.args[2]))
    if v.op == 'const' and isinstance(v.args[0], str):
        return seq(*[const(ch) for ch in v.args[0]])
    if v.op == 'set':
        return seq(*v.args)
    return v


def val(I, st, v):
    """deep value of v (addresses replaced by contents)"""
    return I.reify(st, v)


def nseq(t):
    return seq(*t.args) if t.op == 'tup' else t


# ------------------------------------------------------------------ elementwise
def elementwise(I, f, *xs):
    """apply scalar function f with numpy broadcasting"""
    rs = [rank(I, x) for x in xs]
    m = max(rs)
    if m == 0:
        for k, x in enumerate(xs):
            if x.op == 'ite':
                pass
        return f(*xs)
    for k, x in enumerate(xs):
        if x.op == 'ite' and rs[k] == m:
            a = list(xs)
            b = list(xs)
            a[k], b[k] = x.args[1], x.args[2]
            return ite(x.args[0], elementwise(I, f, *a), elementwise(I, f, *b))
    lead = [nseq(x) for x, r in zip(xs, rs) if r == m]
    # literal sequences
    L = None
    for x in lead:
        n = slen(x)
        if L is None or (L is ONE and n is not ONE):
            L = n
    # aligned concatenations
    cats = [x for x in lead if x.op == 'cat']
    if cats and m == 1:
        bnd = [slen(s) for s in cats[0].args]
        ok = all((x.op == 'cat' and len(x.args) == len(bnd) and all(slen(s) is b for s, b in zip(x.args, bnd)))
                 for x in lead)
        if ok:
            parts = []
            for k in range(len(bnd)):
                ys = [(nseq(x).args[k] if r == m else x) for x, r in zip(xs, rs)]
                parts.append(elementwise(I, f, *ys))
            return cat(*parts)
    if L.op == 'num' and all(x.op == 'seq' for x in lead):
        n = int(L.args[0])
        out = []
        for j in range(n):
            ys = []
            for x, r in zip(xs, rs):
                if r == m:
                    x = nseq(x)
                    ys.append(x.args[0] if len(x.args) == 1 else at(x, num(j)))
                else:
                    ys.append(x)
            out.append(elementwise(I, f, *ys))
        return seq(*out)
    b = fresh_bv()
    ys = []
    for x, r in zip(xs, rs):
        if r == m:
            x = nseq(x)
            ys.append(at(x, ZERO) if (slen(x) is ONE and L is not ONE) else at(x, b))
        else:
            ys.append(x)
    return tab(L, b, elementwise(I, f, *ys))


def fn1(name):
    def g(x):
        if x.op == 'ite':
            return ite(x.args[0], g(x.args[1]), g(x.args[2]))
        if name == 'sin' and x is ZERO:
            return ZERO
        if name in ('cos', 'exp') and x is ZERO:
            return ONE
        if name in ('asin', 'tan', 'atan', 'log1p') and x is ZERO:
            return ZERO
        if name in ('ceil', 'floor'):
            if is_int(x):
                return x
            if x.op == 'num':
                import math
                return num(getattr(math, name)(x.args[0]))
        if name == 'abs':
            if x.op == 'num':
                return num(abs(x.args[0]))
            if all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in as_poly(x).items()):
                return x
            # sign-normalise
            items = sorted(as_poly(x).items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
            if items and items[-1][1] < 0:
                x = neg(x)
        if name == 'sqrt':
            return power(x, num(Fraction(1, 2)))
        if name == 'isnan':
            if x.op == 'sym' and x.args[0] == 'nan':
                return TRUE
            if x.op in ('num', 'sym'):
                return FALSE            # the inputs are real numbers
        return mk('call', name, x)
    return g


UFUNC = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'sqrt': 'sqrt',
         'asin': 'asin', 'arcsin': 'asin', 'acos': 'acos', 'arccos': 'acos', 'atan': 'atan', 'arctan': 'atan',
         'abs': 'abs', 'fabs': 'abs', 'absolute': 'abs', 'Abs': 'abs', 'ceil': 'ceil', 'floor': 'floor',
         'isnan': 'isnan', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'sign': 'sign'}


def neg_value(I, v):
    if rank(I, v) > 0:
        return elementwise(I, neg, v)
    return neg(v)


ARITH = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'Pow': power,
         'FloorDiv': lambda a, b: floordiv(a, b), 'Mod': lambda a, b: modop(a, b)}


def floordiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE and is_int(a):
        return a
    return mk('floordiv', a, b)


def modop(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return mk('mod_', a, b)


DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
          'Div': ('__truediv__', '__rtruediv__'), 'Pow': ('__pow__', '__rpow__'), 'LShift': ('__lshift__', None),
          'RShift': ('__rshift__', None), 'MatMult': ('__matmul__', None)}


def is_strish(t):
    return (t.op == 'const' and isinstance(t.args[0], str)) or t.op in ('strcat', 'str', 'fmt')


def binop(I, st, op, a, b, node):
    ca, cb = I.class_of(a), I.class_of(b)
    d = DUNDER.get(op)
    if d:
        if isinstance(ca, ClassObj) and ca.find(d[0])[1] is not None:
            return I.call_method(a, d[0], [b], {}, st, node)
        if isinstance(cb, ClassObj) and d[1] and cb.find(d[1])[1] is not None:
            return I.call_method(b, d[1], [a], {}, st, node)
    if op == 'Add' and (is_strish(a) or is_strish(b)):
        return strcat(str_(a) if a.op != 'attr' else a, str_(b) if b.op != 'attr' else b)
    if op == 'Mod' and is_strish(a):
        return mk('fmt', a, val(I, st, b))
    if a.op == 'ite' and (I.class_of(a) is None) and any(I.class_of(x) == 'list' for x in a.args[1:]):
        return ite(a.args[0], binop(I, st, op, a.args[1], b, node), binop(I, st, op, a.args[2], b, node))
    listy = lambda c, t: c in ('list', 'tuple') or (isinstance(c, ClassObj) and 'list' in c.ext_bases()) or \
        (c == 'rawseq')
    if op == 'Add' and listy(ca, a) and (listy(cb, b) or cb == 'ndarray'):
        if ca == 'list' and cb == 'list' or ca == 'rawseq' or cb == 'rawseq':
            r = cat(as_seq(I, st, a), as_seq(I, st, b))
            return I.new_list(st, r) if ca == 'list' else r
        if ca == 'tuple' and cb == 'tuple':
            c = cat(as_seq(I, st, a), as_seq(I, st, b))
            return tup(*c.args) if c.op == 'seq' else c
        if cb != 'ndarray':
            return I.new_list(st, cat(as_seq(I, st, a), as_seq(I, st, b)))
    if op == 'Mult' and (ca in ('list', 'tuple') or cb in ('list', 'tuple')) and not (ca == 'ndarray' or cb == 'ndarray'):
        s, n = (a, b) if ca in ('list', 'tuple') else (b, a)
        sv = as_seq(I, st, s)
        if n.op == 'num':
            k = int(n.args[0])
            return I.new_list(st, cat(*[sv] * k)) if k > 0 else I.new_list(st, EMPTY)
        if sv.op == 'seq' and len(sv.args) == 1:
            return I.new_list(st, tab(n, fresh_bv(), sv.args[0]))
        return I.new_list(st, mk('repeat', sv, n))
    f = ARITH.get(op)
    va, vb = I.V(st, a), I.V(st, b)
    if f is None:
        if op == 'MatMult':
            return matmul(I, st, va, vb)
        return mk('call', op, val(I, st, va), val(I, st, vb))
    if va.op == 'matrix_' or vb.op == 'matrix_':
        pass
    if I.class_of(a) == 'matrix' or I.class_of(b) == 'matrix':
        return matrix_op(I, st, op, a, b)
    va, vb = val(I, st, va), val(I, st, vb)
    if rank(I, va) > 0 or rank(I, vb) > 0:
        return I.new_array(st, elementwise(I, f, va, vb))
    if va.op == 'ite' and not numericish(va):
        pass
    if va is NONE or vb is NONE or va.op == 'const' and not isinstance(va.args[0], bool) or \
            vb.op == 'const' and not isinstance(vb.args[0], bool):
        if va.op == 'const' and isinstance(va.args[0], complex) or vb.op == 'const' and isinstance(vb.args[0], complex):
            return mk('call', 'c' + op, va, vb)
        return mk('opaque', 'operand', va, vb)
    return f(bnum(va), bnum(vb))


def bnum(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def numericish(t):
    return True


def matrix_op(I, st, op, a, b):
    """sympy Matrix arithmetic; a matrix value is matrix boxed as class 'matrix' with '$' rows"""
    va, vb = I.read(st, a, '$', a) if I.class_of(a) == 'matrix' else val(I, st, a), \
        I.read(st, b, '$', b) if I.class_of(b) == 'matrix' else val(I, st, b)
    if op == 'Mult' and I.class_of(a) == 'matrix' and I.class_of(b) == 'matrix':
        return I.new_list(st, mat2(I, va, vb), 'matrix', 'm')
    return I.new_list(st, elementwise(I, ARITH[op], va, vb), 'matrix', 'm')


def mat2(I, A, B):
    i, j, k = fresh_bv(), fresh_bv(), fresh_bv()
    inner = slen(B)
    rl = {_rowlen(x) for x in (B.args if B.op == 'cat' else (B,))}
    cols = rl.pop() if len(rl) == 1 and None not in rl else slen(at(B, ZERO))
    return tab(slen(A), i, tab(cols, j, sum_(inner, k, mul(at(at(A, i), k), at(at(B, k), j)))))


def matmul(I, st, A, B):
    A, B = val(I, st, A), val(I, st, B)
    ra, rb = rank(I, A), rank(I, B)
    if ra == 1 and rb == 1:
        k = fresh_bv()
        return sum_(slen(A), k, mul(at(A, k), at(B, k)))
    if ra == 2 and rb == 1:
        i, k = fresh_bv(), fresh_bv()
        return I.new_array(st, tab(slen(A), i, sum_(slen(B), k, mul(at(at(A, i), k), at(B, k)))))
    if ra == 2 and rb == 2:
        return I.new_array(st, mat2(I, A, B))
    return mk('call', 'dot', A, B)


CMP = {'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}


def compare(I, st, op, l, r):
    if op in ('Is', 'IsNot'):
        e = ident(I, st, l, r)
        return e if op == 'Is' else not_(e)
    if op in ('In', 'NotIn'):
        e = isin(I, st, l, r)
        return e if op == 'In' else not_(e)
    lv, rv = val(I, st, l), val(I, st, r)
    if op in ('Eq', 'NotEq'):
        if I.is_obj(l) or I.is_obj(r):
            cl = I.class_of(l)
            if isinstance(cl, ClassObj) and cl.find('__eq__')[1] is not None:
                e = I.truth(I.call_method(l, '__eq__', [r], {}, st, None), st)
            else:
                e = ident(I, st, l, r)
        elif is_arr(I, st, lv) and I.class_of(l) == 'ndarray' or I.class_of(r) == 'ndarray':
            return I.new_array(st, elementwise(I, eq, lv, rv))
        else:
            e = eq(nseq(lv), nseq(rv))
        return e if op == 'Eq' else not_(e)
    f = CMP[op]
    if rank(I, lv) or rank(I, rv):
        return I.new_array(st, elementwise(I, f, lv, rv))
    if lv is NONE or rv is NONE:
        return mk('opaque', 'compare none')
    return f(bnum(lv), bnum(rv))


def ident(I, st, l, r):
    if l is r:
        return TRUE
    if (l is NONE and r.op == 'attr' and I.class_of(r) == 'ndarray') or (r is NONE and l.op == 'attr' and I.class_of(l) == 'ndarray'):
        return FALSE
    if l is NONE or r is NONE or l in (TRUE, FALSE) or r in (TRUE, FALSE):
        return eq(l, r)
    if l.op == 'ref' and r.op == 'ref' and l.args[0] != r.args[0]:
        return FALSE
    if {l.op, r.op} == {'cp', 'at'} or {l.op, r.op} == {'cp', 'ref'} or {l.op, r.op} == {'ref', 'at'}:
        return FALSE
    if l.op == 'cp' and r.op == 'cp' and not l.fbv and not r.fbv:
        # copies made by different calls are different objects; one call copies an object once
        return FALSE if l.args[0] is not r.args[0] and l.args[0] != r.args[0] else ident(I, st, l.args[1], r.args[1])
    if l.op == 'at' and r.op == 'at':
        if l.args[0] is r.args[0]:
            return eq(l.args[1], r.args[1])
        if I.distinct_seq(l.args[0], r.args[0]):
            return FALSE
    return eq(l, r)


def isin(I, st, x, c):
    if c.op == 'ite':
        return ite(c.args[0], isin(I, st, x, c.args[1]), isin(I, st, x, c.args[2]))
    cls = I.class_of(c)
    if cls == 'dict' or (isinstance(cls, ClassObj) and 'dict' in cls.ext_bases()) or c.op in ('mkmap', 'setkey'):
        ks = dict_keys(I, st, c)
        return isin_seq(I, st, x, ks)
    if c.op == 'set':
        return or_(*[eq(val(I, st, x), val(I, st, y)) for y in c.args])
    if c.op == 'setof':
        return isin_seq(I, st, x, c.args[0])
    if c.op == 'const' and isinstance(c.args[0], str):
        if x.op == 'const':
            return TRUE if x.args[0] in c.args[0] else FALSE
        return mk('isin', x, c)
    s = as_seq(I, st, c)
    if s.op == 'mapkeys' or s.op == 'cont' or s.op in SEQ_OPS:
        return isin_seq(I, st, x, s)
    return mk('isin', val(I, st, x), val(I, st, s))


def isin_seq(I, st, x, s):
    xv = x if I.is_obj(x) else val(I, st, x)
    segs = s.args if s.op == 'cat' else (s,)
    out = []
    for g in segs:
        if g.op in ('seq', 'tup'):
            for y in g.args:
                out.append(ident(I, st, x, y) if I.is_obj(x) else eq(xv, val(I, st, y)))
        elif g.op == 'mapkeys':
            out.append(mk('haskey', g.args[0], xv))
        else:
            b = fresh_bv()
            y = at(g, b)
            out.append(any_(slen(g), b, ident(I, st, x, y) if I.is_obj(x) else eq(xv, val(I, st, y))))
    return or_(*out) if out else FALSE


# ------------------------------------------------------------------ indexing
def norm_idx(i):
    return i


def slice_of(I, s, so):
    lo, hi, step = so.args
    if step is not NONE and step is not ONE:
        if step.op == 'num' and step.args[0] == -1 and lo is NONE and hi is NONE:
            n = slen(s)
            if s.op in ('seq', 'tup'):
                return seq(*reversed(s.args))
            b = fresh_bv()
            return tab(n, b, at(s, sub(sub(n, ONE), b)))
        if s.op in ('seq', 'tup') and all(x is NONE or x.op == 'num' for x in so.args):
            g = lambda x: None if x is NONE else int(x.args[0])
            return seq(*s.args[g(lo):g(hi):g(step)])
        return mk('stride', s, lo, hi, step)
    return slice_(nseq(s), lo, hi)


def getitem(I, st, o, i, node=None):
    if o.op == 'ite':
        return ite(o.args[0], getitem(I, st, o.args[1], i, node), getitem(I, st, o.args[2], i, node))
    if o is UNDEF:
        return UNDEF
    c = I.class_of(o)
    if c == 'dict' or (isinstance(c, ClassObj) and 'dict' in c.ext_bases()) or o.op in ('mkmap', 'setkey', 'mapatom'):
        return dict_get(I, st, o, i)
    if isinstance(c, ClassObj):
        if c.find('__getitem__')[1] is not None:
            return I.call_method(o, '__getitem__', [i], {}, st, node)
        if 'list' in c.ext_bases():
            s = I.read(st, o, '$', EMPTY)
            return index1(I, st, s, i)
    if o.op == 'mod':
        if o.args[0].endswith('.s_'):
            return i
        if o.args[0].endswith('.r_'):
            v = val(I, st, i)
            vs = v.args if v.op == 'tup' else (v,)
            return I.new_array(st, cat(*[x if rank(I, x) else seq(x) for x in vs]))
        if o.args[0] == 'sys.modules' and i.op == 'const' and i.args[0] in I.prog.modules:
            return mk('mod', i.args[0])
        return mk('opaque', 'subscript of module', o)
    if c == 'matrix':
        s = I.read(st, o, '$')
        if i.op == 'tup':
            return index_n(I, st, s, i.args)
        # flat index into a column vector
        return at(at(s, i), ZERO)
    s = I.V(st, o)
    if i.op == 'tup':
        r = index_n(I, st, s, i.args)
    else:
        r = index1(I, st, s, i)
    if r is UNDEF and s.op in ('seq', 'tup') and I.V(st, i).op == 'num' and \
            not -len(s.args) <= I.V(st, i).args[0] < len(s.args):
        return mk('opaque', 'index out of range')
    if c == 'list' and i.op == 'sliceobj':
        return I.new_list(st, r)
    if c == 'ndarray' and i.op == 'sliceobj':
        return I.new_array(st, r)
    return r


def index1(I, st, s, i):
    if i.op == 'sliceobj':
        return slice_of(I, s, i)
    iv = I.V(st, i)
    if iv.op in SEQ_OPS or rank(I, iv) > 0:
        iv = nseq(iv)
        if iv.op == 'seq':
            return seq(*[at(s, x) for x in iv.args])
        b = fresh_bv()
        return tab(slen(iv), b, at(s, at(iv, b)))
    if i.op == 'const' and isinstance(i.args[0], str):
        return mk('attr', '[' + repr(i.args[0]) + ']', s)
    if iv.op in ('const',):
        return mk('opaque', 'index', iv)
    return at(s, iv)


def index_n(I, st, s, idx):
    if not idx:
        return s
    i = idx[0]
    if i is const(Ellipsis):
        return index_n(I, st, s, idx[1:])
    if i.op == 'sliceobj':
        s2 = slice_of(I, s, i)
        if len(idx) == 1:
            return s2
        if s2.op == 'seq':
            return seq(*[index_n(I, st, x, idx[1:]) for x in s2.args])
        b = fresh_bv()
        return tab(slen(s2), b, index_n(I, st, at(s2, b), idx[1:]))
    return index_n(I, st, index1(I, st, s, i), idx[1:])


def setitem(I, st, s, i, v):
    if i.op == 'tup':
        return set_n(I, st, s, i.args, val(I, st, v))
    if i.op == 'sliceobj':
        return set_n(I, st, s, (i,), val(I, st, v))
    keep = v if (I.is_obj(v) or I.class_of(v) in ('list', 'ndarray', 'dict')) and False else v
    return setat(nseq(s), I.V(st, i), keep)


def set_n(I, st, s, idx, v):
    i = idx[0]
    if i.op == 'sliceobj':
        lo, hi, step = i.args
        n = slen(s)
        full = lo is NONE and hi is NONE
        lo2 = ZERO if lo is NONE else lo
        hi2 = n if hi is NONE else hi
        b = fresh_bv()
        if len(idx) == 1:
            mid = v if rank(I, v) > 0 else tab(sub(hi2, lo2), b, v)
        else:
            def row(k):
                vv = at(v, k) if rank(I, v) > 0 else v
                return set_n(I, st, at(s, add(lo2, k)), idx[1:], vv)
            mid = tab(sub(hi2, lo2), b, row(b))
        if full:
            return mid
        return cat(slice_(s, ZERO, lo2), mid, slice_(s, hi2, NONE))
    i = I.V(st, i)
    if len(idx) == 1:
        return setat(s, i, v)
    return setat(s, i, set_n(I, st, at(s, i), idx[1:], v))


def delete_idx(I, s, i):
    s = nseq(s)
    if i.op == 'sliceobj':
        lo, hi, step = i.args
        return cat(slice_(s, ZERO, ZERO if lo is NONE else lo), slice_(s, slen(s) if hi is NONE else hi, NONE))
    if i.op in SEQ_OPS:
        return delmany(s, nseq(i))
    if i.op == 'num' and i.args[0] < 0:
        return delat(s, i)
    if neg_nat(i) and i.op != 'num':
        return delat(s, add(slen(s), i))
    return delat(s, i)


# ------------------------------------------------------------------ dicts
def fkey(k):
    return '[' + repr(k.args[0] if k.op == 'const' else float(k.args[0])) + ']'


def const_key(k):
    return k.op in ('const', 'num')


def dict_keys(I, st, d):
    if d.op == 'ite':
        return ite(d.args[0], dict_keys(I, st, d.args[1]), dict_keys(I, st, d.args[2]))
    if d.op in ('mkmap', 'setkey', 'mapatom'):
        return map_keys(I, d)
    mp = I.read_fam_only(st, d, '$map')
    if mp is not None:
        return map_keys(I, mp)
    ks = I.read_fam_only(st, d, '$keys')
    if ks is not None:
        return ks
    if d in I.dictkeys:
        return I.dictkeys[d]
    if d.op == 'cp':
        return dict_keys(I, I.copies[d.args[0]][0], d.args[1])
    if d.op == 'attr' and d.args[0] in I.dictkeys:
        return I.dictkeys[d.args[0]]
    return mk('mapkeys', d)


def map_keys(I, m):
    if m.op == 'mkmap':
        return m.args[0]
    if m.op == 'setkey':
        ks = map_keys(I, m.args[0])
        return ite(mk('haskey', m.args[0], m.args[1]), ks, cat(ks, seq(m.args[1])))
    return mk('mapkeys', m)


def dict_get(I, st, d, k, default=None):
    if d.op == 'ite':
        return ite(d.args[0], dict_get(I, st, d.args[1], k, default), dict_get(I, st, d.args[2], k, default))
    kv = val(I, st, k)
    if k.op == 'ite':
        return ite(k.args[0], dict_get(I, st, d, k.args[1], default), dict_get(I, st, d, k.args[2], default))
    if d.op in ('mkmap', 'setkey', 'mapatom'):
        return map_get(I, d, kv)
    mp = I.read_fam_only(st, d, '$map')
    if mp is not None:
        return map_get(I, mp, kv)
    if const_key(kv):
        f = fkey(kv)
        v = I.read_fam_only(st, d, f)
        if v is not None:
            return v
        ks = dict_keys(I, st, d)
        if ks.op == 'seq':
            if not I.lazy(d) and all(x.op in ('const', 'num') for x in ks.args) and kv not in ks.args:
                if default is not None:
                    return default
                I.raise_(st, const('KeyError'), None, 'missing key %s' % kv)
                return mk('opaque', 'missing key', kv)
        v = I.read(st, d, f)
        if v is not None:
            return v
        return mk('get', d, kv)
    ks = dict_keys(I, st, d)
    if ks.op == 'seq' and all(const_key(x) for x in ks.args) and ks.args:
        # symbolic key over constant keys
        r = mk('opaque', 'missing key', kv) if default is None else default
        for x in reversed(ks.args):
            r = ite(eq(kv, x), dict_get(I, st, d, x), r)
        return r
    # element pointer of a symbolic dictionary
    return mk('get', I.dict_ident(st, d), kv)


def map_get(I, m, k):
    if m.op == 'setkey':
        e = eq(m.args[1], k)
        if e is TRUE:
            return m.args[2]
        if e is FALSE:
            return map_get(I, m.args[0], k)
        return ite(e, m.args[2], map_get(I, m.args[0], k))
    if m.op == 'mkmap':
        # keys sequence, values sequence; find by matching index when key is keys[i]
        ks, vs = m.args
        if k.op == 'at' and k.args[0] is ks:
            return at(vs, k.args[1])
        if ks.op == 'seq':
            r = mk('opaque', 'missing key', k)
            for x, v in reversed(list(zip(ks.args, vs.args if vs.op == 'seq' else [at(vs, num(j)) for j in range(len(ks.args))]))):
                r = ite(eq(k, x), v, r)
            return r
        b = fresh_bv()
        if ks.op == 'cat' and vs.op == 'cat' and len(ks.args) == len(vs.args) and k.op == 'at' and k.args[0] in ks.args:
            return at(vs.args[ks.args.index(k.args[0])], k.args[1])
        return at(vs, first_(slen(ks), b, eq(at(ks, b), k)))
    return mk('get', m, k)


def dict_set(I, st, d, k, v):
    if d.op == 'ite':
        for j, cc in ((1, d.args[0]), (2, not_(d.args[0]))):
            old = dict_get(I, st, d.args[j], k, UNDEF)
            dict_set(I, st, d.args[j], k, ite(cc, v, old))
        return
    kv = val(I, st, k)
    if I.mutations is not None:
        I.mutations.append((d, '$map', I.curfile(), 0))
    mp = I.read_fam_only(st, d, '$map')
    if mp is not None:
        I.write(st, d, '$map', mk('setkey', mp, kv, v))
        return
    if const_key(kv):
        ks = dict_keys(I, st, d)
        if ks.op == 'seq' and kv not in ks.args:
            I.write(st, d, '$keys', seq(*(ks.args + (kv,))))
        I.write(st, d, fkey(kv), v)
        return
    ks = dict_keys(I, st, d)
    if ks.op == 'seq':
        cur = mk('mkmap', ks, seq(*[dict_get(I, st, d, x) for x in ks.args]))
    else:
        cur = mk('mapatom', I.dict_ident(st, d))
    I.write(st, d, '$map', mk('setkey', cur, kv, v))


def dict_pop(I, st, d, k):
    v = dict_get(I, st, d, k)
    ks = dict_keys(I, st, d)
    if ks.op == 'seq' and k in ks.args:
        I.write(st, d, '$keys', seq(*[x for x in ks.args if x is not k]))
        st.heap.pop((d, fkey(k)), None)
    return v


def dict_update(I, st, d, o):
    ks = dict_keys(I, st, o)
    if ks.op == 'seq':
        for k in ks.args:
            dict_set(I, st, d, k, dict_get(I, st, o, k))
        return
    cur = dict_keys(I, st, d)
    if cur is EMPTY:
        I.write(st, d, '$map', mk('mapatom', I.dict_ident(st, o)) if o.op != 'mapatom' else o)
    else:
        I.write(st, d, '$map', mk('call', 'dictmerge', I.reify_dict(st, d, 0, {}), val(I, st, o)))


def dict_from_pairs(I, st, pairs):
    d = I.alloc('dict', 'd')
    st.heap[(d, '$keys')] = EMPTY
    pairs = nseq(pairs)
    if pairs.op == 'seq' and all(const_key(I.V(st, at(I.V(st, p), ZERO))) for p in pairs.args):
        for p in pairs.args:
            pv = I.V(st, p)
            dict_set(I, st, d, at(pv, ZERO), at(pv, ONE))
        return d
    segs = pairs.args if pairs.op == 'cat' else (pairs,)
    ks, vs = [], []
    for s in segs:
        if s.op == 'seq':
            ks.append(seq(*[at(I.V(st, p), ZERO) for p in s.args]))
            vs.append(seq(*[at(I.V(st, p), ONE) for p in s.args]))
        else:
            b = fresh_bv()
            ks.append(tab(slen(s), b, at(at(s, b), ZERO)))
            b = fresh_bv()
            vs.append(tab(slen(s), b, at(at(s, b), ONE)))
    I.write(st, d, '$map', mk('mkmap', val(I, st, cat(*ks)), cat(*vs)))
    return d


def dm_keys(I, st, o, a, k, n):
    return I.new_list(st, dict_keys(I, st, o))


def dict_pairs(I, st, o, f):
    ks = dict_keys(I, st, o)
    segs = ks.args if ks.op == 'cat' else (ks,)
    out = []
    for s in segs:
        if s.op == 'seq':
            out.append(seq(*[f(k, dict_get(I, st, o, k)) for k in s.args]))
        else:
            b = fresh_bv()
            k = at(s, b)
            out.append(tab(slen(s), b, f(k, dict_get(I, st, o, k))))
    return I.new_list(st, cat(*out))


def dm_get(I, st, o, a, k, n):
    dflt = a[1] if len(a) > 1 else NONE
    ks = dict_keys(I, st, o)
    if const_key(a[0]) and ks.op == 'seq':
        if a[0] in ks.args:
            return dict_get(I, st, o, a[0])
        if not I.lazy(o):
            return dflt
    kv = val(I, st, a[0])
    return ite(isin(I, st, a[0], o), dict_get(I, st, o, a[0]), dflt)


def dm_setdefault(I, st, o, a, k, n):
    cond = isin(I, st, a[0], o)
    d = a[1] if len(a) > 1 else NONE
    if cond is TRUE:
        return dict_get(I, st, o, a[0])
    if cond is FALSE:
        dict_set(I, st, o, a[0], d)
        return d
    v = ite(cond, dict_get(I, st, o, a[0]), d)
    dict_set(I, st, o, a[0], v)
    return v


def dm_update(I, st, o, a, k, n):
    if a:
        dict_update(I, st, o, a[0])
    for kk, v in k.items():
        dict_set(I, st, o, const(kk), v)
    return NONE


DICT_METHODS = {
    'keys': dm_keys,
    'values': lambda I, st, o, a, k, n: dict_pairs(I, st, o, lambda x, v: v),
    'items': lambda I, st, o, a, k, n: dict_pairs(I, st, o, lambda x, v: tup(x, v)),
    'get': dm_get, 'update': dm_update, 'setdefault': dm_setdefault,
    'pop': lambda I, st, o, a, k, n: dict_pop(I, st, o, a[0]),
    'copy': lambda I, st, o, a, k, n: I.copy_value(st, o, False),
    'clear': lambda I, st, o, a, k, n: dm_clear(I, st, o),
}


def dm_clear(I, st, o):
    I.write(st, o, '$keys', EMPTY)
    return NONE


# ------------------------------------------------------------------ lists
def note_mut(I, o, n):
    if I.mutations is not None:
        I.mutations.append((o, '$', I.curfile(), getattr(n, 'lineno', 0)))


def lm_append(I, st, o, a, k, n):
    note_mut(I, o, n)
    I.write(st, o, '$', cat(I.read(st, o, '$', EMPTY), seq(a[0])), n)
    return NONE


def lm_extend(I, st, o, a, k, n):
    note_mut(I, o, n)
    I.write(st, o, '$', cat(I.read(st, o, '$', EMPTY), as_seq(I, st, a[0])), n)
    return NONE


def lm_pop(I, st, o, a, k, n):
    note_mut(I, o, n)
    s = I.read(st, o, '$', EMPTY)
    i = a[0] if a else num(-1)
    v = at(s, i)
    I.write(st, o, '$', delete_idx(I, s, i), n)
    return v


def lm_insert(I, st, o, a, k, n):
    note_mut(I, o, n)
    s = I.read(st, o, '$', EMPTY)
    i = a[0]
    if neg_index(i):
        i = add(slen(s), i)
    if i is ZERO:
        r = cat(seq(a[1]), s)
    else:
        n0 = slen(s)
        if i is not n0 and not (is_nat(sub(n0, i)) and is_nat(i)):
            # positions beyond the end mean the end
            i = ite(lt(n0, i), n0, i)
        r = insat(s, i, a[1])
    I.write(st, o, '$', r, n)
    return NONE


def idx_of(I, st, s, x):
    isobj = I.is_obj(x)
    xv = x if isobj else val(I, st, x)
    if s.op in ('seq', 'tup'):
        r = UNDEF
        out = mk('opaque', 'not in list')
        for j in range(len(s.args) - 1, -1, -1):
            e = ident(I, st, x, s.args[j]) if isobj else eq(xv, val(I, st, s.args[j]))
            out = ite(e, num(j), out)
        return out
    if s.op == 'cat':
        off = ZERO
        parts = []
        for g in s.args:
            parts.append((isin_seq(I, st, x, g), add(off, idx_of(I, st, g, x))))
            off = add(off, slen(g))
        r = parts[-1][1]
        for c, v in reversed(parts[:-1]):
            r = ite(c, v, r)
        return r
    b = fresh_bv()
    if xv.op == 'at' and xv.args[0] is s:
        if isobj:
            return xv.args[1]
    y = at(s, b)
    return first_(slen(s), b, ident(I, st, x, y) if isobj else eq(xv, val(I, st, y)))


def lm_index(I, st, o, a, k, n):
    s = I.read(st, o, '$', EMPTY)
    c = isin_seq(I, st, a[0], s)
    if c is FALSE:
        I.raise_(st, const('ValueError'), n, 'index of missing element')
        st.pc = FALSE
        return UNDEF
    if c is not TRUE:
        st2 = st.copy()
        st2.pc = and_(st.pc, not_(c))
        if st2.pc is not FALSE and I.track_valueerror:
            I.raise_(st2, const('ValueError'), n, 'index of missing element')
    return idx_of(I, st, s, a[0])


def lm_remove(I, st, o, a, k, n):
    note_mut(I, o, n)
    s = I.read(st, o, '$', EMPTY)
    I.write(st, o, '$', delete_idx(I, s, idx_of(I, st, s, a[0])), n)
    return NONE


def lm_clear(I, st, o, a, k, n):
    note_mut(I, o, n)
    I.write(st, o, '$', EMPTY, n)
    return NONE


def lm_reverse(I, st, o, a, k, n):
    note_mut(I, o, n)
    I.write(st, o, '$', rev(I.read(st, o, '$', EMPTY)), n)
    return NONE


def rev(s):
    s = nseq(s)
    if s.op == 'seq':
        return seq(*reversed(s.args))
    if s.op == 'cat':
        return cat(*[rev(x) for x in reversed(s.args)])
    n = slen(s)
    b = fresh_bv()
    return tab(n, b, at(s, sub(sub(n, ONE), b)))


LIST_METHODS = {'append': lm_append, 'extend': lm_extend, 'pop': lm_pop, 'insert': lm_insert, 'index': lm_index,
                'remove': lm_remove, 'clear': lm_clear, 'reverse': lm_reverse,
                'copy': lambda I, st, o, a, k, n: I.new_list(st, I.read(st, o, '$', EMPTY)),
                'count': lambda I, st, o, a, k, n: mk('call', 'count', val(I, st, o), val(I, st, a[0])),
                'sort': lambda I, st, o, a, k, n: (I.write(st, o, '$', REBUILD['perm'](const('sorted'),
                                                                          I.read(st, o, '$', EMPTY)), n), NONE)[1],
                '__init__': lambda I, st, o, a, k, n: NONE}


# ------------------------------------------------------------------ value attributes and methods
def ncols(I, s):
    r = slen(at(s, ZERO))
    return r


def shape_of(I, s):
    out = [slen(s)]
    r = rank(I, s)
    x = s
    while r > 1:
        x = at(x, ZERO) if x.op != 'tab' else x.args[2]
        n = slen(x)
        if n.fbv and x is not s and s.op == 'tab' and s.args[1] in n.fbv:
            n = subst(n, {s.args[1]: ZERO})
        out.append(n)
        r -= 1
    return tup(*out)


def extreme(I, s, nm):
    """largest or smallest entry of a vector"""
    if s.op in ('seq', 'tup') and s.args:
        f = min_ if nm == 'min' else max_
        r = s.args[0]
        for x in s.args[1:]:
            r = f(r, x)
        return r
    return mk('call', nm, s)


def reduce_extreme(I, v, nm, ax):
    """np.max / np.min along an axis"""
    r = rank(I, v)
    k = None if ax is NONE else int(numval(ax)) if is_num(ax) else 'unknown'
    if k == 'unknown' or r not in (1, 2):
        return None
    if r == 1:
        return extreme(I, v, nm) if k in (None, 0, -1) else None
    if k in (0, -2):
        v = transpose(I, v)
    elif k not in (1, -1):
        return None
    if v.op in ('seq', 'tup'):
        return seq(*[extreme(I, x, nm) for x in v.args])
    b = fresh_bv()
    return tab(slen(v), b, extreme(I, at(v, b), nm))


def transpose(I, s):
    s = nseq(s)
    r = rank(I, s)
    if r < 2:
        return s
    if s.op == 'seq' and all(x.op in ('seq', 'tup') for x in s.args) and s.args:
        n = len(s.args[0].args)
        if all(len(x.args) == n for x in s.args):
            return seq(*[seq(*[x.args[j] for x in s.args]) for j in range(n)])
    m = shape_of(I, s).args[1]
    j, i = fresh_bv(), fresh_bv()
    return tab(m, j, tab(slen(s), i, at(at(s, i), j)))


def value_attr(I, st, o, name, node):
    if o.op == 'fn':
        if name == '__name__':
            return const(o.args[0].qual.split('.')[-1])
        return mk('attr', name, o)
    v = I.V(st, o)
    c = I.class_of(o)
    if c == 'matrix':
        s = I.read(st, o, '$')
        if name == 'shape':
            return shape_of(I, s)
        if name == 'T':
            return I.new_list(st, transpose(I, s), 'matrix', 'm')
        return mk('meth', o, name)
    if c in ('ndarray', 'list') or rank(I, v) > 0:
        vv = v if c != 'list' else v
        if name == 'T':
            return I.new_array(st, transpose(I, val(I, st, vv)))
        if name == 'shape':
            return shape_of(I, val(I, st, vv))
        if name == 'size':
            sh = shape_of(I, val(I, st, vv))
            r = ONE
            for x in sh.args:
                r = mul(r, x)
            return r
        if name == 'ndim':
            return num(rank(I, vv))
        if name == 'dtype':
            return mk('attr', 'dtype', val(I, st, vv))
        return mk('meth', o, name)
    if name in ('shape', 'T', 'ndim', 'size') and is_scalar(I, v):
        return {'shape': tup(), 'T': v, 'ndim': ZERO, 'size': ONE}[name]
    if name in VALUE_METHODS or (is_strish(o) and name in STR_METHODS):
        return mk('meth', o, name)
    if name == 'args' and o.op == 'lam':
        return o.args[0]
    if name == 'free_symbols':
        fs = free_symbols_of(v)
        if fs is not None:
            return I.new_list(st, seq(*fs))
    return mk('attr', name, o)


def is_scalar(I, v):
    if v.op in ('num', 'poly'):
        return True
    if v.op == 'sym':
        return len(v.args) > 1 and v.args[1] in ('real', 'nat', 'int')
    return v.op == 'call' and v.args[0] in getattr(I, 'scalar_calls', ())


STR_METHODS = {'ljust', 'center', 'lstrip', 'rstrip', 'zfill', 'title', 'capitalize', 'find', 'count', 'isidentifier',
               'lower', 'upper', 'format', 'join', 'strip', 'split', 'startswith', 'endswith', 'replace', 'rjust'}
VALUE_METHODS = {'subs', 'diff', 'jacobian', 'LUsolve', 'atoms', 'lower', 'upper', 'format', 'flatten', 'copy',
                 'reshape', 'tomatrix', 'append', 'index', 'ravel', 'evalf', 'simplify', 'expand', 'has', 'tolist',
                 'all', 'any', 'sum', 'max', 'min', 'astype', 'dot', 'get', 'keys', 'values', 'items', 'doit',
                 'conjugate', 'mean', 'argmin', 'argmax'}


def call_value_method(I, st, o, name, args, kwargs, node):
    c = I.class_of(o)
    if c in ('list', 'deque') and name in LIST_METHODS:
        return LIST_METHODS[name](I, st, o, args, kwargs, node)
    if (c == 'dict' or o.op in ('mkmap', 'setkey')) and name in DICT_METHODS:
        return DICT_METHODS[name](I, st, o, args, kwargs, node)
    v = I.V(st, o)
    if c == 'matrix':
        return matrix_method(I, st, o, name, args, kwargs, node)
    if name == 'subs':
        return subs_(I, st, val(I, st, v), args)
    if name == 'diff':
        r = val(I, st, v)
        for a in args:
            r = diff_(I, r, val(I, st, a))
        return r
    if name in ('lower', 'upper') and not args:
        if v.op == 'const' and isinstance(v.args[0], str):
            return const(getattr(v.args[0], name)())
        if v.op == 'lower' and name == 'lower':
            return v
        return mk(name, v)
    if name == 'format' and is_strish(v):
        return fmt(I, st, v, args, kwargs)
    if name == 'join' and is_strish(v):
        s = as_seq(I, st, args[0])
        if s.op == 'seq' and v.op == 'const':
            out = []
            for j, x in enumerate(s.args):
                if j:
                    out.append(v)
                out.append(str_(x))
            return strcat(*out)
        return mk('call', 'join', v, val(I, st, s))
    if v.op == 'const' and isinstance(v.args[0], str) and not kwargs and \
            name in ('strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'rjust', 'ljust', 'center', 'split',
                     'zfill', 'title', 'capitalize', 'find', 'count', 'isidentifier') and \
            all(a.op == 'const' or is_num(a) and numval(a).denominator == 1 for a in args):
        r = getattr(v.args[0], name)(*[int(numval(a)) if is_num(a) else a.args[0] for a in args])
        if isinstance(r, int) and not isinstance(r, bool):
            return num(r)
        return I.new_list(st, seq(*[const(x) for x in r])) if isinstance(r, list) else const(r)
    if rank(I, v) > 0 or c == 'ndarray':
        vv = val(I, st, v)
        if name == 'copy':
            return I.new_array(st, v)
        if name in ('flatten', 'ravel'):
            return I.new_array(st, flatten(I, vv))
        if name == 'reshape':
            return I.new_array(st, reshape(I, vv, args, kwargs.get('order')))
        if name in ('astype',):
            return I.new_array(st, as_dtype(I, v, args[0] if args else kwargs.get('dtype')))
        if name == 'tolist':
            return I.new_list(st, v)
        if name in ('dot',):
            return matmul(I, st, vv, I.V(st, args[0]))
        if name in ('append', 'extend', 'insert', 'pop') and c == 'rawseq':
            return mk('opaque', 'method of raw sequence', const(name))
        if name == 'index':
            return idx_of(I, st, vv, args[0])
        if name == 'all':
            b = fresh_bv()
            if rank(I, vv) == 1:
                return not_(any_(slen(vv), b, not_(I.truth(at(vv, b), st))))
        if name == 'any':
            b = fresh_bv()
            if rank(I, vv) == 1:
                return any_(slen(vv), b, I.truth(at(vv, b), st))
        if name == 'sum' and rank(I, vv) == 1 and not args and not kwargs:
            return sumseq(I, vv)
        if name == 'mean' and rank(I, vv) == 1 and not args and not kwargs:
            return div(sumseq(I, vv), slen(vv))
        if name in ('argmin', 'argmax') and not args and not kwargs and I.expand_arg:
            r = arg_extreme(vv, name)
            if r is not None:
                return r
        if name in ('max', 'min') and len(args) <= 1 and set(kwargs) <= {'axis'}:
            ax = kwargs.get('axis', args[0] if args else NONE)
            r = reduce_extreme(I, vv, name, I.V(st, ax))
            if r is not None:
                return I.new_array(st, r) if r.op in SEQ_OPS else r
        if name in ('max', 'min', 'argmin', 'argmax', 'mean', 'sum'):
            return mk('call', name, vv, *[val(I, st, a) for a in args])
    if name == 'map' and len(args) == 2 and c is None and o.op in ('attr', 'sym', 'call'):
        # pool.map(f, xs): same results in order
        return call_lib(I, st, 'pool.map', args, kwargs, node)
    if name in ('free_symbols',):
        return mk('attr', name, v)
    if name == 'tomatrix' and rank(I, v) == 2:
        return I.new_list(st, val(I, st, v), 'matrix', 'm')
    if name in ('tomatrix', 'simplify', 'expand', 'doit', 'evalf', 'conjugate', 'close', 'refresh'):
        return v
    I.trace(st, name, o, args, kwargs, node)
    kw = [tup(const(k), val(I, st, x)) for k, x in sorted(kwargs.items())]
    return mk('call', '.' + name, val(I, st, v), *([val(I, st, a) for a in args] + kw))


def fmt(I, st, v, args, kwargs):
    if v.op == 'const':
        s = v.args[0]
        out = []
        i = 0
        auto = 0
        buf = ''
        while i < len(s):
            ch = s[i]
            if ch == '{':
                if s[i:i + 2] == '{{':
                    buf += '{'
                    i += 2
                    continue
                j = s.index('}', i)
                spec = s[i + 1:j]
                out.append(const(buf))
                buf = ''
                name, _, f = spec.partition(':')
                if name == '':
                    x = args[auto] if auto < len(args) else mk('opaque', 'format')
                    auto += 1
                elif name.isdigit():
                    x = args[int(name)]
                else:
                    x = kwargs.get(name, mk('opaque', 'format'))
                x = strval(I, st, x)
                out.append(mk('fmt', x, const(f)) if f else str_(x))
                i = j + 1
            else:
                if s[i:i + 2] == '}}':
                    i += 1
                buf += ch
                i += 1
        out.append(const(buf))
        return strcat(*out)
    return mk('fmt', v, *[val(I, st, a) for a in args])


def strval(I, st, x):
    c = I.class_of(x)
    if isinstance(c, ClassObj):
        return mk('objstr', x) if x.op != 'ref' else const('<%s>' % c.name)
    return val(I, st, x)


def flatten(I, v):
    r = rank(I, v)
    if r <= 1:
        return v
    if v.op == 'seq':
        return cat(*[flatten(I, x) for x in v.args]) if v.args else EMPTY
    if v.op == 'cat':
        return cat(*[flatten(I, x) for x in v.args])
    b = fresh_bv()
    return mk_binder('flat', slen(v), b, flatten(I, at(v, b)))


def reshape(I, v, args, order=None):
    dims = args[0] if len(args) == 1 else tup(*args)
    ds = nseq(dims).args if dims.op in ('tup', 'seq') else (dims,)
    if order is not None and order not in (const('C'), const('F'), const('K'), const('A')):
        return mk('opaque', 'reshape order')
    fortran = order is const('F')
    if fortran and rank(I, v) > 1:
        return mk('opaque', 'reshape order')
    f = flatten(I, v)
    if len(ds) == 1:
        return f
    if len(ds) == 2:
        i, j = fresh_bv(), fresh_bv()
        ds = list(ds)
        for k in (0, 1):
            if is_num(ds[k]) and numval(ds[k]) == -1:
                n = slen(f)
                ds[k] = num(numval(n) / numval(ds[1 - k])) if is_num(n) and is_num(ds[1 - k]) else div(n, ds[1 - k])
        if fortran:
            return tab(ds[0], i, tab(ds[1], j, at(f, add(mul(j, ds[0]), i))))
        return tab(ds[0], i, tab(ds[1], j, at(f, add(mul(i, ds[1]), j))))
    return mk('call', 'reshape', f, tup(*ds))


def sumseq(I, s):
    s = nseq(s)
    if s.op == 'seq':
        return addn(s.args)
    if s.op == 'cat':
        return addn([sumseq(I, x) for x in s.args])
    if s.op == 'ite':
        return ite(s.args[0], sumseq(I, s.args[1]), sumseq(I, s.args[2]))
    b = fresh_bv()
    return sum_(slen(s), b, at(s, b))


# ------------------------------------------------------------------ sympy
def diff_(I, e, s):
    """formal derivative with linearity and the product rule; atoms stay as dif(atom, s)"""
    if e.op in ('num',):
        return ZERO
    if s.op == 'ite':
        return ite(s.args[0], diff_(I, e, s.args[1]), diff_(I, e, s.args[2]))
    if e.op == 'const':
        if isinstance(e.args[0], str):
            return mk('dif', e, s)
        return mk('opaque', 'derivative of constant')
    if e is s:
        return ONE
    if e.op == 'symbol' and s.op == 'symbol' and e.args[0].op == 'const' and s.args[0].op == 'const' \
            and e.args[0] is not s.args[0]:
        return ZERO           # symbols of different literal names
    if e.op == 'ite':
        return ite(e.args[0], diff_(I, e.args[1], s), diff_(I, e.args[2], s))
    if rank(I, e) > 0:
        return elementwise(I, lambda x: diff_(I, x, s), e)
    if e.op == 'poly':
        r = ZERO
        for m, c in e.args[0]:
            for k, (a, p) in enumerate(m):
                rest = from_poly({m[:k] + m[k + 1:]: c}) if len(m) > 1 else num(c)
                d = diff_(I, a, s)
                if d is ZERO:
                    continue
                r = add(r, mul(mul(rest, mul(num(p), powi(a, p - 1))), d))
        return r
    if e.op == 'sum':
        n, b, body = open_binder(e)
        return sum_(n, b, diff_(I, body, s))
    if e.op == 'inv':
        return neg(mul(powi(e, 2), diff_(I, e.args[0], s)))
    if e.op == 'call':
        x = e.args[1] if len(e.args) > 1 else None
        if e.args[0] == 'sin':
            return mul(mk('call', 'cos', x), diff_(I, x, s))
        if e.args[0] == 'cos':
            return neg(mul(mk('call', 'sin', x), diff_(I, x, s)))
        if e.args[0] == 'exp':
            return mul(e, diff_(I, x, s))
    if e.op == 'sym' and e.args[0] in ('pi',):
        return ZERO
    return mk('dif', e, s)


REBUILD['dif'] = lambda e, s: diff_(_DI, e, s)


class _DummyI:
    ranks = {}


_DI = _DummyI()


def subs_(I, st, e, args):
    if len(args) == 1:
        d = args[0]
        return mk('subsd', e, val(I, st, d))
    old, new = val(I, st, args[0]), val(I, st, args[1])
    return sub1(I, e, old, new)


def sub1(I, e, old, new):
    if e.op == 'num' or old is new:
        return e
    if e is old:
        return new
    if rank(I, e) > 0:
        return elementwise(I, lambda x: sub1(I, x, old, new), e)
    if e.op == 'ite':
        return ite(e.args[0], sub1(I, e.args[1], old, new), sub1(I, e.args[2], old, new))
    if e.op == 'poly':
        r = ZERO
        for m, c in e.args[0]:
            p = num(c)
            for a, x in m:
                p = mul(p, powi(sub1(I, a, old, new), x))
            r = add(r, p)
        return r
    if e.op == 'sum':
        n, b, body = open_binder(e)
        return sum_(n, b, sub1(I, body, old, new))
    if e.op == 'inv':
        return inv(sub1(I, e.args[0], old, new))
    if e.op == 'call' and e.args[0] in ('sin', 'cos', 'exp', 'asin', 'log', 'tan'):
        return fn1(e.args[0])(sub1(I, e.args[1], old, new))
    if e.op == 'sym' and e.args[0] == 'pi':
        return e
    if e.op == 'symbol' and old.op == 'symbol' and eq(e, old) is FALSE:
        return e
    return mk('subs', e, old, new)


def free_symbols_of(e):
    """the symbols of an expression made of explicit symbols, else None"""
    out = []

    def go(x):
        if x.op == 'num' or (x.op == 'sym' and x.args[0] == 'pi'):
            return True
        if x.op == 'symbol':
            if x not in out:
                out.append(x)
            return True
        if x.op == 'poly':
            return all(go(a) for m, _ in x.args[0] for a, _ in m)
        if x.op == 'inv':
            return go(x.args[0])
        if x.op == 'call' and x.args[0] in ('sin', 'cos', 'exp', 'asin', 'log', 'tan'):
            return go(x.args[1])
        return False
    return out if go(e) else None


REBUILD['subs'] = lambda e, o, n: sub1(_DI, e, o, n)


def symbol(name):
    return mk('symbol', name)


def matrix_of(I, st, v):
    """rows of sympy.Matrix(v)"""
    if I.class_of(v) == 'matrix':
        return I.read(st, v, '$')
    x = val(I, st, v)
    if rank(I, x) <= 1:
        x = nseq(x)
        if x.op == 'seq':
            return seq(*[seq(e) for e in x.args])
        if x.op == 'cat':
            return cat(*[matrix_rows(I, g) for g in x.args])
        return matrix_rows(I, x)
    return x


def matrix_rows(I, g):
    if g.op == 'seq':
        return seq(*[seq(e) for e in g.args])
    b = fresh_bv()
    return tab(slen(g), b, seq(at(g, b)))


def concrete_vec(I, st, v):
    """the entries of a vector of literal length"""
    v = nseq(val(I, st, v))
    if v.op == 'tab' and v.args[0].op == 'num':
        v = seq(*[at(v, num(i)) for i in range(int(numval(v.args[0])))])
    if v.op != 'seq' or any(x.op in SEQ_OPS for x in v.args):
        return None
    return list(v.args)


def concrete(m):
    if m.op == 'tab' and m.args[0].op == 'num':
        m = seq(*[at(m, num(i)) for i in range(int(m.args[0].args[0]))])
    if m.op != 'seq':
        return None
    rows = []
    for r in m.args:
        if r.op == 'tab' and r.args[0].op == 'num':
            r = seq(*[at(r, num(i)) for i in range(int(r.args[0].args[0]))])
        if r.op != 'seq':
            return None
        rows.append(list(r.args))
    return rows


def det(M):
    if not M:
        return ONE
    if len(M) == 1:
        return M[0][0]
    r = ZERO
    for j in range(len(M)):
        if M[0][j] is ZERO:
            continue
        t = mul(M[0][j], det([row[:j] + row[j + 1:] for row in M[1:]]))
        r = add(r, t) if j % 2 == 0 else sub(r, t)
    return r


def linsolve(A, B):
    """the solution of A X = B for a literal square matrix: elimination on literal pivots, Cramer's rule for the
    rest (a regular matrix is assumed); None when the shape is symbolic"""
    M, R = concrete(A), concrete(B)
    if M is None or R is None or not M or len(M) != len(R) or any(len(r) != len(M) for r in M):
        return None
    n, w = len(M), len(R[0])
    rows = [list(m) + list(r) for m, r in zip(M, R)]
    left, cols, piv = list(range(n)), list(range(n)), []
    while left:
        found = [(r, c) for r in left for c in cols if rows[r][c].op == 'num' and rows[r][c] is not ZERO]
        if not found:
            break
        # fewest other literals first keeps the fill-in low
        r, c = min(found, key=lambda rc: sum(1 for k in range(n) if rows[rc[0]][k] is not ZERO))
        p = inv(rows[r][c])
        rows[r] = [mul(p, x) for x in rows[r]]
        for q in range(n):
            if q != r and rows[q][c] is not ZERO:
                f = rows[q][c]
                rows[q] = [sub(x, mul(f, y)) for x, y in zip(rows[q], rows[r])]
        left.remove(r)
        cols.remove(c)
        piv.append((r, c))
    sol = [[None] * w for _ in range(n)]
    if len(left) > 5:
        return None
    if left:
        S = [[rows[r][c] for c in cols] for r in left]
        d = det(S)
        if d is ZERO:
            return None
        di = inv(d)
        for k in range(w):
            for j, c in enumerate(cols):
                T_ = [row[:j] + [rows[r][n + k]] + row[j + 1:] for row, r in zip(S, left)]
                sol[c][k] = mul(det(T_), di)
    for r, c in piv:
        for k in range(w):
            x = rows[r][n + k]
            for cc in cols:
                if rows[r][cc] is not ZERO:
                    x = sub(x, mul(rows[r][cc], sol[cc][k]))
            sol[c][k] = x
    return seq(*[seq(*r) for r in sol])


def matrix_method(I, st, o, name, args, kwargs, node):
    s = I.read(st, o, '$')
    if name == 'jacobian':
        x = matrix_of(I, st, args[0])
        i, j = fresh_bv(), fresh_bv()
        col = lambda k: at(at(x, k), ZERO)

        def row(e):
            segs = x.args if x.op == 'cat' else (x,)
            out = []
            for g in segs:
                if g.op == 'seq':
                    out.append(seq(*[diff_(I, e, at(r, ZERO)) for r in g.args]))
                else:
                    b = fresh_bv()
                    out.append(tab(slen(g), b, diff_(I, e, at(at(g, b), ZERO))))
            return cat(*out)
        segs = s.args if s.op == 'cat' else (s,)
        out = []
        for g in segs:
            if g.op == 'seq':
                out.append(seq(*[row(at(r, ZERO)) for r in g.args]))
            else:
                b = fresh_bv()
                out.append(tab(slen(g), b, row(at(at(g, b), ZERO))))
        return I.new_list(st, cat(*out), 'matrix', 'm')
    if name in ('LUsolve', 'solve', 'QRsolve'):
        b = matrix_of(I, st, args[0])
        r = linsolve(s, b)
        if r is None:
            k = fresh_bv()
            r = tab(slen(b), k, seq(mk('call', 'lusolve', s, b, k)))
        return I.new_list(st, r, 'matrix', 'm')
    if name in ('atoms',):
        return mk('call', 'atoms', s)
    if name == 'diff' and args and not kwargs:
        xs = [val(I, st, a) for a in args]

        def d(e):
            for x in xs:
                e = diff_(I, e, x)
            return e
        return I.new_list(st, elementwise(I, lambda a, b: d(a), s, ZERO), 'matrix', 'm')
    if name in ('simplify', 'expand', 'doit', 'as_mutable', 'as_immutable'):
        return I.new_list(st, s, 'matrix', 'm')
    if name in ('tomatrix', 'copy'):
        return I.new_list(st, s, 'matrix', 'm')
    if name == 'inv':
        m = concrete(s)
        r = linsolve(s, seq(*[seq(*[ONE if i == j else ZERO for j in range(len(m))]) for i in range(len(m))])) \
            if m else None
        return I.new_list(st, r if r is not None else mk('call', 'matinv', s), 'matrix', 'm')
    if name == 'multiply':
        return I.new_list(st, mat2(I, s, matrix_of(I, st, args[0])), 'matrix', 'm')
    if name == 'transpose':
        return I.new_list(st, transpose(I, s), 'matrix', 'm')
    return mk('call', '.' + name, s, *[val(I, st, a) for a in args])


# ------------------------------------------------------------------ compiled expressions
def bind_groups(I, st, params, actuals):
    """pairs (symbols, values) flattened so that only the symbol->value map matters"""
    out = []
    for p, a in zip(params, actuals):
        p = nseq(p)
        if rank(I, p) > 0 or p.op in SEQ_OPS:
            if slen(p) is ZERO:
                continue
            out.append(tup(p, a))
        else:
            out.append(tup(seq(p), seq(a)))
    return tup(*sorted(out, key=lambda t: (t.args[0].id, t.args[1].id)))


def apply_lam(I, st, lam, args):
    params = lam.args[0].args
    args = [val(I, st, a) for a in args]
    if any(a.op == 'star' for a in args):
        # f(*xs) with xs of symbolic length binding one scalar parameter each
        if len(args) == 1:
            return evaluate(I, st, lam.args[1], tup(tup(lam_params_seq(lam), args[0].args[0])))
        return mk('opaque', 'starred call of compiled expression')
    if lam.args[0].op not in ('seq', 'tup'):
        return mk('opaque', 'symbolic parameter list')
    if len(params) != len(args):
        I.raise_(st, const('TypeError'), None, 'arity of compiled expression')
        return mk('opaque', 'arity of compiled expression', num(len(params)), num(len(args)))
    return evaluate(I, st, lam.args[1], bind_groups(I, st, params, args))


def lam_params_seq(lam):
    return lam.args[0]


def evaluate(I, st, e, binds):
    e = nseq(e) if e.op == 'tup' else e
    if e.op == 'ite':
        return ite(e.args[0], evaluate(I, st, e.args[1], binds), evaluate(I, st, e.args[2], binds))
    if e.op == 'num':
        return e
    if e.op == 'seq':
        return seq(*[evaluate(I, st, x, binds) for x in e.args])
    if e.op == 'cat':
        return cat(*[evaluate(I, st, x, binds) for x in e.args])
    if rank(I, e) > 0:
        b = fresh_bv()
        return tab(slen(e), b, evaluate(I, st, at(e, b), binds))
    return mk('ev', e, binds)


# ------------------------------------------------------------------ calls
def is_logging(I, f, st, fr):
    if not isinstance(f, ast.Attribute) or not isinstance(f.value, ast.Name):
        return False
    nm = f.value.id
    if nm not in ('logger', 'logging') and nm not in I.logger_names:
        return False
    if I.read(st, fr.ref, 'v:' + nm) is not None if fr.ref is not None else False:
        return False
    return f.attr in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'log', 'exception', 'beluga', 'setLevel',
                      'addHandler', 'removeHandler')


def opaque_call(I, st, fn, args, kwargs, node):
    kw = [tup(const(k), val(I, st, x)) for k, x in sorted(kwargs.items())]
    I.trace(st, fn, None, args, kwargs, node)
    f = val(I, st, fn)
    return mk('call', f, *([val(I, st, a) for a in args] + kw))


def want(args, kwargs, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kwargs.get(name, default)


def lower_cls(c):
    return c


def isinstance_(I, st, x, c):
    if c.op == 'tup':
        return or_(*[isinstance_(I, st, x, y) for y in c.args])
    if x.op == 'ite':
        return ite(x.args[0], isinstance_(I, st, x.args[1], c), isinstance_(I, st, x.args[2], c))
    xc = I.class_of(x)
    if c.op == 'cls':
        if isinstance(xc, ClassObj):
            return TRUE if xc.issub(c.args[0]) else FALSE
        if x.op in ('num', 'const', 'tup', 'fn', 'poly', 'ref') or xc is not None:
            return FALSE
        return mk('isinst', x, const(c.args[0].name))
    nm = c.args[0].split('.')[-1] if c.op == 'mod' else None
    v = I.V(st, x)
    listlike = xc in ('list', 'ndarray', 'dict', 'tuple', 'rawseq', 'matrix', 'deque') or rank(I, v) > 0 or v.op in (
        'set', 'setof', 'mkmap')
    isstr = is_strish(v) or v.op in ('lower', 'upper')
    if nm in ('Iterable', 'Collection', 'Sequence', 'Sized'):
        if listlike or isstr:
            return TRUE
        if isinstance(xc, ClassObj):
            if set(xc.ext_bases()) & {'list', 'dict', 'tuple'}:
                return TRUE
            return TRUE if xc.find('__iter__')[1] is not None else FALSE
        return FALSE if v.op not in ('sym',) else mk('isinst', v, const(nm))
    if nm == 'str':
        if isstr:
            return TRUE
        if v.op in ('num', 'ref', 'tup', 'poly', 'fn', 'cls', 'symbol') or listlike or isinstance(xc, ClassObj) or v is NONE:
            return FALSE
        if v.op == 'const':
            return FALSE
        return mk('isinst', v, const('str'))
    if nm in ('dict',):
        if xc == 'dict' or isinstance(xc, ClassObj) and 'dict' in xc.ext_bases():
            return TRUE
        if v.op in ('num', 'const', 'ref', 'tup') or listlike or isinstance(xc, ClassObj):
            return FALSE
        return FALSE if v.op in ('poly', 'at', 'attr') else mk('isinst', v, const(nm))
    if nm in ('list', 'tuple', 'ndarray', 'set'):
        if xc == nm:
            return TRUE
        if isinstance(xc, ClassObj):
            return TRUE if nm in xc.ext_bases() else FALSE
        if xc in ('list', 'ndarray', 'tuple', 'dict', 'matrix') or v.op in ('num', 'const', 'poly'):
            return FALSE
        return mk('isinst', v, const(nm))
    if nm in ('int', 'float', 'bool', 'complex', 'Number'):
        if v.op == 'const':
            if isinstance(v.args[0], bool):
                return TRUE if nm in ('bool', 'int', 'Number') else FALSE
            return FALSE
        if listlike or isstr or isinstance(xc, ClassObj) or v.op in ('fn', 'cls', 'ref'):
            return FALSE
        if v.op == 'num' and v.args[0].denominator != 1:
            return TRUE if nm in ('float', 'Number') else FALSE
        if v.op == 'num' and getattr(I, 'int_literals', False):
            return TRUE if nm in ('int', 'Number') else FALSE
        return mk('isinst', v, const(nm))
    if c.op == 'mod' and c.args[0].startswith('sympy') and nm in ('Expr', 'Basic', 'Symbol'):
        if listlike or isstr or isinstance(xc, ClassObj) or v is NONE:
            return FALSE
        if v.op == 'symbol' or nm != 'Symbol' and (v.op in ('dif', 'poly') or v in getattr(I, 'exprs', ())):
            return TRUE
    if c.op == 'mod' and c.args[0].startswith('sympy') and ('Array' in nm or 'Matrix' in nm):
        if xc == 'matrix' or xc == 'ndarray':
            return TRUE if ('Matrix' in nm) == (xc == 'matrix') else FALSE
        if not listlike or xc == 'list':
            return FALSE
    return mk('isinst', v, const(c.args[0] if c.op == 'mod' else 'type'))


def hasattr_(I, st, x, name):
    c = I.class_of(x)
    if isinstance(c, ClassObj):
        if st.heap.get((x, name)) is not None or I.read_fam_only(st, x, name) is not None:
            return TRUE
        if c.find(name)[1] is not None:
            return TRUE
        if I.lazy(x) or (x.op == 'at'):
            return TRUE if name in c.fields() else FALSE
        return FALSE
    if x is NONE or x.op in ('num',):
        return FALSE
    if name in ('subs_self', 'sympify_self', 'name'):
        return FALSE
    if x.op == 'fn':
        return FALSE
    if c in ('list', 'ndarray', 'dict'):
        return FALSE
    if x.op == 'cls':
        return TRUE if x.args[0].find(name)[1] is not None else FALSE
    return mk('hasattr', x, const(name))


def zip_(I, st, seqs):
    ss = [nseq(as_seq(I, st, s)) for s in seqs]
    ss = [s for s in ss]
    for k, s in enumerate(ss):
        if s.op == 'ite':
            a, b = list(ss), list(ss)
            a[k], b[k] = s.args[1], s.args[2]
            return ite(s.args[0], zip_(I, st, a), zip_(I, st, b))
    # align segments
    segs = [list(s.args) if s.op == 'cat' else [s] for s in ss]
    if all(len(x) == len(segs[0]) for x in segs) and len(segs[0]) > 1 and \
            all(all(slen(x[k]) is slen(segs[0][k]) for x in segs) for k in range(len(segs[0]))):
        return cat(*[zip_(I, st, [x[k] for x in segs]) for k in range(len(segs[0]))])
    if all(s.op == 'seq' for s in ss):
        n = min(len(s.args) for s in ss)
        return seq(*[tup(*[s.args[k] for s in ss]) for k in range(n)])
    # common prefix boundary
    if any(len(x) > 1 for x in segs):
        def cums(x):
            out, acc = [], ZERO
            for g in x:
                acc = add(acc, slen(g))
                out.append(acc)
            return out
        cs = [cums(x) for x in segs]
        for k, c in enumerate(cs[0]):
            if c is ZERO:
                continue
            idx = [q.index(c) if c in q else None for q in cs]
            if None in idx or all(i == len(x) - 1 for i, x in zip(idx, segs)):
                continue
            heads = [cat(*x[:i + 1]) for x, i in zip(segs, idx)]
            tails = [cat(*x[i + 1:]) for x, i in zip(segs, idx)]
            return cat(zip_(I, st, heads), zip_(I, st, tails))
    ns = [slen(s) for s in ss]
    n = ns[0]
    for m in ns[1:]:
        n = min_(n, m)
    b = fresh_bv()
    return tab(n, b, tup(*[at(s, b) for s in ss]))


def min_(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == 'num':
        return a if d.args[0] <= 0 else b
    if is_nat(d):
        return b
    if is_nat(neg(d)):
        return a
    return ite(le(a, b), a, b)


def max_(a, b):
    if a is b:
        return a
    m = min_(a, b)
    if m is a:
        return b
    if m is b:
        return a
    return ite(le(a, b), b, a)


def range_(args):
    if len(args) == 1:
        lo, hi = ZERO, args[0]
    else:
        lo, hi = args[0], args[1]
    if len(args) == 3:
        stp = args[2]
        if all(x.op == 'num' for x in (lo, hi, stp)) and stp.args[0] != 0:
            n, d = hi.args[0] - lo.args[0], stp.args[0]
            n = max(0, -((-n) // d))
            if n <= UNROLL:
                return seq(*[num(lo.args[0] + i * d) for i in range(int(n))])
        if stp is not ONE:
            if stp.op == 'num' and stp.args[0] == -1:
                n = sub(lo, hi)
                b = fresh_bv()
                return tab(n, b, sub(lo, b))
            n = mk('call', 'rangelen', lo, hi, stp)
            b = fresh_bv()
            return tab(mk('len', mk('call', 'range', lo, hi, stp)), b, add(lo, mul(stp, b)))
    n = sub(hi, lo)
    if n.op == 'num':
        k = int(n.args[0])
        if k <= 0:
            return EMPTY
        if k <= UNROLL:
            return seq(*[add(lo, num(j)) for j in range(k)])
    b = fresh_bv()
    if not is_nat(n):
        n = nat_part(n)
    return tab(n, b, add(lo, b))


def nat_part(n):
    """max(n, 0)"""
    if is_nat(n):
        return n
    if n.op == 'num':
        return n if n.args[0] >= 0 else ZERO
    if n.op == 'ite':
        return ite(n.args[0], nat_part(n.args[1]), nat_part(n.args[2]))
    return mk('natpart', n)


REBUILD['natpart'] = nat_part


def sorted_(s):
    """ascending order; the identity when the (first components of the) elements ascend by construction"""
    if s.op in ('seq', 'tup'):
        ks = [x.args[0] if x.op in ('tup', 'seq') and x.args else x for x in s.args]
        if all(k.op == 'num' for k in ks) and len({k.args[0] for k in ks}) == len(ks):
            return seq(*[x for _, x in sorted(zip([k.args[0] for k in ks], s.args), key=lambda p: p[0])])
        if all(k.op == 'const' and isinstance(k.args[0], str) for k in ks) and len(set(ks)) == len(ks):
            return seq(*[x for _, x in sorted(zip([k.args[0] for k in ks], s.args), key=lambda p: p[0])])
    if s.op == 'tab':
        n, b, body = open_binder(s)
        key = body.args[0] if body.op in ('tup', 'seq') and body.args else body
        d = sub(subst(key, {b: add(b, ONE)}), key)
        if d.op == 'num' and d.args[0] > 0 and is_int(key):
            return s
    return mk('perm', const('sorted'), s)


REBUILD['perm'] = lambda w, s: sorted_(s) if w == const('sorted') else mk('perm', w, s)


def enumerate_(I, st, s, start):
    s = nseq(as_seq(I, st, s))
    if s.op == 'ite':
        return ite(s.args[0], enumerate_(I, st, s.args[1], start), enumerate_(I, st, s.args[2], start))
    segs = s.args if s.op == 'cat' else (s,)
    out = []
    off = start
    for g in segs:
        if g.op == 'seq':
            out.append(seq(*[tup(add(off, num(k)), e) for k, e in enumerate(g.args)]))
        else:
            b = fresh_bv()
            out.append(tab(slen(g), b, tup(add(off, b), at(g, b))))
        off = add(off, slen(g))
    return cat(*out)


def product_(I, st, lists):
    """itertools.product(*lists) for literal lists of sequences"""
    ss = [as_seq(I, st, x) for x in lists]
    if all(s.op == 'seq' for s in ss):
        import itertools
        return seq(*[tup(*c) for c in itertools.product(*[s.args for s in ss])])
    return mk('call', 'product', *[val(I, st, s) for s in ss])


def shape_arg(I, st, a):
    v = val(I, st, a)
    if v.op in ('tup', 'seq'):
        return list(v.args)
    return [v]


def filled(I, dims, v):
    if not dims:
        return v
    return tab(dims[0], fresh_bv(), filled(I, dims[1:], v))


def like(I, v, x):
    return elementwise(I, lambda _: x, v) if rank(I, v) > 0 else x


def arg_extreme(v, nm):
    """index of the first least (greatest) element of a short literal sequence"""
    v = nseq(v)
    if v.op != 'seq' or not 0 < len(v.args) <= 6:
        return None

    def go(idx, best, j):
        if j == len(v.args):
            return num(idx)
        x = v.args[j]
        c = lt(x, best) if nm == 'argmin' else lt(best, x)
        return ite(c, go(j, x, j + 1), go(idx, best, j + 1))
    return go(0, v.args[0], 1)


def np_insert(I, st, a, kw):
    arr = val(I, st, a[0])
    idx = val(I, st, a[1])
    vals = val(I, st, a[2])
    axis = want(a, kw, 3, 'axis', NONE)
    ins = lambda row, x: ins1(I, row, idx, x)
    if axis is NONE:
        return ins1(I, flatten(I, arr) if rank(I, arr) > 1 else arr, idx, vals)
    if axis is ZERO:
        return ins1(I, arr, idx, vals)
    if axis is ONE or (axis.op == 'num' and axis.args[0] == -1 and rank(I, arr) == 2):
        b = fresh_bv()
        arr = nseq(arr)
        n = slen(arr)
        x = at(vals, b) if rank(I, vals) > 0 else vals
        if rank(I, vals) == 1:
            m = slen(nseq(vals))
            bad = mismatch(n, m)
            if bad is TRUE and m is not ONE:
                return mk('opaque', 'shape mismatch')
            if bad is None and (n.op == 'num') != (m.op == 'num') and m is not ONE:
                w = mk('opaque', 'shape mismatch')
                if arr.op == 'seq':
                    w = ite(eq(m, n), seq(*[ins(r, at(vals, num(j))) for j, r in enumerate(arr.args)]), w)
                else:
                    w = ite(eq(m, n), tab(n, b, ins(at(arr, b), x)), w)
                return w
        if arr.op == 'seq':
            return seq(*[ins(r, at(vals, num(j)) if rank(I, vals) else vals) for j, r in enumerate(arr.args)])
        return tab(n, b, ins(at(arr, b), x))
    return mk('opaque', 'insert axis')


def ins1(I, row, idx, x):
    if idx.op in ('num',) and idx.args[0] < 0:
        idx = add(slen(row), idx)
    if rank(I, idx) > 0:
        return mk('call', 'insert', row, idx, x)
    if rank(I, x) > 0:
        # several values before one index
        return cat(slice_(nseq(row), ZERO, idx), x, slice_(nseq(row), idx, NONE))
    return insat(nseq(row), idx, x)


def np_delete(I, st, a, kw):
    arr = val(I, st, a[0])
    idx = a[1] if a[1].op == 'sliceobj' else val(I, st, a[1])
    axis = want(a, kw, 2, 'axis', NONE)
    if axis is NONE:
        return delete_idx(I, flatten(I, arr) if rank(I, arr) > 1 else arr, idx)
    if axis is ZERO:
        return delete_idx(I, arr, idx)
    if axis is ONE or (axis.op == 'num' and axis.args[0] == -1 and rank(I, arr) == 2):
        arr = nseq(arr)
        if arr.op == 'seq':
            return seq(*[delete_idx(I, r, idx) for r in arr.args])
        b = fresh_bv()
        return tab(slen(arr), b, delete_idx(I, at(arr, b), idx))
    return mk('opaque', 'delete axis')


def mismatch(n, m):
    """TRUE: the two lengths certainly differ, FALSE: they are equal, None: unknown"""
    if n is m:
        return FALSE
    d = sub(n, m)
    if d.op == 'num':
        return TRUE if numval(d) != 0 else FALSE
    return None


def rowwise(I, parts):
    """concatenate matrices along axis 1"""
    parts = [nseq(p) for p in parts]
    n = None
    for p in parts:
        n = slen(p) if n is None else n
        if mismatch(n, slen(p)) is TRUE:
            return mk('opaque', 'shape mismatch')
    b = fresh_bv()
    if all(p.op == 'seq' for p in parts):
        return seq(*[cat(*[p.args[k] for p in parts]) for k in range(len(parts[0].args))])
    return tab(n, b, cat(*[at(p, b) for p in parts]))


def stack(I, st, name, a, kw):
    items = as_seq(I, st, a[0])
    if items.op not in ('seq', 'tup'):
        v = val(I, st, items)
        if name == 'vstack':
            if items.op == 'cat' or rank(I, v) == 2:
                return v
            return v
        return mk('call', name, v)
    parts = [val(I, st, x) for x in items.args]
    rk = [rank(I, p) for p in parts]
    if name == 'vstack':
        rows = [seq(p) if r == 1 else (p if r >= 2 else seq(seq(p))) for p, r in zip(parts, rk)]
        return cat(*rows)
    if name in ('hstack',):
        if max(rk) <= 1:
            return cat(*[p if r == 1 else seq(p) for p, r in zip(parts, rk)])
        return rowwise(I, parts)
    if name == 'concatenate':
        axis = want(a, kw, 1, 'axis', ZERO)
        if axis is ZERO:
            return cat(*parts)
        if axis is ONE:
            return rowwise(I, parts)
        return mk('opaque', 'concatenate axis')
    if name == 'column_stack':
        cols = []
        for p, r in zip(parts, rk):
            if r == 1:
                b = fresh_bv()
                cols.append(tab(slen(p), b, seq(at(p, b))) if p.op != 'seq' else seq(*[seq(x) for x in p.args]))
            else:
                cols.append(p)
        return rowwise(I, cols)
    return mk('call', name, *parts)


def linspace(I, st, a, kw, log=False):
    lo, hi = val(I, st, a[0]), val(I, st, a[1])
    n = val(I, st, want(a, kw, 2, 'num', num(50)))
    ep = want(a, kw, 3, 'endpoint', TRUE)
    b = fresh_bv()
    den = sub(n, ONE) if ep is TRUE else n
    f = lambda k: add(lo, mul(k, div(sub(hi, lo), den)))
    if n.op == 'num' and 0 < n.args[0] <= UNROLL:
        xs = [f(num(j)) if j else lo for j in range(int(n.args[0]))]
        r = seq(*xs)
        return elementwise(I, lambda x: power(num(10), x), r) if log else r
    body = f(b)
    if log:
        body = power(num(10), body)
    return tab(n if is_nat(n) else nat_part(n), b, body)


def call_lib(I, st, d, args, kwargs, node):
    h = I.intercepts.get(d)
    if h is not None:
        r = h(I, st, args, kwargs)
        if r is not None:
            return r
    parts = d.split('.')
    pk, nm = parts[0], parts[-1]
    if pk == 'typing' or pk == 'warnings':
        return NONE
    if pk == 'builtins':
        r = builtin(I, st, nm, args, kwargs, node)
        if r is not None:
            return r
    if pk == 'copy':
        if nm == 'deepcopy':
            return I.copy_value(st, args[0], True)
        if nm == 'copy':
            c = I.class_of(args[0])
            if c in ('list', 'ndarray'):
                return I.new_list(st, I.V(st, args[0]), c)
            return I.copy_value(st, args[0], False)
    if pk in ('numpy', 'math', 'sympy') and nm in UFUNC and len(args) >= 1:
        v = val(I, st, args[0])
        r = elementwise(I, fn1(UFUNC[nm]), v)
        return I.new_array(st, r) if rank(I, r) > 0 else r
    if pk in ('numpy', 'math') and nm == 'isclose' and len(args) >= 2:
        x, y = val(I, st, args[0]), val(I, st, args[1])
        if y.op == 'num' and y.args[0] == 0 and rank(I, x) == 0:
            # |x| <= max(rel * |x|, tol) with rel < 1
            t = kwargs.get('abs_tol', ZERO) if pk == 'math' else kwargs.get('atol', num(Fraction(1, 10 ** 8)))
            return le(fn1('abs')(x), val(I, st, t))
    if pk == 'numpy':
        r = numpy_(I, st, nm, d, args, kwargs, node)
        if r is not None:
            return r
    if pk == 'sympy':
        r = sympy_(I, st, nm, d, args, kwargs, node)
        if r is not None:
            return r
    if pk == 'numba' and nm in ('njit', 'jit', 'vectorize'):
        if len(args) == 1 and args[0].op in ('fn', 'lam', 'bound') and not kwargs:
            return args[0]
        return mk('mod', 'numba.decorator')
    if d == 'numba.decorator':
        return args[0]
    if d == 'functools.partial':
        return mk('partial', args[0], tup(*args[1:]),
                  tup(*[tup(const(k), v) for k, v in sorted(kwargs.items())]))
    if d == 'inspect.isclass' and args[0].op in ('cls', 'num', 'const', 'fn', 'ref'):
        return TRUE if args[0].op == 'cls' else FALSE
    if d == 'inspect.getmembers' and len(args) == 2 and args[0].op == 'mod' and args[0].args[0] in I.prog.modules \
            and args[1] is mk('mod', 'inspect.isclass'):
        # the repository's classes; those of libraries have none of its attributes
        out = []
        for n in sorted(I.prog.modules[args[0].args[0]].defs):
            r = I.prog.lookup(args[0].args[0], n) if n != '*' else None
            if r is not None and r[0] == 'class':
                out.append(tup(const(n), mk('cls', r[1])))
        return I.new_list(st, seq(*out))
    if d == 'types.MethodType':
        return mk('bound', args[0], args[1])
    if d == 'itertools.product':
        if len(args) == 1 and args[0].op == 'star':
            return mk('call', 'product', val(I, st, args[0].args[0]))
        return I.new_list(st, product_(I, st, args))
    if d in ('tqdm.tqdm', 'tqdm.auto.tqdm'):
        return args[0]
    if d == 'pool.map' or nm == 'map' and pk == 'pathos':
        f, xs = args[0], args[1]
        return map_fn(I, st, f, xs, node)
    if d == 'collections.deque':
        return I.new_list(st, as_seq(I, st, args[0]) if args else EMPTY)
    I.opaque_calls[d] = I.opaque_calls.get(d, 0) + 1
    I.trace(st, d, None, args, kwargs, node)
    kw = [tup(const(k), val(I, st, x)) for k, x in sorted(kwargs.items())]
    return mk('call', d, *([val(I, st, a) for a in args] + kw))


def map_fn(I, st, f, xs, node):
    """[f(x) for x in xs] through the loop machinery"""
    frame = I.alloc('frame', 'map')
    from .interp import Frame
    fr = Frame(frame, I.callstack[-1].module if I.callstack else list(I.prog.modules.values())[0],
               I.callstack[-1] if I.callstack else None)
    st.heap[(frame, 'v:$f')] = f
    st.heap[(frame, 'v:$xs')] = xs
    e = ast.parse('[F(x) for x in XS]', mode='eval').body
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id == 'F':
            n.id = '$f'
        if isinstance(n, ast.Name) and n.id == 'XS':
            n.id = '$xs'
    return I.eval(e, st, fr)


def builtin(I, st, nm, a, kw, node):
    if nm == 'len':
        v = a[0]
        c = I.class_of(v)
        if v.op == 'ite':
            return ite(v.args[0], builtin(I, st, 'len', [v.args[1]], kw, node),
                       builtin(I, st, 'len', [v.args[2]], kw, node))
        if isinstance(c, ClassObj) and c.find('__len__')[1] is not None:
            return I.call_method(v, '__len__', [], {}, st, node)
        if c == 'matrix':
            return slen(I.read(st, v, '$'))
        s = as_seq(I, st, v)
        if s.op == 'mapkeys':
            return slen(s)
        n = slen(s)
        if s.op == 'cat' and n.op != 'num':
            I.len_cats[n] = tuple(slen(x) for x in s.args)
        return n
    if nm == 'range':
        return range_([val(I, st, x) for x in a])
    if nm == 'zip':
        return I.new_list(st, zip_(I, st, [mat_iter(I, st, x) for x in a]))
    if nm == 'enumerate':
        return I.new_list(st, enumerate_(I, st, mat_iter(I, st, a[0]), want(a, kw, 1, 'start', ZERO)))
    if nm == 'reversed':
        return I.new_list(st, rev(as_seq(I, st, a[0])))
    if nm == 'sorted':
        s = as_seq(I, st, a[0])
        if kw:
            f, rv = kw.get('key', NONE), kw.get('reverse', FALSE)
            if set(kw) <= {'key', 'reverse'} and s.op in ('seq', 'tup') and rv in (TRUE, FALSE):
                ks = [val(I, st, x if f is NONE else I.call(f, [x], {}, st, node)) for x in s.args]
                if ks and all(k.op == ks[0].op and k.op in ('num', 'const') for k in ks) and \
                        all(isinstance(k.args[0], type(ks[0].args[0])) or k.op == 'num' for k in ks):
                    return I.new_list(st, seq(*[x for _, x in sorted(zip([k.args[0] for k in ks], s.args),
                                                                     key=lambda p: p[0], reverse=rv is TRUE)]))
            return mk('opaque', 'sorted with key')
        if s.op == 'seq' and len(s.args) <= 1:
            return I.new_list(st, s)
        return I.new_list(st, sorted_(val(I, st, s)))
    if nm in ('list', 'tuple'):
        if not a:
            return I.new_list(st, EMPTY) if nm == 'list' else tup()
        s = mat_iter(I, st, a[0])
        s = as_seq(I, st, s)
        if nm == 'tuple':
            return tup(*s.args) if s.op == 'seq' else s
        return I.new_list(st, nseq(s))
    if nm == 'set':
        if not a:
            return mk('set')
        s = val(I, st, as_seq(I, st, a[0]))
        return mk('set', *sorted(set(s.args), key=lambda t: t.id)) if s.op == 'seq' else mk('setof', s)
    if nm == 'dict':
        if a:
            c = I.class_of(a[0])
            if c == 'dict' or isinstance(c, ClassObj):
                dd = I.alloc('dict', 'd')
                st.heap[(dd, '$keys')] = EMPTY
                dict_update(I, st, dd, a[0])
            else:
                dd = dict_from_pairs(I, st, as_seq(I, st, a[0]))
        else:
            dd = I.alloc('dict', 'd')
            st.heap[(dd, '$keys')] = EMPTY
        for k, v in kw.items():
            dict_set(I, st, dd, const(k), v)
        return dd
    if nm == 'str':
        if not a:
            return const('')
        c = I.class_of(a[0])
        if isinstance(c, ClassObj) and c.find('__str__')[1] is not None:
            return mk('objstr', a[0])
        return str_(strval(I, st, a[0]))
    if nm == 'repr':
        return mk('call', 'repr', strval(I, st, a[0]))
    if nm == 'int':
        v = val(I, st, a[0])
        if is_int(v):
            return v
        if v.op == 'num':
            return num(int(v.args[0]))
        return mk('intof', v)
    if nm == 'float':
        v = val(I, st, a[0])
        if v.op == 'const' and isinstance(v.args[0], str):
            try:
                return num(float(v.args[0]))
            except ValueError:
                return mk('opaque', 'float', v)
        return v
    if nm == 'bool':
        return I.truth(a[0], st)
    if nm == 'abs':
        v = val(I, st, a[0])
        r = elementwise(I, fn1('abs'), v)
        return I.new_array(st, r) if rank(I, r) else r
    if nm == 'sum':
        s = as_seq(I, st, a[0])
        s = val(I, st, s)
        if rank(I, s) > 1:
            b = fresh_bv()
            return mk('call', 'sum', s)
        r = sumseq(I, s)
        if len(a) > 1:
            r = add(r, val(I, st, a[1]))
        return r
    if nm in ('any', 'all'):
        s = val(I, st, as_seq(I, st, a[0]))
        s = nseq(s)
        neg_ = nm == 'all'
        t = lambda x: not_(I.truth(x, st)) if neg_ else I.truth(x, st)
        segs = s.args if s.op == 'cat' else (s,)
        out = []
        for g in segs:
            if g.op == 'seq':
                out += [t(x) for x in g.args]
            else:
                b = fresh_bv()
                out.append(any_(slen(g), b, t(at(g, b))))
        r = or_(*out) if out else FALSE
        return not_(r) if neg_ else r
    if nm in ('min', 'max'):
        if len(a) >= 2:
            f = min_ if nm == 'min' else max_
            r = val(I, st, a[0])
            for x in a[1:]:
                r = f(r, val(I, st, x))
            return r
        s = val(I, st, as_seq(I, st, a[0]))
        if s.op == 'seq' and s.args:
            f = min_ if nm == 'min' else max_
            r = s.args[0]
            for x in s.args[1:]:
                r = f(r, x)
            return r
        return mk('call', nm, s)
    if nm == 'isinstance':
        return isinstance_(I, st, a[0], a[1])
    if nm == 'hasattr':
        if a[1].op == 'const':
            return hasattr_(I, st, a[0], a[1].args[0])
        return mk('opaque', 'hasattr')
    if nm == 'getattr':
        if a[1].op == 'const':
            if len(a) > 2:
                h = hasattr_(I, st, a[0], a[1].args[0])
                if h is FALSE:
                    return a[2]
                return ite(h, I.get_attr(a[0], a[1].args[0], st, node), a[2])
            return I.get_attr(a[0], a[1].args[0], st, node)
        return mk('opaque', 'getattr')
    if nm == 'setattr':
        if a[1].op == 'const':
            I.set_attr(a[0], a[1].args[0], a[2], st, node)
            return NONE
        return mk('opaque', 'setattr')
    if nm == 'callable':
        if a[0].op in ('fn', 'lam', 'bound', 'partial', 'cls'):
            return TRUE
        if a[0].op in ('num', 'const', 'tup'):
            return FALSE
        if a[0].op == 'mod' and (a[0].args[0] in I.intercepts or a[0].args[0].startswith('verif.')):
            return TRUE
        return mk('callable', a[0])
    if nm == 'slice':
        if len(a) == 1:
            return mk('sliceobj', NONE, a[0], NONE)
        return mk('sliceobj', a[0], a[1], a[2] if len(a) > 2 else NONE)
    if nm == 'type' and len(a) == 3:
        # a class made on the fly: its first base, the name is reported to the rule
        h = I.intercepts.get('type3')
        b = val(I, st, a[1])
        if h is not None:
            h(I, st, a, kw)
        return b.args[0] if b.op in ('tup', 'seq') and b.args else mk('opaque', 'type')
    if nm == 'type':
        c = I.class_of(a[0])
        if isinstance(c, ClassObj):
            return mk('cls', c)
        if a[0].op == 'fn' or a[0].op == 'mod' and a[0].args[0].startswith('verif.'):
            return mk('mod', 'types.FunctionType')
        return mk('call', 'type', val(I, st, a[0]))
    if nm == 'iter':
        return a[0]
    if nm == 'map':
        if len(a) == 2:
            return map_fn(I, st, a[0], a[1], node)
    if nm == 'filter' and len(a) == 2:
        return mk('opaque', 'filter')
    if nm == 'print':
        return NONE
    if nm == 'object':
        return I.alloc('object', 'obj')
    if nm == 'id':
        return mk('call', 'id', a[0])
    if nm == 'round':
        return mk('call', 'round', *[val(I, st, x) for x in a])
    if nm == 'pow':
        return power(val(I, st, a[0]), val(I, st, a[1]))
    if nm == 'divmod':
        x, y = val(I, st, a[0]), val(I, st, a[1])
        return tup(floordiv(x, y), modop(x, y))
    if nm == 'next':
        c = I.class_of(a[0])
        if isinstance(c, ClassObj) and c.find('__next__')[1] is not None:
            return I.call_method(a[0], '__next__', [], {}, st, node)
        s = as_seq(I, st, a[0])
        if s.op in SEQ_OPS:
            if s.op == 'filt':
                n, b, c_, body = open_binder(s)
                r = subst(body, {b: first_(n, b, c_)})
                if len(a) > 1:
                    return ite(any_(n, b, c_), r, a[1])
                return r
            if len(a) > 1:
                return ite(pos(slen(s)), at(s, ZERO), a[1])
            return at(s, ZERO)
        return mk('opaque', 'next')
    return None


def mat_iter(I, st, x):
    """iterating a column Matrix yields its entries"""
    if I.class_of(x) == 'matrix':
        s = I.read(st, x, '$')
        if s.op == 'seq':
            return seq(*[e for r in s.args for e in r.args])
        if s.op == 'cat':
            return cat(*[mat_iter_rows(g) for g in s.args])
        return mat_iter_rows(s)
    return x


def mat_iter_rows(g):
    if g.op == 'seq':
        return seq(*[e for r in g.args for e in r.args])
    b = fresh_bv()
    return tab(slen(g), b, at(at(g, b), ZERO))


def as_dtype(I, x, d):
    """integers forget the fraction"""
    if d is None or not (d.op == 'mod' and d.args[0].split('.')[-1] in ('int', 'int32', 'int64', 'int_', 'int16', 'int8')
                         or d in (const('int'), const('i'), const('int64'))):
        return x
    x = nseq(x)
    if x.op == 'seq':
        return seq(*[as_dtype(I, e, d) for e in x.args])
    if x.op == 'cat':
        return cat(*[as_dtype(I, e, d) for e in x.args])
    if rank(I, x) > 0:
        b = fresh_bv()
        return tab(slen(x), b, as_dtype(I, at(x, b), d))
    if x.op == 'num':
        return num(int(x.args[0]))
    return x if is_int(x) else mk('intof', x)


def numpy_(I, st, nm, d, a, kw, node):
    arr = lambda t: I.new_array(st, t) if rank(I, t) > 0 or t is EMPTY else t
    if nm in ('array', 'asarray', 'atleast_1d', 'ascontiguousarray', 'squeeze', 'copy', 'asfarray'):
        v = a[0]
        c = I.class_of(v)
        x = val(I, st, v)
        if nm == 'squeeze':
            x = nseq(x)
            if x.op == 'seq' and len(x.args) == 1:
                x = x.args[0]
        if nm == 'asarray' and c == 'ndarray':
            return v
        if c == 'matrix':
            return I.new_array(st, I.read(st, v, '$'))
        if x.op == 'tup':
            x = seq(*x.args)
        x = as_dtype(I, x, kw.get('dtype') or (a[1] if len(a) > 1 and nm in ('array', 'asarray') else None))
        if rank(I, x) > 0 or x is EMPTY:
            return I.new_array(st, x)
        return x
    if nm in ('insert',):
        return arr(np_insert(I, st, a, kw))
    if nm in ('delete',):
        return arr(np_delete(I, st, a, kw))
    if nm == 'append':
        v, w = val(I, st, a[0]), val(I, st, a[1])
        return arr(cat(v, w if rank(I, w) else seq(w)))
    if nm in ('vstack', 'hstack', 'concatenate', 'column_stack'):
        return arr(stack(I, st, nm, a, kw))
    if nm in ('zeros', 'empty', 'ones'):
        dims = shape_arg(I, st, a[0] if a else kw.get('shape'))
        v = {'zeros': ZERO, 'ones': ONE, 'empty': sym('uninit', 'real')}[nm]
        return I.new_array(st, filled(I, dims, v))
    if nm in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        v = val(I, st, a[0])
        x = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': sym('uninit', 'real')}.get(nm)
        if x is None:
            x = val(I, st, a[1])
        return arr(like(I, v, x))
    if nm == 'full':
        return I.new_array(st, filled(I, shape_arg(I, st, a[0]), val(I, st, a[1])))
    if nm in ('eye', 'identity'):
        n = val(I, st, a[0])
        i, j = fresh_bv(), fresh_bv()
        return I.new_array(st, tab(n, i, tab(n, j, ite(eq(i, j), ONE, ZERO))))
    if nm == 'linspace':
        return I.new_array(st, linspace(I, st, a, kw))
    if nm == 'logspace':
        return I.new_array(st, linspace(I, st, a, kw, log=True))
    if nm == 'geomspace':
        lg = fn1('log10')
        return I.new_array(st, linspace(I, st, [lg(val(I, st, a[0])), lg(val(I, st, a[1]))] + list(a[2:]), kw, log=True))
    if nm == 'arange':
        vs = [val(I, st, x) for x in a]
        if all(is_int(x) for x in vs) or all(x.op == 'num' for x in vs) and len(vs) == 3:
            return I.new_array(st, range_(vs))
        return mk('call', 'numpy.arange', *vs)
    if nm in ('divide', 'true_divide', 'multiply', 'add', 'subtract', 'power'):
        f = {'divide': div, 'true_divide': div, 'multiply': mul, 'add': add, 'subtract': sub, 'power': power}[nm]
        return arr(elementwise(I, f, val(I, st, a[0]), val(I, st, a[1])))
    if nm in ('negative',):
        return arr(elementwise(I, neg, val(I, st, a[0])))
    if nm == 'shape':
        return shape_of(I, val(I, st, a[0]))
    if nm == 'size':
        return value_attr(I, st, a[0], 'size', node)
    if nm == 'transpose':
        return arr(transpose(I, val(I, st, a[0])))
    if nm in ('dot', 'matmul'):
        return matmul(I, st, I.V(st, a[0]), I.V(st, a[1]))
    if nm == 'reshape':
        return arr(reshape(I, val(I, st, a[0]), [val(I, st, a[1] if len(a) > 1 else kw.get('shape', kw.get('newshape')))],
                           a[2] if len(a) > 2 else kw.get('order')))
    if nm in ('ravel',):
        return arr(flatten(I, val(I, st, a[0])))
    if nm == 'sum' and len(a) == 1 and not kw:
        v = val(I, st, a[0])
        if rank(I, v) == 1:
            return sumseq(I, v)
    if nm in ('mean', 'average') and len(a) == 1 and not kw:
        v = val(I, st, a[0])
        if rank(I, v) == 1:
            return div(sumseq(I, v), slen(v))
    if nm in ('any', 'all') and len(a) == 1:
        return builtin(I, st, nm, a, {}, node)
    if nm in ('where', 'nonzero', 'flatnonzero', 'argwhere') and len(a) == 1 and nm != 'argwhere':
        v = concrete_vec(I, st, a[0])
        if v is not None and all(x.op == 'num' for x in v):
            r = arr(seq(*[num(i) for i, x in enumerate(v) if x is not ZERO]))
            return r if nm == 'flatnonzero' else tup(r)
    if nm in ('prod', 'product') and len(a) == 1 and not kw:
        v = concrete_vec(I, st, a[0])
        if v is not None:
            r = ONE
            for x in v:
                r = mul(r, x)
            return r
    if nm == 'where' and len(a) == 3:
        c, x, y = [val(I, st, q) for q in a]
        return arr(elementwise(I, lambda p, q, r: ite(I.truth(p, st), q, r), c, x, y))
    if nm in ('float64', 'float32', 'float', 'int64'):
        return val(I, st, a[0])
    if nm in ('isclose', 'allclose'):
        return mk('isclose', val(I, st, a[0]), val(I, st, a[1]))
    if nm == 'diag' and a:
        v = concrete_vec(I, st, a[0])
        k = val(I, st, a[1]) if len(a) > 1 else val(I, st, kw['k']) if 'k' in kw else ZERO
        if v is not None and k.op == 'num' and set(kw) <= {'k'}:
            k = int(numval(k))
            n = len(v) + abs(k)
            return arr(seq(*[seq(*[v[min(i, j)] if j - i == k else ZERO for j in range(n)]) for i in range(n)]))
    if nm == 'solve' and 'linalg' in d and len(a) == 2 and not kw:
        A, b = val(I, st, a[0]), val(I, st, a[1])
        if rank(I, A) == 2:
            vec = rank(I, b) == 1
            r = linsolve(A, matrix_of(I, st, b) if vec else b)
            if r is not None:
                return arr(seq(*[x.args[0] for x in r.args]) if vec else r)
    if nm in ('argmin', 'argmax') and len(a) == 1 and not kw and I.expand_arg:
        r = arg_extreme(val(I, st, a[0]), nm)
        if r is not None:
            return r
    if nm in ('min', 'max', 'amin', 'amax') and 1 <= len(a) <= 2 and set(kw) <= {'axis'}:
        ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
        r = reduce_extreme(I, val(I, st, a[0]), nm[-3:], I.V(st, ax))
        if r is not None:
            return arr(r) if r.op in SEQ_OPS else r
    if nm in ('broadcast_to',) and len(a) == 2:
        dims = shape_arg(I, st, a[1])
        v = val(I, st, a[0])
        if rank(I, v) == 0:
            return arr(filled(I, dims, v))
        if rank(I, v) == 1 and len(dims) == 2:
            return arr(tab(dims[0], fresh_bv(), v))
    if nm in ('tile',) and len(a) == 2:
        v, n = val(I, st, a[0]), val(I, st, a[1])
        if n.op in ('tup', 'seq') and len(n.args) == 2 and n.args[1] is ONE and rank(I, v) == 1:
            return arr(tab(n.args[0], fresh_bv(), v))
    return None


def sympy_(I, st, nm, d, a, kw, node):
    if nm == 'Symbol':
        return symbol(val(I, st, a[0]))
    if nm in ('symbols',):
        return symbol(val(I, st, a[0]))
    if nm in ('Integer', 'Float', 'Rational', 'S'):
        v = val(I, st, a[0])
        if nm == 'Rational' and len(a) == 2:
            return div(v, val(I, st, a[1]))
        return v
    if nm == 'sympify':
        v = val(I, st, a[0]) if I.class_of(a[0]) not in ('list', 'ndarray') else a[0]
        if I.mark_sympify:
            return sympify_mark(I, st, v)
        return sympify_id(I, st, v)
    if nm == 'diff':
        r = val(I, st, a[0])
        for s in a[1:]:
            r = diff_(I, r, val(I, st, s))
        return r
    if nm in ('Matrix', 'MutableDenseMatrix', 'ImmutableMatrix'):
        if len(a) == 1:
            return I.new_list(st, matrix_of(I, st, a[0]), 'matrix', 'm')
    if nm in ('MutableDenseNDimArray', 'Array', 'ImmutableDenseNDimArray'):
        v = val(I, st, a[0])
        if I.class_of(a[0]) == 'matrix':
            v = I.read(st, a[0], '$')
        return I.new_array(st, v) if rank(I, v) else v
    if nm == 'lambdify':
        params = val(I, st, a[0])
        if params.op not in ('seq', 'tup') and rank(I, params) == 0 and params.op not in SEQ_OPS:
            params = seq(params)
        params = nseq(params)
        return mk('lam', params, val(I, st, a[1]))
    if nm in ('zeros', 'ones') and a and not kw:
        n = val(I, st, a[0])
        m = val(I, st, a[1]) if len(a) > 1 else n
        v = ZERO if nm == 'zeros' else ONE
        if n.op == 'num' and m.op == 'num' and numval(n) * numval(m) <= 400:
            return I.new_list(st, seq(*[seq(*[v] * int(numval(m)))] * int(numval(n))), 'matrix', 'm')
        i, j = fresh_bv(), fresh_bv()
        return I.new_list(st, tab(n, i, tab(m, j, v)), 'matrix', 'm')
    if nm == 'eye':
        n = val(I, st, a[0])
        i, j = fresh_bv(), fresh_bv()
        return I.new_list(st, tab(n, i, tab(n, j, ite(eq(i, j), ONE, ZERO))), 'matrix', 'm')
    if nm in ('simplify', 'expand', 'nsimplify', 'trigsimp', 'factor', 'cancel', 'together'):
        return val(I, st, a[0])
    return None


def sympify_id(I, st, v):
    if v.op == 'const' and isinstance(v.args[0], str):
        try:
            return num(Fraction(v.args[0]))
        except (ValueError, ZeroDivisionError):
            return v
    return v


def sympify_mark(I, st, v):
    c = I.class_of(v)
    if c in ('list', 'ndarray'):
        s = val(I, st, v)
        return I.new_list(st, mark_seq(I, s), c)
    return mark1(I, v)


def mark_seq(I, s):
    if s.op in ('seq', 'tup'):
        return seq(*[mark1(I, x) for x in s.args])
    b = fresh_bv()
    return tab(slen(s), b, mark1(I, at(s, b)))


def mark1(I, v):
    if v.op in ('num', 'sympd', 'symbol'):
        return v
    if v.op == 'const' and v.args[0] is None:
        return v
    if v.op == 'ite':
        return ite(v.args[0], mark1(I, v.args[1]), mark1(I, v.args[2]))
    if rank(I, v) > 0:
        return mark_seq(I, v)
    return mk('sympd', v)
