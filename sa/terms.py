"""Hash-consed value-graph terms with normalising constructors.

A term is an operator applied to arguments.  Two program values that receive the
same term are equal for every input (global value numbering).  Arithmetic is kept
in sum-of-products form, conditionals in guard normal form, sequences as
tabulations ``tab(n, i. body)``; bound indices are numbered by binder height so
alpha-equivalent terms are one object.
"""
from fractions import Fraction
import sys
import time as _time

sys.setrecursionlimit(20000)


class Budget(BaseException):
    pass


DEADLINE = [None]


class T:
    __slots__ = ('op', 'args', '_h', 'id', 'height', 'fbv', 'aux')
    table = {}
    n = 0

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple((a.id if isinstance(a, T) else ('#', type(a).__name__, a)) for a in args)
    t = T.table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    T.n += 1
    if DEADLINE[0] is not None and not T.n & 1023 and _time.time() > DEADLINE[0]:
        raise Budget()
    t.id = T.n
    h = 0
    fb = None
    for a in args:
        if isinstance(a, T):
            if a.height > h:
                h = a.height
            if a.fbv:
                fb = a.fbv if fb is None else (fb if fb is a.fbv else fb | a.fbv)
    if op == 'bv':
        fb = frozenset([t])
    elif op in BINDERS:
        h += 1
        if fb:
            fb = fb - {args[1]}
    t.height = h
    t.fbv = fb or frozenset()
    t.aux = None
    T.table[key] = t
    return t


# binder ops have the layout (n, bv, rest...): bv is bound in rest (and not in n)
BINDERS = {'tab', 'sum', 'prod', 'any', 'first', 'filt', 'fold', 'lastsat', 'inscols', 'flat', 'anyin'}

_bvc = [0]


BV_BOUND = {}      # loop index -> number of iterations


def fresh_bv(hint='i'):
    _bvc[0] += 1
    return mk('bv', 'f%d' % _bvc[0])


def canon_bv(h):
    return mk('bv', h)


def is_t(x):
    return isinstance(x, T)


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, bool):
        f = Fraction(int(x))
    elif isinstance(x, int):
        f = Fraction(x)
    elif isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('sym', repr(x), 'real')
        f = Fraction(repr(x))
    else:
        raise TypeError(x)
    return mk('num', f)


def const(x):
    return mk('const', x)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
UNDEF = mk('undef')
ZERO = num(0)
ONE = num(1)


def sym(name, kind='any'):
    return mk('sym', name, kind)


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0]


def is_true(t):
    return t is TRUE


def is_false(t):
    return t is FALSE


# ---------------------------------------------------------------- show
_infix = {'add': '+'}


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 40:
        return '...'
    o = t.op
    a = t.args
    s = lambda x: show(x, d + 1)
    if o == 'num':
        return str(a[0])
    if o == 'const':
        return repr(a[0])
    if o == 'sym':
        return str(a[0])
    if o == 'bv':
        return 'i%s' % (a[0],)
    if o == 'poly':
        parts = []
        for m, c in a[0]:
            fs = []
            for at, e in m:
                fs.append(s(at) + ('' if e == 1 else '^%s' % e))
            if c == -1 and fs:
                p = '-' + '*'.join(fs)
            else:
                if c != 1 or not fs:
                    fs.insert(0, str(c))
                p = '*'.join(fs)
            parts.append(p)
        return '(' + ' + '.join(parts) + ')'
    if o == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'attr':
        return '%s.%s' % (s(a[1]), a[0])
    if o == 'ite':
        return 'if(%s, %s, %s)' % tuple(s(x) for x in a)
    if o == 'tup':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'seq':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'tab':
        return '[%s for %s<%s]' % (s(a[2]), s(a[1]), s(a[0]))
    if o == 'call':
        return '%s(%s)' % (a[0] if isinstance(a[0], str) else s(a[0]), ', '.join(s(x) for x in a[1:]))
    if o == 'fn':
        return '<fn %s>' % (getattr(a[0], 'qual', a[0]),)
    if o == 'ref':
        return '&%s%s' % (a[0], ''.join('[%s]' % s(x) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for c in children(x):
            stack.append(c)


def children(t):
    if t.op == 'poly':
        for m, c in t.args[0]:
            for at, e in m:
                yield at
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def contains(t, x):
    if x.op == 'bv':
        return x in t.fbv
    return any(y is x for y in subterms(t))


def subst(t, mapping, memo=None):
    """Substitute terms for terms, rebuilding with the simplifying constructors."""
    if not mapping:
        return t
    if memo is None:
        memo = {}
    bvonly = all(k.op == 'bv' for k in mapping)

    def go(x):
        r = mapping.get(x)
        if r is not None:
            return r
        if not x.args or x.op in ('num', 'const', 'sym', 'bv', 'undef', 'fn'):
            return x
        if bvonly and not any(k in x.fbv for k in mapping):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'poly':
            r = ZERO
            for m, c in x.args[0]:
                p = num(c)
                for at, e in m:
                    p = mul(p, powi(go(at), e))
                r = add(r, p)
        elif x.op in BINDERS:
            n = go(x.args[0])
            bv = x.args[1]
            # freshen to avoid capture
            nb = fresh_bv()
            rest = [subst(b, {bv: nb}) if isinstance(b, T) else b for b in x.args[2:]]
            rest = [go(b) if isinstance(b, T) else b for b in rest]
            r = rebuild(x.op, [n, nb] + rest)
        else:
            r = rebuild(x.op, [go(b) if isinstance(b, T) else b for b in x.args])
        memo[x.id] = r
        return r
    return go(t)


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    if op in BINDERS:
        return mk_binder(op, *args)
    return mk(op, *args)


def mk_binder(op, n, bv, *rest):
    """Alpha-canonical binder construction."""
    h = 0
    for b in rest:
        if isinstance(b, T) and b.height > h:
            h = b.height
    nb = canon_bv(h)
    if bv is not nb:
        rest = tuple(subst(b, {bv: nb}) if isinstance(b, T) else b for b in rest)
        # heights may change through simplification
        h2 = 0
        for b in rest:
            if isinstance(b, T) and b.height > h2:
                h2 = b.height
        if h2 != h:
            nb2 = canon_bv(h2)
            tmp = fresh_bv()
            rest = tuple(subst(subst(b, {nb: tmp}), {tmp: nb2}) if isinstance(b, T) else b for b in rest)
            nb = nb2
    return mk(op, n, nb, *rest)


def open_binder(t):
    """Return (n, fresh bv, rest...) of a binder term."""
    bv = fresh_bv()
    return (t.args[0], bv) + tuple(subst(b, {t.args[1]: bv}) if isinstance(b, T) else b for b in t.args[2:])


# ---------------------------------------------------------------- polynomials
def as_poly(t):
    if t.op == 'num':
        v = t.args[0]
        return {(): v} if v != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def _lead(q):
    """leading (monomial, coefficient) of a polynomial term under the id order"""
    return max(q.args[0], key=lambda mc: _mono_ord(mc[0]))


def _mono_ord(m):
    return (sum(e for _, e in m if e > 0), tuple(sorted(((a.id, e) for a, e in m), reverse=True)))


def _reduce_inv(d):
    """LT(q) * inv(q) -> 1 - (q - LT(q)) * inv(q), so that sums over a common denominator cancel"""
    for _ in range(40):
        hit = None
        for m, c in d.items():
            if c == 0:
                continue
            for a, e in m:
                if a.op == 'inv' and e >= 1 and a.args[0].op == 'poly':
                    lm, lc = _lead(a.args[0])
                    md = dict(m)
                    if lm and all(md.get(x, 0) >= p > 0 for x, p in lm):
                        hit = (m, c, a, lm, lc)
                        break
            if hit:
                break
        if hit is None:
            return d
        m, c, a, lm, lc = hit
        d = dict(d)
        d[m] = 0
        md = dict(m)
        for x, p in lm:
            md[x] -= p
            if md[x] == 0:
                del md[x]
        q = a.args[0]
        # m = lm * inv(q) * rest ;  lm*inv(q) = (1 - (q - lc*lm) * inv(q)) / lc
        rest = dict(md)
        rest[a] -= 1
        if rest[a] == 0:
            del rest[a]
        rm = tuple(sorted(rest.items(), key=lambda ae: ae[0].id))
        d[rm] = d.get(rm, 0) + c / lc
        base = tuple(sorted(md.items(), key=lambda ae: ae[0].id))
        for m2, c2 in q.args[0]:
            if m2 == lm:
                continue
            mm = _mono_mul(base, m2)
            d[mm] = d.get(mm, 0) - c * c2 / lc
    return d


def from_poly(d):
    if any(a.op == 'inv' and a.args[0].op == 'poly' for m in d for a, e in m):
        d = _reduce_inv(d)
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    # hash-consing of poly: key by ids
    key = ('poly',) + tuple((_mkey(m), c) for m, c in items)
    t = T.table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = 'poly'
    t.args = (tuple(items),)
    T.n += 1
    if DEADLINE[0] is not None and not T.n & 1023 and _time.time() > DEADLINE[0]:
        raise Budget()
    t.id = T.n
    h = 0
    fb = frozenset()
    for m, c in items:
        for at, e in m:
            if at.height > h:
                h = at.height
            if at.fbv:
                fb = fb | at.fbv
    t.height = h
    t.fbv = fb
    t.aux = None
    T.table[key] = t
    return t


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a is UNDEF or b is UNDEF:
        return UNDEF
    d = as_poly(a)
    for m, c in as_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def addn(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def neg(a):
    return from_poly({m: -c for m, c in as_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a is UNDEF or b is UNDEF:
        return UNDEF
    pa, pb = as_poly(a), as_poly(b)
    if len(pa) * len(pb) > 400:
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk('bigmul', x, y)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def inv(a):
    if a.op == 'num':
        if a.args[0] == 0:
            return mk('inv', a)
        return num(1 / a.args[0])
    p = as_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        m2 = tuple((at, -e) for at, e in m)
        return from_poly({m2: 1 / c})
    # make monic w.r.t. first monomial in order
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    c0 = items[0][1]
    monic = from_poly({m: c / c0 for m, c in items})
    return mul(num(1 / c0), mk('inv', monic))


REBUILD['inv'] = lambda a: inv(a)


def div(a, b):
    return mul(a, inv(b))


def powi(a, e):
    """integer power"""
    if e == 0:
        return ONE
    if e < 0:
        return inv(powi(a, -e))
    if e == 1:
        return a
    if a.op == 'inv':
        # (inv(x))^e kept as monomial exponent
        return from_poly({((a, e),): Fraction(1)})
    p = as_poly(a)
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((at, ee * e) for at, ee in m): c ** e})
    if e <= 4 and len(p) <= 8:
        r = ONE
        for _ in range(e):
            r = mul(r, a)
        return r
    return mk('pow', a, num(e))


def power(a, b):
    if b.op == 'num' and b.args[0].denominator == 1:
        e = int(b.args[0])
        if abs(e) <= 12:
            return powi(a, e)
    if a is ONE:
        return ONE
    return mk('pow', a, b)


REBUILD['pow'] = lambda a, b: power(a, b)
REBUILD['bigmul'] = lambda a, b: mul(a, b)


# ---------------------------------------------------------------- kinds
INT_OPS = {'len', 'bv', 'first', 'intof', 'floordiv', 'index_of', 'argmin', 'ncols', 'mod'}


def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op in INT_OPS:
        return True
    if t.op == 'sym':
        return t.args[1] in ('int', 'nat')
    if t.op == 'attr':
        return False
    if t.op == 'poly':
        for m, c in t.args[0]:
            if c.denominator != 1:
                return False
            for at, e in m:
                if e < 0 or not is_int(at):
                    return False
        return True
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == 'sum':
        return is_int(t.args[2])
    return False


def is_nat(t):
    """non-negative integer by construction"""
    if t.op == 'num':
        return t.args[0].denominator == 1 and t.args[0] >= 0
    if t.op in ('len', 'bv', 'first', 'ncols', 'index_of', 'argmin'):
        return True
    if t.op == 'sym':
        return t.args[1] == 'nat'
    if t.op == 'poly':
        for m, c in t.args[0]:
            if c.denominator != 1 or c < 0:
                return False
            for at, e in m:
                if e < 0 or not is_nat(at):
                    return False
        return True
    if t.op == 'sum':
        return is_nat(t.args[2])
    return False


# ---------------------------------------------------------------- booleans
BOOL_OPS = {'pos', 'eq', 'not', 'and', 'or', 'any', 'truth', 'isin', 'isinst', 'hasattr', 'exc', 'callable',
            'isclose', 'same', 'anyin'}


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op in BOOL_OPS:
        return True
    if t.op == 'sym':
        return t.args[1] == 'bool'
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


def pos(p):
    """p > 0"""
    if p.op == 'num':
        return TRUE if p.args[0] > 0 else FALSE
    if is_nat(p) and p.op != 'num':
        # nat + positive constant
        c = as_poly(p).get((), 0)
        if c > 0:
            return TRUE
    if is_int(p):
        # p > 0  <=> not (1-p > 0): choose one orientation
        q = sub(ONE, p)
        if is_nat(neg(p)):
            return FALSE
        if is_nat(neg(add(p, num(-0)))):
            return FALSE
        kp, kq = _orient(p), _orient(q)
        if kp < kq:
            return not_(mk('pos', q))
        return mk('pos', p)
    # scale
    d = as_poly(p)
    for m, c in d.items():
        # infinity against finite values
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'const') and str(m[0][0].args[0]) == 'inf':
            return TRUE if c > 0 else FALSE
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    c0 = abs(items[-1][1])
    if c0 != 1:
        p = from_poly({m: c / c0 for m, c in d.items()})
        d = as_poly(p)
    # total order: p > 0 versus not(-p >= 0): keep pos(p) and nonneg via not
    return mk('pos', p)


def _orient(p):
    d = as_poly(p)
    items = [(m, c) for m, c in d.items() if m != ()]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return items[-1][1] if items else Fraction(0)


REBUILD['pos'] = lambda p: pos(p)


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return not_(pos(sub(a, b)))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', a)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def and_(*xs):
    out = []
    seen = set()
    for x in _flat('and', xs):
        if x is FALSE:
            return FALSE
        if x is TRUE or x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    ids = {x.id for x in out}
    for x in out:
        if not_(x).id in ids:
            return FALSE
    # absorption: a & (a | b) = a ; a & (~a | b) = a & b
    changed = True
    while changed:
        changed = False
        for k, x in enumerate(out):
            if x.op == 'or':
                if any(y.id in ids for y in x.args):
                    out.pop(k)
                    changed = True
                    break
                keep = [y for y in x.args if not_(y).id not in ids]
                if len(keep) != len(x.args):
                    out.pop(k)
                    return and_(*(out + [or_(*keep)]))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', *out)


def or_(*xs):
    out = []
    seen = set()
    for x in _flat('or', xs):
        if x is TRUE:
            return TRUE
        if x is FALSE or x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    ids = {x.id for x in out}
    for x in out:
        if not_(x).id in ids:
            return TRUE
    changed = True
    while changed:
        changed = False
        for k, x in enumerate(out):
            if x.op == 'and':
                if any(y.id in ids for y in x.args):
                    out.pop(k)
                    changed = True
                    break
                keep = [y for y in x.args if not_(y).id not in ids]
                if len(keep) != len(x.args):
                    out.pop(k)
                    return or_(*(out + [and_(*keep)]))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', *out)


REBUILD['not'] = not_
REBUILD['and'] = and_
REBUILD['or'] = or_


def eq(a, b):
    if a is b:
        return TRUE
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == 'ite' and _const_like(b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and _const_like(a):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if _const_like(a) and _const_like(b):
        if a.op == b.op == 'const' and a.args[0] == b.args[0] and type(a.args[0]) == type(b.args[0]):
            return TRUE
        if a.op == 'num' and b.op == 'const' and isinstance(b.args[0], bool):
            return TRUE if a.args[0] == int(b.args[0]) else FALSE
        if b.op == 'num' and a.op == 'const' and isinstance(a.args[0], bool):
            return TRUE if b.args[0] == int(a.args[0]) else FALSE
        if a.op in ('num', 'const') and b.op in ('num', 'const'):
            return FALSE
        if a.op == 'ref' and b.op == 'ref':
            return FALSE if a.args[0] != b.args[0] else mk('eq', *sorted((a, b), key=lambda t: t.id))
        if a is NONE or b is NONE:
            return FALSE
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if never_none(o):
            return FALSE
    if a.op == 'symbol' and b.op == 'num' or b.op == 'symbol' and a.op == 'num':
        # a symbolic variable is no number (equality of expressions is structural)
        return FALSE
    if is_bool(a) and b in (TRUE, FALSE):
        return a if b is TRUE else not_(a)
    if is_bool(b) and a in (TRUE, FALSE):
        return b if a is TRUE else not_(b)
    if numeric(a) and numeric(b):
        d = sub(a, b)
        if d.op == 'num':
            return TRUE if d.args[0] == 0 else FALSE
        if is_int(d):
            if is_nat(d) or is_nat(neg(d)):
                e = d if is_nat(d) else neg(d)
                c = as_poly(e).get((), 0)
                if c > 0:
                    return FALSE
                return not_(pos(e))
        # sign normalise
        items = sorted(as_poly(d).items(), key=lambda mc: _mkey(mc[0]))
        if items[-1][1] < 0:
            d = neg(d)
        c0 = sorted(as_poly(d).items(), key=lambda mc: _mkey(mc[0]))[-1][1]
        if c0 != 1:
            d = from_poly({m: c / c0 for m, c in as_poly(d).items()})
        return mk('eq', d, ZERO)
    if a.op == 'symbol' and b.op == 'symbol':
        return eq(a.args[0], b.args[0])
    if a.op in ('seq', 'tup') and b.op in ('seq', 'tup'):
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if (a.op in STR_OPS or b.op in STR_OPS) and (a.op == 'strcat' or b.op == 'strcat'):
        r = eq_str(a, b)
        if r is not None:
            return r
    if a.op == 'str' and b.op == 'str' and is_int(a.args[0]) and is_int(b.args[0]):
        return eq(a.args[0], b.args[0])
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('eq', x, y)


REBUILD['eq'] = eq

STR_OPS = {'strcat', 'str', 'const'}


def eq_str(a, b):
    xs = list(a.args) if a.op == 'strcat' else [a]
    ys = list(b.args) if b.op == 'strcat' else [b]
    xs = [list(x.args[0]) if x.op == 'const' else [x] for x in xs]
    ys = [list(y.args[0]) if y.op == 'const' else [y] for y in ys]
    if any(isinstance(c, T) is False and not isinstance(c, str) for g in xs + ys for c in g):
        return None
    xs = [c for g in xs for c in g]
    ys = [c for g in ys for c in g]
    changed = False
    for end in (0, -1):
        while xs and ys:
            p, q = xs[end], ys[end]
            if p is q or (isinstance(p, str) and isinstance(q, str) and p == q):
                xs.pop(end)
                ys.pop(end)
                changed = True
                continue
            if isinstance(p, str) and isinstance(q, str):
                return FALSE
            break
    if not xs and not ys:
        return TRUE
    # one string is certainly longer than the other
    for p, q in ((xs, ys), (ys, xs)):
        rest = [c for c in q if isinstance(c, T)]
        fit = True
        for c in p:
            if isinstance(c, T):
                if c not in rest:
                    fit = False
                    break
                rest.remove(c)
        if fit and sum(isinstance(c, str) for c in q) + sum(c.op == 'str' and is_int(c.args[0]) for c in rest) \
                > sum(isinstance(c, str) for c in p):
            return FALSE
    if not changed:
        return None

    def back(z):
        return strcat(*[const(c) if isinstance(c, str) else c for c in z]) if z else const('')
    if not xs or not ys:
        o = xs or ys
        if any(isinstance(c, str) or (c.op == 'str' and is_int(c.args[0])) for c in o):
            return FALSE
    return eq(back(xs), back(ys))


def numeric(t):
    return t.op in ('num', 'poly', 'len', 'bv', 'first', 'sum', 'inv', 'ncols', 'index_of', 'intof') or \
        (t.op == 'sym' and t.args[1] in ('int', 'nat', 'real'))


def _const_like(t):
    return t.op in ('num', 'const', 'ref', 'fn', 'tup', 'seq', 'cls', 'mod')


NEVER_NONE = {'num', 'ref', 'fn', 'tup', 'seq', 'tab', 'cat', 'poly', 'len', 'strcat', 'cls', 'mod', 'lam', 'bv', 'sum'}


def never_none(t):
    if t.op in NEVER_NONE or is_bool(t):
        return True
    if t.op == 'const':
        return t.args[0] is not None
    if t.op == 'sym':
        return t.args[1] != 'any'
    if t.op == 'ite':
        return never_none(t.args[1]) and never_none(t.args[2])
    return False


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c is UNDEF:
        return UNDEF
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE and is_bool(b):
        return or_(c, b)
    if a is FALSE and is_bool(b):
        return and_(not_(c), b)
    if b is TRUE and is_bool(a):
        return or_(not_(c), a)
    if b is FALSE and is_bool(a):
        return and_(c, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == 'ite':
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == 'ite':
        if a.args[1] is b:
            return ite(and_(c, not_(a.args[0])), a.args[2], b)
        if a.args[2] is b:
            return ite(and_(c, a.args[0]), a.args[1], b)
    return mk('ite', c, a, b)


REBUILD['ite'] = ite

_assume_memo = {}


def assume(t, c, val, depth=0):
    """Simplify t under the assumption that condition c has value val (top-level conditions only)."""
    if not _has_cond(t):
        return t
    facts = set()
    _facts(c, val, facts)
    if not facts:
        return t
    key = (t.id, c.id, val)
    r = _assume_memo.get(key)
    if r is None:
        m = {}
        for (x, v) in facts:
            m[x] = TRUE if v else FALSE
        r = subst_cond(t, m)
        _assume_memo[key] = r
    return r


def _facts(c, val, out):
    if c.op == 'not':
        _facts(c.args[0], not val, out)
    elif c.op == 'and' and val:
        for x in c.args:
            _facts(x, True, out)
    elif c.op == 'or' and not val:
        for x in c.args:
            _facts(x, False, out)
    elif c is not TRUE and c is not FALSE:
        out.add((c, val))
        if val and c.op == 'pos':
            # p > 0 excludes p < 0 and p = 0
            q = pos(neg(c.args[0]))
            if q is not TRUE and q is not FALSE:
                out.add((q, False))


def _has_cond(t):
    r = t.aux
    if r is None:
        r = t.op in ('ite', 'and', 'or', 'not') or is_bool(t) and t is not TRUE and t is not FALSE
        if not r:
            for c in children(t):
                if _has_cond(c):
                    r = True
                    break
        t.aux = r
    return r


def subst_cond(t, m, memo=None):
    """substitution that does not go below binders (their bodies may rebind)."""
    if memo is None:
        memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not _has_cond(x):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'poly':
            r = ZERO
            for mm, c in x.args[0]:
                p = num(c)
                for at, e in mm:
                    p = mul(p, powi(go(at), e))
                r = add(r, p)
        elif x.op in BINDERS:
            nb = fresh_bv()
            n = go(x.args[0])
            rest = [subst(b, {x.args[1]: nb}) if isinstance(b, T) else b for b in x.args[2:]]
            rest2 = [subst_cond(b, m) if isinstance(b, T) else b for b in rest]
            if n is x.args[0] and all(p is q for p, q in zip(rest, rest2)):
                r = x
            else:
                r = rebuild(x.op, [n, nb] + rest2)
        elif x.op in ('num', 'const', 'sym', 'bv', 'undef', 'fn'):
            r = x
        else:
            na = [go(b) if isinstance(b, T) else b for b in x.args]
            r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
        memo[x.id] = r
        return r
    return go(t)


# ---------------------------------------------------------------- sequences
LEN_AX = {}       # atom term -> length term (shape axioms)
ROW_LEN = {}      # atom term (a matrix) -> length of every row


ATTR_ROW = {}     # attribute name -> function(object) giving the row length of that matrix attribute


def _rowlen_atom(x):
    r = ROW_LEN.get(x)
    if r is None and x.op == 'cont' and x.args[0].op == 'attr':
        f = ATTR_ROW.get(x.args[0].args[0])
        if f is not None:
            r = f(x.args[0].args[1])
    return r


def _rowlen(x):
    if x.op == 'seq':
        ls = {slen(e) for e in x.args}
        return ls.pop() if len(ls) == 1 else None
    if x.op == 'tab':
        n = slen(x.args[2])
        return n if x.args[1] not in n.fbv else None
    if x.op == 'slice':
        return _rowlen(x.args[0])
    return _rowlen_atom(x)


def seq(*xs):
    return mk('seq', *xs)


EMPTY = seq()


def slen(s):
    o = s.op
    r = LEN_AX.get(s)
    if r is not None:
        return r
    if o == 'seq' or o == 'tup':
        return num(len(s.args))
    if o == 'cat':
        return addn([slen(x) for x in s.args])
    if o == 'tab':
        return s.args[0]
    if o == 'ite':
        return ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    if o == 'insat':
        return add(slen(s.args[0]), ONE)
    if o == 'delat':
        return sub(slen(s.args[0]), ONE)
    if o == 'setat':
        return slen(s.args[0])
    if o == 'const' and isinstance(s.args[0], (str, tuple)):
        return num(len(s.args[0]))
    if o == 'ew':
        # element-wise image of arrays: length of the first array operand
        return slen(s.args[1])
    if o == 'perm':
        return slen(s.args[1])
    if o == 'slice':
        return sub(s.args[2], s.args[1])
    if o == 'insmany':
        return add(slen(s.args[0]), slen(s.args[1]))
    if o == 'delmany':
        return sub(slen(s.args[0]), slen(s.args[1]))
    if o == 'at':
        r = _rowlen_atom(s.args[0])
        if r is not None:
            return r
        if s.args[0].op == 'slice':
            return slen(at(s.args[0].args[0], s.args[1]))
        if s.args[0].op == 'cat':
            ls = {_rowlen(x) for x in s.args[0].args}
            if len(ls) == 1 and None not in ls:
                return ls.pop()
        if s.args[0].op == 'seq':
            ls = {slen(x) for x in s.args[0].args}
            if len(ls) == 1:
                return ls.pop()
    if o == 'cont' and s.args[0].op == 'attr':
        fam = ATTR_LEN.get(s.args[0].args[0])
        if fam is not None:
            return fam(s.args[0].args[1])
    return mk('len', s)


ATTR_LEN = {}
REBUILD['len'] = slen
REBUILD['seq'] = seq


def tup(*xs):
    return mk('tup', *xs)


REBUILD['tup'] = tup


UNROLL = 40  # constant lengths up to this are written out


def tab(n, bv, body):
    if n.op == 'num':
        k = int(n.args[0])
        if k <= 0:
            return EMPTY
        if k <= UNROLL:
            return seq(*[subst(body, {bv: num(j)}) for j in range(k)])
    # eta: tab(len(s), at(s,i)) = s
    if body.op == 'at' and body.args[1] is bv and not contains(body.args[0], bv):
        if slen(body.args[0]) is n:
            return body.args[0]
    body0, body = body, refine(n, bv, body)
    if body is not body0 and body.op == 'at' and body.args[1] is bv and not contains(body.args[0], bv):
        if slen(body.args[0]) is n:
            return body.args[0]
    sp = split_point(n, bv, body)
    if sp is not None:
        return cat(tab(sp, bv, body), tab(sub(n, sp), bv, subst(body, {bv: add(sp, bv)})))
    return mk_binder('tab', n, bv, body)


def refine(n, bv, body):
    """use bv < n: resolve stuck accesses cat(.., seg, ..)[prefix + bv] with len(seg) = n"""
    seen = set()
    stack = [body]
    m = {}
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'at' and x.args[0].op == 'cat' and bv in x.args[1].fbv:
            off = x.args[1]
            for g in x.args[0].args:
                if off is bv and slen(g) is n:
                    m[x] = at(g, bv)
                    break
                off = sub(off, slen(g))
        stack.extend(children(x))
    body = subst(body, m) if m else body
    if n.op != 'num':
        pn = pos(n)
        if pn.op == 'pos' and pn.id in seen:
            body = subst_cond(body, {pn: TRUE})
    return body


def split_point(n, bv, body):
    """length of the first segment when body indexes a concatenation of total length n with bv"""
    if bv not in body.fbv or n.op != 'poly':
        return None
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop()
        if x.id in seen or bv not in x.fbv:
            continue
        seen.add(x.id)
        if x.op == 'at' and x.args[1] is bv and x.args[0].op == 'cat' and bv not in x.args[0].fbv:
            if slen(x.args[0]) is n and not x.args[0].fbv:
                return slen(x.args[0].args[0])
        stack.extend(children(x))
    return None


REBUILD['tab'] = tab


def cat(*xs):
    out = []
    for x in xs:
        if x.op == 'cat':
            out.extend(x.args)
        elif x.op == 'tup':
            out.append(seq(*x.args))
        else:
            out.append(x)
    res = []
    for x in out:
        if x is EMPTY:
            continue
        if x.op == 'seq' and res and res[-1].op == 'seq':
            res[-1] = seq(*(res[-1].args + x.args))
        elif x.op == 'slice' and res and res[-1].op == 'slice' and x.args[0] is res[-1].args[0] \
                and x.args[1] is res[-1].args[2] and _nonneg(res[-1].args[1]):
            res[-1] = slice_(x.args[0], res[-1].args[1], x.args[2])
        elif x.op == 'seq' and res and res[-1].op == 'slice' and x.args[0].op == 'at' \
                and x.args[0].args[0] is res[-1].args[0] and x.args[0].args[1] is res[-1].args[2]:
            z = res[-1]
            res[-1] = slice_(z.args[0], z.args[1], add(z.args[2], ONE))
            if len(x.args) > 1:
                res.append(seq(*x.args[1:]))
        else:
            res.append(x)
    if not res:
        return EMPTY
    if len(res) == 1:
        return res[0]
    return mk('cat', *res)


REBUILD['cat'] = cat


def neg_index(i):
    return i.op == 'num' and i.args[0] < 0


def at(s, i):
    """element i of sequence s (python index semantics for negative constants)."""
    if s is UNDEF or i is UNDEF:
        return UNDEF
    if i.op == 'ite':
        return ite(i.args[0], at(s, i.args[1]), at(s, i.args[2]))
    o = s.op
    if o == 'insmany' and i.op == 'at' and i.args[0] is s.args[1]:
        return at(s.args[2], i.args[1])
    if o == 'ite':
        return ite(s.args[0], at(s.args[1], i), at(s.args[2], i))
    if neg_index(i):
        if o in ('seq', 'tup'):
            k = int(i.args[0])
            if -k <= len(s.args):
                return s.args[k]
            return UNDEF
        # from the end: cat with literal tail
        if o == 'cat':
            tail = s.args[-1]
            k = -int(i.args[0])
            if tail.op == 'seq':
                if k <= len(tail.args):
                    return tail.args[-k]
                return at(cat(*s.args[:-1]), num(len(tail.args) - k))
        n = slen(s)
        return at(s, add(n, i))
    if o in ('seq', 'tup'):
        if i.op == 'num':
            k = int(i.args[0])
            if k < len(s.args):
                return s.args[k]
            return UNDEF
        if s.args and all(x is s.args[0] for x in s.args):
            return s.args[0]
        return mk('at', s, i)
    if o == 'tab':
        return subst(s.args[2], {s.args[1]: i})
    if o == 'cat':
        # locate the segment when index - prefix length is decidable
        off = i
        for jx, x in enumerate(s.args):
            if jx == len(s.args) - 1 and _nonneg(off):
                # past all other segments (out of range is an error either way)
                return at(x, off)
            n = slen(x)
            d = sub(n, off)   # > 0 -> inside this segment
            if d.op == 'num':
                if d.args[0] > 0:
                    if _nonneg(off):
                        return at(x, off)
                    break
            elif _pos_certain(d) and _nonneg(off):
                return at(x, off)
            nd = sub(off, n)
            if _nonneg(nd):
                off = nd
                continue
            break
        return mk('at', s, i)
    if o == 'insat':
        r, j, v = s.args
        d = sub(i, j)
        if d is ZERO:
            return v
        if d.op == 'num' or is_int(d):
            if _pos_certain(d):
                return at(r, sub(i, ONE))
            if _pos_certain(neg(d)) and _nonneg(i):
                return at(r, i)
        return mk('at', s, i)
    if o == 'delat':
        r, j = s.args
        d = sub(i, j)
        if is_int(d):
            if _nonneg(d):
                return at(r, add(i, ONE))
            if _pos_certain(neg(d)) and _nonneg(i):
                return at(r, i)
        return mk('at', s, i)
    if o == 'setat':
        r, j, v = s.args
        e = eq(i, j)
        if e is TRUE:
            return v
        if e is FALSE:
            return at(r, i)
        return mk('at', s, i)
    if o == 'const' and isinstance(s.args[0], str) and i.op == 'num':
        k = int(i.args[0])
        if k < len(s.args[0]):
            return const(s.args[0][k])
    if o == 'ew':
        # element-wise expression: ew(expr, arr1, arr2, ...) over markers
        f = s.args[0]
        m = {}
        for k, arr in enumerate(s.args[1:]):
            m[mk('mark', k)] = at(arr, i)
        return subst(f, m)
    if o == 'slice':
        r, lo, hi = s.args
        return at(r, add(lo, i))
    return mk('at', s, i)


REBUILD['at'] = at


def _nonneg(t):
    if t.op == 'num':
        return t.args[0] >= 0
    return is_nat(t)


def _pos_certain(t):
    """certainly > 0 (used for integer index reasoning); bound indices compared with their range are not known."""
    if t.op == 'num':
        return t.args[0] > 0
    if is_nat(t):
        return as_poly(t).get((), 0) > 0
    if t.op == 'poly' and BV_BOUND:
        # a loop index below its bound
        for m, c in t.args[0]:
            if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bv' and m[0][0] in BV_BOUND:
                b = m[0][0]
                return _pos_certain(add(t, mul(num(c), sub(sub(BV_BOUND[b], ONE), b))))
    return False


def insat(s, j, v):
    if s.op == 'delat' and s.args[1] is j and v is at(s.args[0], j):
        return s.args[0]
    if s.op in ('seq',) and j.op == 'num':
        k = int(j.args[0])
        l = list(s.args)
        l.insert(k, v)
        return seq(*l)
    if j is slen(s):
        return cat(s, seq(v))
    return mk('insat', s, j, v)


def delat(s, j):
    if j.op == 'num' and j.args[0] < 0:
        k = int(j.args[0])
        if s.op == 'cat' and s.args[-1].op == 'seq' and len(s.args[-1].args) >= -k:
            l = list(s.args[-1].args)
            del l[k]
            return cat(*(s.args[:-1] + (seq(*l),)))
        return delat(s, add(slen(s), j))
    if s.op == 'insat' and s.args[1] is j:
        return s.args[0]
    if s.op == 'seq' and j.op == 'num':
        l = list(s.args)
        if int(j.args[0]) < len(l):
            del l[int(j.args[0])]
            return seq(*l)
    if s.op == 'cat':
        off = j
        for k, x in enumerate(s.args):
            n = slen(x)
            d = sub(n, off)
            if (d.op == 'num' and d.args[0] > 0 or _pos_certain(d)) and _nonneg(off):
                return cat(*(s.args[:k] + (delat(x, off),) + s.args[k + 1:]))
            nd = sub(off, n)
            if _nonneg(nd):
                off = nd
                continue
            break
    if s.op == 'ite':
        return ite(s.args[0], delat(s.args[1], j), delat(s.args[2], j))
    if sub(slen(s), j) is ONE:
        return slice_(s, ZERO, j)
    return mk('delat', s, j)


def setat(s, i, v):
    if v is at(s, i):
        return s
    if neg_index(i):
        return setat(s, add(slen(s), i), v)
    if s.op == 'seq' and i.op == 'num':
        l = list(s.args)
        if 0 <= int(i.args[0]) < len(l):
            l[int(i.args[0])] = v
            return seq(*l)
    if s.op == 'setat' and s.args[1] is i:
        return setat(s.args[0], i, v)
    if s.op == 'ite':
        return ite(s.args[0], setat(s.args[1], i, v), setat(s.args[2], i, v))
    if s.op == 'cat':
        off = i
        for k, x in enumerate(s.args):
            n = slen(x)
            d = sub(n, off)
            if (d.op == 'num' and d.args[0] > 0 or _pos_certain(d)) and _nonneg(off):
                return cat(*(s.args[:k] + (setat(x, off, v),) + s.args[k + 1:]))
            nd = sub(off, n)
            if _nonneg(nd):
                off = nd
                continue
            break
    return mk('setat', s, i, v)


REBUILD['insat'] = insat
REBUILD['delat'] = delat
REBUILD['setat'] = setat


def slice_(s, lo, hi):
    """s[lo:hi] with hi possibly NONE; non-negative or negative-constant bounds."""
    if lo is NONE:
        lo = ZERO
    if s.op == 'ite':
        return ite(s.args[0], slice_(s.args[1], lo, hi), slice_(s.args[2], lo, hi))
    n = slen(s)
    if neg_index(lo):
        lo = add(n, lo)
    elif neg_nat(lo):
        lo = add(n, lo)
    if hi is NONE:
        hi = n
    elif neg_index(hi) or neg_nat(hi):
        hi = add(n, hi)
    if lo is ZERO and hi is n:
        return s
    if sub(hi, lo) is ZERO:
        return EMPTY
    if s.op == 'const' and isinstance(s.args[0], str) and lo.op == 'num' and hi.op == 'num':
        return const(s.args[0][int(lo.args[0]):int(hi.args[0])])
    if s.op in ('seq', 'tup') and lo.op == 'num' and hi.op == 'num':
        l = s.args[int(lo.args[0]):int(hi.args[0])]
        return seq(*l) if s.op == 'seq' else tup(*l)
    if s.op == 'cat':
        # split at segment boundaries when decidable
        out = []
        a, b = lo, hi
        ok = True
        started = False
        off_lo, off_hi = lo, hi
        for k, x in enumerate(s.args):
            m = slen(x)
            # lower bound relative to this segment
            if not started:
                d = sub(off_lo, m)
                if _nonneg(d):
                    off_lo, off_hi = d, sub(off_hi, m)
                    continue
                if not (_nonneg(neg(d)) and _nonneg(off_lo)):
                    ok = False
                    break
                started = True
                a = off_lo
            else:
                a = ZERO
            d = sub(off_hi, m)
            if _nonneg(d):
                out.append(slice_(x, a, NONE) if a is not ZERO else x)
                off_hi = d
                if d is ZERO:
                    break
                continue
            if _nonneg(neg(d)) and _nonneg(off_hi):
                out.append(slice_(x, a, off_hi))
                off_hi = ZERO
                break
            ok = False
            break
        if ok and (off_hi is ZERO or started):
            return cat(*out) if out else EMPTY
    if s.op == 'slice':
        r, l0, h0 = s.args
        return slice_(r, add(l0, lo), add(l0, hi))
    if s.op == 'tab' and _nonneg(lo):
        n0, bv, body = open_binder(s)
        return tab(sub(hi, lo), bv, subst(body, {bv: add(bv, lo)}))
    return mk('slice', s, lo, hi)


def neg_nat(t):
    """-k*nat form: certainly <= 0 and non-constant-zero (index from the end)"""
    if t.op == 'num':
        return t.args[0] < 0
    return is_nat(neg(t))


REBUILD['slice'] = lambda s, lo, hi: slice_(s, lo, hi)


def sum_(n, bv, body):
    if n is ZERO or body is ZERO:
        return ZERO
    if n.op == 'num' and 0 <= n.args[0] <= UNROLL:
        return addn([subst(body, {bv: num(j)}) for j in range(int(n.args[0]))])
    body = refine(n, bv, body)
    sp = split_point(n, bv, body)
    if sp is not None:
        return add(sum_(sp, bv, body), sum_(sub(n, sp), bv, subst(body, {bv: add(sp, bv)})))
    # linearity: split the sum over monomials and pull out factors free of the index
    d = as_poly(body)
    out = ZERO
    for m, c in d.items():
        inside, outside = [], []
        for a, e in m:
            (inside if contains(a, bv) else outside).append((a, e))
        if not inside:
            t = mul(n, from_poly({tuple(outside): c}))
        else:
            b = from_poly({tuple(inside): Fraction(1)})
            t = mul(from_poly({tuple(outside): c}), mk_binder('sum', n, bv, b))
        out = add(out, t)
    return out


REBUILD['sum'] = sum_


def prod_(n, bv, body):
    if n is ZERO or body is ONE:
        return ONE
    return mk_binder('prod', n, bv, body)


REBUILD['prod'] = prod_


def any_(n, bv, c):
    """exists index < n with c"""
    if c is FALSE or n is ZERO:
        return FALSE
    if not contains(c, bv):
        return and_(c, pos(n))
    if n.op == 'num' and 0 <= n.args[0] <= UNROLL:
        return or_(*[subst(c, {bv: num(j)}) for j in range(int(n.args[0]))])
    c2 = refine(n, bv, c)
    if c2 is not c:
        return any_(n, bv, c2)
    sp = split_point(n, bv, c)
    if sp is not None:
        return or_(any_(sp, bv, c), any_(sub(n, sp), bv, subst(c, {bv: add(sp, bv)})))
    return mk_binder('any', n, bv, c)


REBUILD['any'] = any_


def first_(n, bv, c):
    """index of the first element satisfying c (meaningful when any_ holds)"""
    if not contains(c, bv):
        return ZERO
    return mk_binder('first', n, bv, c)


REBUILD['first'] = first_


def strcat(*xs):
    out = []
    for x in xs:
        if x.op == 'strcat':
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if x.op == 'const' and isinstance(x.args[0], str):
            if x.args[0] == '':
                continue
            if res and res[-1].op == 'const' and isinstance(res[-1].args[0], str):
                res[-1] = const(res[-1].args[0] + x.args[0])
                continue
        res.append(x)
    if not res:
        return const('')
    if len(res) == 1 and res[0].op == 'const':
        return res[0]
    if len(res) == 1 and res[0].op in ('str',):
        return res[0]
    return mk('strcat', *res)


REBUILD['strcat'] = strcat


def str_(x):
    if x.op == 'const' and isinstance(x.args[0], str):
        return x
    if x.op == 'num' and x.args[0].denominator == 1:
        return const(str(int(x.args[0])))
    if x.op in ('strcat', 'str'):
        return x
    if x.op == 'attr' and x.args[0] in ('name',):
        return x
    if x.op == 'symbol':
        return x.args[0]
    return mk('str', x)


REBUILD['str'] = str_


def insmany(row, I, vals):
    """row with vals[k] inserted so that it ends up at index I[k] (I ascending targets)"""
    if slen(I) is ZERO:
        return row
    if row.op == 'ite':
        return ite(row.args[0], insmany(row.args[1], I, vals), insmany(row.args[2], I, vals))
    return mk('insmany', row, I, vals)


def delmany(row, I):
    if slen(I) is ZERO:
        return row
    if row.op == 'insmany' and row.args[1] is I:
        return row.args[0]
    if I.op == 'seq' and len(I.args) == 1:
        return delat(row, I.args[0])
    if row.op in ('seq', 'tup') and I.op in ('seq', 'tup') and all(
            x.op == 'num' and x.args[0].denominator == 1 for x in I.args):
        n = len(row.args)
        js = [int(x.args[0]) for x in I.args]
        if all(-n <= j < n for j in js):
            js = {j % n for j in js}
            return seq(*[x for j, x in enumerate(row.args) if j not in js])
    if I.op == 'tab':
        # consecutive positions: one block
        n, k, b = open_binder(I)
        off = sub(b, k) if b is not k else ZERO
        if not contains(off, k):
            L = slen(row)
            end = add(off, n)
            if row.op == 'cat' or end is L:
                return cat(slice_(row, ZERO, off), slice_(row, end, L))
    if row.op == 'ite':
        return ite(row.args[0], delmany(row.args[1], I), delmany(row.args[2], I))
    return mk('delmany', row, I)


REBUILD['insmany'] = insmany
REBUILD['delmany'] = delmany


def _ev(e, binds):
    if binds.op == 'tup' and all(b.op == 'tup' and len(b.args) == 2 for b in binds.args):
        binds = mk('tup', *sorted(binds.args, key=lambda t: (t.args[0].id, t.args[1].id)))
    return mk('ev', e, binds)


REBUILD['ev'] = _ev
