"""Random interpretation of value-graph terms.

Used only as an alarm filter: when a code term and a specification term have different
normal forms, both are interpreted in seeded random first-order structures.  An alarm is
raised only when some structure tells them apart; that structure is the witness.

Atoms are universal: an atom has a numeric view, a truth view, a length, elements and
attributes, all derived from a hash of its identity.  Symbolic expressions are kept as
expression nodes so that formal derivatives and substitutions follow the exact rules.
"""
import hashlib
import math
from fractions import Fraction
from . import terms as tm
from .terms import T, slen, subterms

MAXLEN = 4000


class Inconclusive(Exception):
    pass


class Fault(Inconclusive):
    """the program certainly fails here"""


# engine values that stand for a certain failure of the program (as opposed to something the engine cannot follow)
FAULTS = {'unbound name', 'noattr', 'arity', 'arity of compiled expression', 'compare none',
          'shape mismatch', 'index out of range'}


class OutOfFuel(Inconclusive):
    pass


def h64(seed, *xs):
    m = hashlib.blake2b(repr((seed,) + xs).encode(), digest_size=8)
    return int.from_bytes(m.digest(), 'big')


class E:
    """numeric expression node"""
    __slots__ = ('k', 'a', 'n', 'key_')

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self.n = None
        self.key_ = None


class U:
    """universal atom"""
    __slots__ = ('key', 'm', 'lenf', 'rowf', 'symbol', 'cls', '_len')

    def __init__(self, m, key, lenf=None, rowf=None, symbol=False):
        self.m = m
        self.key = key
        self.lenf = lenf
        self.rowf = rowf
        self.symbol = symbol
        self._len = None

    def length(self):
        if self._len is None:
            if self.lenf is not None:
                self._len = self.lenf()
            else:
                self._len = h64(self.m.seed, 'len', self.key) % 4
        return self._len

    def at(self, i):
        n = self.rowf
        if i < 0:
            i += self.length()
        return self.m.atom(('at', self.key, int(i)), lenf=n)


FUNS = {'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'tan': math.tan, 'tanh': math.tanh,
        'sinh': math.sinh, 'cosh': math.cosh, 'atan': math.atan, 'arctan': math.atan}


class Model:
    def __init__(self, seed, maxlen=3, minlen=0):
        self.seed = seed
        self.memo = {}
        self.fuel = 400000
        self.hasacc = {}
        self.fixed = {}          # term -> python value
        self.scaled = False
        self.force = {}          # field name -> number that the field of some objects has
        self.used = {}
        self.maxlen = maxlen
        self.minlen = minlen

    # ------------------------------------------------------------ views
    def atom(self, key, lenf=None, rowf=None, symbol=False):
        return U(self, key, lenf, rowf, symbol)

    def num(self, v):
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, (int, float, Fraction)):
            return float(v)
        if isinstance(v, U):
            h = h64(self.seed, 'num', v.key)
            x = 0.25 + (h % 100003) / 100003.0 * 1.75
            r = -x if (h >> 40) % 3 == 0 else x
            if self.scaled:
                r *= (1, 1, 0.003, 3e-5, 30)[(h >> 44) % 5]
            self.used[v.key] = r
            return r
        if isinstance(v, E):
            if v.n is None:
                v.n = self._enum(v)
            return v.n
        if isinstance(v, list) and len(v) == 1:
            return self.num(v[0])
        if v is None or isinstance(v, str):
            return float(h64(self.seed, 'num', v) % 1000) + 0.5
        if isinstance(v, (list, tuple)):
            raise Inconclusive('number view of a sequence')
        raise Inconclusive('number view')

    def _enum(self, e):
        try:
            if e.k == '+':
                return sum(float(c) * self.num(x) for c, x in e.a)
            if e.k == '*':
                r = 1.0
                for x, p in e.a:
                    b = self.num(x)
                    r *= b ** p
                return r
            if e.k == '^':
                b, p = self.num(e.a[0]), self.num(e.a[1])
                if b < 0 and p != int(p):
                    b = -b
                return b ** p
            if e.k == 'f':
                x = self.num(e.a[1])
                return self.fun(e.a[0], x)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Inconclusive('arithmetic')
        raise Inconclusive(e.k)

    def fun(self, name, x):
        if name in FUNS:
            return FUNS[name](x)
        if name in ('asin', 'arcsin'):
            return math.asin(math.tanh(x)) if abs(x) > 1 else math.asin(x)
        if name == 'sqrt':
            return math.sqrt(abs(x))
        if name in ('abs', 'fabs', 'absolute'):
            return abs(x)
        if name == 'log':
            return math.log(abs(x))
        raise Inconclusive(name)

    def key(self, v):
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, (int, float, Fraction)):
            return float('%.6e' % float(v)) + 0.0
        if isinstance(v, U):
            return v.key
        if isinstance(v, E):
            return float('%.6e' % self.num(v)) + 0.0
        if isinstance(v, (list, tuple)):
            return ('L',) + tuple(self.key(x) for x in v)
        if isinstance(v, dict):
            return ('D',) + tuple(sorted(((repr(k), self.key(x)) for k, x in v.items())))
        if isinstance(v, frozenset):
            return ('S',) + tuple(sorted(map(repr, v)))
        return v

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, U):
            return h64(self.seed, 'truth', v.key) % 2 == 0
        if isinstance(v, (list, str, tuple, frozenset, dict)):
            return len(v) > 0
        if isinstance(v, E):
            return abs(self.num(v)) > 1e-12
        raise Inconclusive('truth')

    def int_(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            if v != int(v):
                raise Inconclusive('non-integer index')
            return int(v)
        if isinstance(v, float) and v == int(v):
            return int(v)
        if isinstance(v, U):
            return h64(self.seed, 'int', v.key) % 3
        if isinstance(v, E):
            # integer view of an arithmetic expression over integer views
            return self.int_expr(v)
        raise Inconclusive('integer view')

    def int_expr(self, v):
        if isinstance(v, E):
            if v.k == '+':
                r = sum(Fraction(c) * self.int_expr(x) for c, x in v.a)
                if r != int(r):
                    raise Inconclusive('non-integer')
                return int(r)
            if v.k == '*':
                r = 1
                for x, p in v.a:
                    if p < 0:
                        raise Inconclusive('non-integer')
                    r *= self.int_expr(x) ** p
                return r
            raise Inconclusive('integer view')
        return self.int_(v)

    def seqv(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, U):
            n = v.length()
            if n > MAXLEN:
                raise Inconclusive('long')
            return [v.at(i) for i in range(n)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, dict):
            raise Inconclusive('iter dict')
        raise Inconclusive('sequence view')

    def strv(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, (Fraction, float, E)):
            n = self.num(v)
            return str(int(n)) if n == int(n) else '<%g>' % n
        return '<%s>' % (self.key(v),)

    # ------------------------------------------------------------ arithmetic
    def isnum(self, v):
        return isinstance(v, (bool, int, float, Fraction))

    def add(self, items):
        """items: list of (coef, value)"""
        c0 = Fraction(0)
        rest = []
        isf = False
        f0 = 0.0
        for c, v in items:
            if isinstance(v, float):
                f0 += float(c) * v
                isf = True
            elif isinstance(v, (bool, int, Fraction)):
                c0 += Fraction(c) * Fraction(v)
            elif isinstance(v, list):
                raise Inconclusive('arithmetic on sequences')
            else:
                rest.append((c, v))
        if not rest:
            if isf:
                return float(c0) + f0
            return int(c0) if c0.denominator == 1 else c0
        if c0 != 0:
            rest.append((c0, 1))
        if isf:
            rest.append((1, f0))
        if len(rest) == 1 and rest[0][0] == 1:
            return rest[0][1]
        return E('+', rest)

    def mul(self, items):
        """items: list of (value, integer power)"""
        c0 = Fraction(1)
        f0 = 1.0
        isf = False
        rest = []
        for v, p in items:
            if isinstance(v, (bool, int, Fraction)):
                if v == 0 and p < 0:
                    raise Inconclusive('division by zero')
                c0 *= Fraction(v) ** p
            elif isinstance(v, float):
                if v == 0 and p < 0:
                    raise Inconclusive('division by zero')
                f0 *= v ** p
                isf = True
            elif isinstance(v, list):
                raise Inconclusive('arithmetic on sequences')
            else:
                rest.append((v, p))
        if c0 == 0:
            return 0
        if not rest:
            if isf:
                return float(c0) * f0
            return int(c0) if c0.denominator == 1 else c0
        if c0 != 1:
            rest.append((c0, 1))
        if isf:
            rest.append((f0, 1))
        if len(rest) == 1 and rest[0][1] == 1:
            return rest[0][0]
        return E('*', rest)

    def diff(self, v, s):
        if self.isnum(v):
            return 0
        if isinstance(v, list):
            return [self.diff(x, s) for x in v]
        if isinstance(v, U):
            if isinstance(s, U) and v.key == s.key:
                return 1
            if v.symbol:
                return 0
            k = v.key
            if isinstance(k, tuple) and k and k[0] == 'd':
                return self.atom(('d', k[1], tuple(sorted(k[2] + (repr(self.key(s)),)))))
            return self.atom(('d', k, (repr(self.key(s)),)))
        if isinstance(v, E):
            if v.k == '+':
                return self.add([(c, self.diff(x, s)) for c, x in v.a])
            if v.k == '*':
                out = []
                for i, (x, p) in enumerate(v.a):
                    d = self.diff(x, s)
                    if self.isnum(d) and d == 0:
                        continue
                    out.append((1, self.mul([(y, q) for j, (y, q) in enumerate(v.a) if j != i]
                                            + [(x, p - 1), (p, 1), (d, 1)])))
                return self.add(out) if out else 0
            if v.k == '^':
                b, p = v.a
                db = self.diff(b, s)
                # only used with exponents free of s
                return self.mul([(p, 1), (self.pow(b, self.add([(1, p), (-1, 1)])), 1), (db, 1)])
            if v.k == 'f':
                x = v.a[1]
                d = self.diff(x, s)
                f = v.a[0]
                if f == 'sin':
                    return self.mul([(E('f', ('cos', x)), 1), (d, 1)])
                if f == 'cos':
                    return self.mul([(-1, 1), (E('f', ('sin', x)), 1), (d, 1)])
                if f == 'exp':
                    return self.mul([(v, 1), (d, 1)])
                if f == 'log':
                    return self.mul([(x, -1), (d, 1)])
                return self.mul([(self.atom(('df', f, self.key(x))), 1), (d, 1)])
        if v is None or isinstance(v, str):
            return self.atom(('d', v, (repr(self.key(s)),)))
        raise Inconclusive('diff')

    def pow(self, b, p):
        if isinstance(p, (int, Fraction)) and p == int(p):
            return self.mul([(b, int(p))])
        if self.isnum(b) and self.isnum(p):
            bb = float(b)
            if bb < 0:
                bb = -bb
            if bb == 0:
                raise Inconclusive('0**p')
            return bb ** float(p)
        return E('^', (b, p))

    def mapleaf(self, v, f):
        if self.isnum(v) or v is None or isinstance(v, str):
            return v
        if isinstance(v, list):
            return [self.mapleaf(x, f) for x in v]
        if isinstance(v, U):
            return f(v)
        if isinstance(v, E):
            if v.k == '+':
                return self.add([(c, self.mapleaf(x, f)) for c, x in v.a])
            if v.k == '*':
                return self.mul([(self.mapleaf(x, f), p) for x, p in v.a])
            if v.k == '^':
                return self.pow(self.mapleaf(v.a[0], f), self.mapleaf(v.a[1], f))
            if v.k == 'f':
                return self.app(v.a[0], self.mapleaf(v.a[1], f))
        raise Inconclusive('expression')

    def app(self, name, x):
        if self.isnum(x):
            try:
                return self.fun(name, float(x))
            except (OverflowError, ValueError):
                raise Inconclusive('arithmetic')
        if isinstance(x, list):
            return [self.app(name, y) for y in x]
        return E('f', (name, x))

    # ------------------------------------------------------------ evaluation
    def has_acc(self, t):
        r = self.hasacc.get(t.id)
        if r is None:
            r = any(x.op == 'acc' for x in subterms(t))
            self.hasacc[t.id] = r
        return r

    def ev(self, t, env=None):
        env = env or {}
        if t in self.fixed:
            return self.fixed[t]
        if t.op in ('num', 'const', 'bv', 'acc'):
            return self._ev(t, env)
        if self.has_acc(t):
            return self._ev(t, env)
        try:
            k = (t.id,) + tuple(self.key(env[b]) for b in sorted(t.fbv, key=lambda b: b.id))
        except KeyError:
            raise Inconclusive('unbound index')
        if k in self.memo:
            r = self.memo[k]
            if isinstance(r, Inconclusive):
                raise r
            return r
        try:
            r = self._ev(t, env)
        except Inconclusive as x:
            self.memo[k] = x
            raise
        self.memo[k] = r
        return r

    def lenfn(self, t, env):
        n = slen(t)
        if n.op == 'len' and n.args[0] is t:
            return None
        return lambda: self.clamp(self.int_(self.ev(n, env)))

    def clamp(self, n):
        if n < 0:
            return 0
        if n > MAXLEN:
            raise Inconclusive('long')
        return n

    def rowfn(self, t, env):
        r = tm._rowlen_atom(t)
        if r is None:
            return None
        return lambda: self.clamp(self.int_(self.ev(r, env)))

    def _ev(self, t, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise OutOfFuel('fuel')
        f = getattr(self, 'o_' + t.op, None)
        if f is not None:
            return f(t, env)
        if t.op == 'opaque':
            if t.args[0] in FAULTS:
                raise Fault('%s' % (t.args[0],))
            raise Inconclusive('opaque: %s' % (t.args[0],))
        # uninterpreted
        k = (t.op,) + tuple(self.key(self.ev(a, env)) if isinstance(a, T) else repr(a) for a in t.args)
        return self.atom(k, self.lenfn(t, env), self.rowfn(t, env))

    def o_num(self, t, env):
        v = t.args[0]
        return int(v) if v.denominator == 1 else v

    def o_const(self, t, env):
        v = t.args[0]
        if isinstance(v, tuple):
            return list(v)
        return v

    def o_bv(self, t, env):
        if t not in env:
            raise Inconclusive('unbound index')
        return env[t]

    def o_acc(self, t, env):
        if t not in env:
            raise Inconclusive('unbound accumulator')
        return env[t]

    def o_sym(self, t, env):
        n, k = t.args
        if n == 'pi':
            return math.pi
        if n == 'inf':
            return 1e12
        if n == '-inf':
            return -1e12
        if k == 'nat':
            r = self.minlen + h64(self.seed, 'nat', n) % (self.maxlen + 1 - self.minlen)
            self.used[n] = r
            return r
        if k == 'int':
            r = h64(self.seed, 'int', n) % 7 - 3
            self.used[n] = r
            return r
        if k == 'bool':
            r = h64(self.seed, 'bool', n) % 2 == 0
            self.used[n] = r
            return r
        if k == 'pos':
            return abs(self.num(self.atom(('sym', n))))
        return self.atom(('sym', n), self.lenfn(t, env), self.rowfn(t, env))

    def o_symbol(self, t, env):
        return self.atom(('symbol', self.strv(self.ev(t.args[0], env))), symbol=True)

    def o_poly(self, t, env):
        items = []
        allint = tm.is_int(t)
        for m, c in t.args[0]:
            fs = []
            for a, e in m:
                v = self.ev(a, env)
                if isinstance(v, U) and allint:
                    v = self.int_(v)
                fs.append((v, e))
            items.append((c, self.mul(fs) if fs else 1))
        return self.add(items)

    def o_inv(self, t, env):
        return self.mul([(self.ev(t.args[0], env), -1)])

    def o_bigmul(self, t, env):
        return self.mul([(self.ev(t.args[0], env), 1), (self.ev(t.args[1], env), 1)])

    def o_pow(self, t, env):
        return self.pow(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_pos(self, t, env):
        v = self.ev(t.args[0], env)
        n = self.num(v)
        if abs(n) < 1e-9 and not self.isnum(v):
            raise Inconclusive('comparison tie')
        return n > 0

    def o_eq(self, t, env):
        return self.same(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_not(self, t, env):
        return not self.truth(self.ev(t.args[0], env))

    def o_and(self, t, env):
        inc = None
        for a in t.args:
            try:
                if not self.truth(self.ev(a, env)):
                    return False
            except Inconclusive as x:
                inc = x
        if inc:
            raise inc
        return True

    def o_or(self, t, env):
        inc = None
        for a in t.args:
            try:
                if self.truth(self.ev(a, env)):
                    return True
            except Inconclusive as x:
                inc = x
        if inc:
            raise inc
        return False

    def o_truth(self, t, env):
        return self.truth(self.ev(t.args[0], env))

    def o_ite(self, t, env):
        return self.ev(t.args[1] if self.truth(self.ev(t.args[0], env)) else t.args[2], env)

    def o_undef(self, t, env):
        raise Inconclusive('undefined value')

    def o_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (list, str, tuple, dict)):
            return len(v)
        if isinstance(v, U):
            return v.length()
        raise Inconclusive('len')

    def o_seq(self, t, env):
        return [self.ev(a, env) for a in t.args]
    o_tup = o_seq

    def o_cat(self, t, env):
        out = []
        for a in t.args:
            out.extend(self.seqv(self.ev(a, env)))
        return out

    def rng(self, t, env):
        n = self.int_(self.ev(t.args[0], env))
        if n > MAXLEN:
            raise Inconclusive('long')
        return range(max(n, 0))

    def o_tab(self, t, env):
        return [self.ev(t.args[2], {**env, t.args[1]: j}) for j in self.rng(t, env)]

    def o_sum(self, t, env):
        return self.add([(1, self.ev(t.args[2], {**env, t.args[1]: j})) for j in self.rng(t, env)])

    def o_prod(self, t, env):
        return self.mul([(self.ev(t.args[2], {**env, t.args[1]: j}), 1) for j in self.rng(t, env)])

    def o_any(self, t, env):
        return any(self.truth(self.ev(t.args[2], {**env, t.args[1]: j})) for j in self.rng(t, env))

    def o_first(self, t, env):
        for j in self.rng(t, env):
            if self.truth(self.ev(t.args[2], {**env, t.args[1]: j})):
                return j
        raise Inconclusive('no element satisfies')

    def o_filt(self, t, env):
        return [self.ev(t.args[3], {**env, t.args[1]: j}) for j in self.rng(t, env)
                if self.truth(self.ev(t.args[2], {**env, t.args[1]: j}))]

    def o_lastsat(self, t, env):
        r = None
        ok = False
        for j in self.rng(t, env):
            if self.truth(self.ev(t.args[2], {**env, t.args[1]: j})):
                r = j
                ok = True
        if not ok:
            raise Inconclusive('no element satisfies')
        return self.ev(t.args[3], {**env, t.args[1]: r})

    def o_flat(self, t, env):
        out = []
        for j in self.rng(t, env):
            out.extend(self.seqv(self.ev(t.args[2], {**env, t.args[1]: j})))
        return out

    def accs(self, bodies, letter):
        best = None
        for b in bodies:
            for x in subterms(b):
                if x.op == 'acc' and str(x.args[0]).startswith(letter):
                    k = int(x.args[0][1:])
                    if best is None or k > best:
                        best = k
        return best

    def o_fold(self, t, env):
        k = t.args[2].args[0]
        inits = t.args[3:3 + k]
        bodies = t.args[3 + k:3 + 2 * k]
        h = self.accs(bodies, 'A')
        cur = [None if x is tm.UNDEF else self.ev(x, env) for x in inits]
        for j in self.rng(t, env):
            e2 = {**env, t.args[1]: j}
            for q in range(k):
                e2[tm.mk('acc', 'A%d' % h, q)] = cur[q]
            cur = [self.ev(b, e2) for b in bodies]
        return cur[0]

    def o_while(self, t, env):
        k = t.args[0].args[0]
        cond = t.args[1]
        inits = t.args[2:2 + k]
        bodies = t.args[2 + k:2 + 2 * k]
        h = self.accs(list(bodies) + [cond], 'W')
        cur = [None if x is tm.UNDEF else self.ev(x, env) for x in inits]
        for step in range(60):
            e2 = dict(env)
            for q in range(k):
                e2[tm.mk('acc', 'W%d' % h, q)] = cur[q]
            if not self.truth(self.ev(cond, e2)):
                return cur
            nxt = []
            for b in bodies:
                try:
                    nxt.append(None if b is tm.UNDEF else self.ev(b, e2))
                except Inconclusive as x:
                    nxt.append(x)
            cur = nxt
        raise OutOfFuel('while')

    def o_wexit(self, t, env):
        v = self.ev(t.args[0], env)[t.args[1].args[0]]
        if isinstance(v, Inconclusive):
            raise v
        return v

    def o_at(self, t, env):
        s = self.ev(t.args[0], env)
        i = self.ev(t.args[1], env)
        if isinstance(s, dict):
            k = self.key(i)
            if k in s:
                return s[k]
            raise Inconclusive('missing key')
        if isinstance(i, str):
            return self.atom(('at', self.key(s), i))
        i = self.int_(i)
        if isinstance(s, (list, str, tuple)):
            if not -len(s) <= i < len(s):
                raise Fault('index out of range')
            return s[i]
        if isinstance(s, U):
            return s.at(i)
        raise Inconclusive('indexing')

    def o_attr(self, t, env):
        q = t.args[1]
        if q.op == 'ite' or q.op == 'at' and q.args[0].op in ('seq', 'setat', 'insat', 'cat', 'ite', 'delat', 'tup'):
            raise Inconclusive('field of an unresolved pointer')
        o = self.ev(t.args[1], env)
        if t.args[0] in self.force and h64(self.seed, 'force', t.args[0], self.key(o)) % 2:
            return self.force[t.args[0]]
        return self.atom(('attr', t.args[0], self.key(o)), self.lenfn(t, env), self.rowfn(t, env),
                         symbol=t.args[0] in ('sym',))

    def o_cont(self, t, env):
        o = self.ev(t.args[0], env)
        return self.atom(('cont', self.key(o)), self.lenfn(t, env), self.rowfn(t, env))

    def o_insat(self, t, env):
        s = list(self.seqv(self.ev(t.args[0], env)))
        j = self.int_(self.ev(t.args[1], env))
        if not -len(s) <= j <= len(s):
            raise Fault('insert out of range')
        s.insert(j, self.ev(t.args[2], env))
        return s

    def o_delat(self, t, env):
        s = list(self.seqv(self.ev(t.args[0], env)))
        j = self.int_(self.ev(t.args[1], env))
        if not -len(s) <= j < len(s):
            raise Fault('delete out of range')
        del s[j]
        return s

    def o_setat(self, t, env):
        s = list(self.seqv(self.ev(t.args[0], env)))
        j = self.int_(self.ev(t.args[1], env))
        if not -len(s) <= j < len(s):
            raise Fault('index out of range')
        s[j] = self.ev(t.args[2], env)
        return s

    def o_slice(self, t, env):
        s = self.seqv(self.ev(t.args[0], env))
        lo = self.ev(t.args[1], env)
        hi = self.ev(t.args[2], env)
        return s[None if lo is None else self.int_(lo):None if hi is None else self.int_(hi)]

    def o_stride(self, t, env):
        s = self.seqv(self.ev(t.args[0], env))
        x = [self.ev(a, env) for a in t.args[1:]]
        return s[slice(*[None if v is None else self.int_(v) for v in x])]

    def o_insmany(self, t, env):
        s = list(self.seqv(self.ev(t.args[0], env)))
        I = [self.int_(x) for x in self.seqv(self.ev(t.args[1], env))]
        v = self.seqv(self.ev(t.args[2], env))
        if sorted(set(I)) != I:
            raise Inconclusive('targets not ascending')
        for i, x in zip(I, v):
            if i > len(s):
                raise Fault('insert out of range')
            s.insert(i, x)
        return s

    def o_delmany(self, t, env):
        s = list(self.seqv(self.ev(t.args[0], env)))
        I = {self.int_(x) for x in self.seqv(self.ev(t.args[1], env))}
        if I and max(I) >= len(s):
            raise Fault('delete out of range')
        return [x for j, x in enumerate(s) if j not in I]

    def o_perm(self, t, env):
        return sorted(self.seqv(self.ev(t.args[1], env)), key=lambda v: repr(self.key(v)))

    def o_bag(self, t, env):
        vs = self.seqv(self.ev(t.args[0], env))

        def k(v):
            try:
                return (0, self.num(v), '')
            except Inconclusive:
                return (1, 0.0, repr(self.key(v)))
        return sorted(vs, key=k)

    def o_repeat(self, t, env):
        n = self.int_(self.ev(t.args[1], env))
        if n > 50:
            raise Inconclusive('long')
        return self.seqv(self.ev(t.args[0], env)) * max(n, 0)

    def o_natpart(self, t, env):
        return max(self.int_(self.ev(t.args[0], env)), 0)

    def o_intof(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, int):
            return v
        return int(self.num(v))

    def o_floordiv(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        a, b = self.num(a), self.num(b)
        if b == 0:
            raise Inconclusive('division by zero')
        r = a // b
        return int(r)

    def o_mod_(self, t, env):
        a, b = self.num(self.ev(t.args[0], env)), self.num(self.ev(t.args[1], env))
        if b == 0:
            raise Inconclusive('division by zero')
        r = a % b
        return int(r) if r == int(r) else r

    def o_strcat(self, t, env):
        return ''.join(self.strv(self.ev(a, env)) for a in t.args)

    def o_str(self, t, env):
        return self.strv(self.ev(t.args[0], env))

    def o_fmt(self, t, env):
        vs = [self.ev(a, env) for a in t.args]
        return '<fmt %s>' % (tuple(self.key(v) for v in vs),)

    def o_set(self, t, env):
        return frozenset(repr(self.key(self.ev(a, env))) for a in t.args)

    def o_setof(self, t, env):
        return frozenset(repr(self.key(x)) for x in self.seqv(self.ev(t.args[0], env)))

    def o_dif(self, t, env):
        return self.diff(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_subs(self, t, env):
        e, o, n = [self.ev(a, env) for a in t.args]
        return self.sub1(e, o, n)

    def sub1(self, e, o, n):
        ko, kn = self.key(o), self.key(n)

        def f(u):
            if u.key == ko:
                return n
            if u.symbol and isinstance(o, U) and o.symbol:
                return u
            return self.atom(('subs', u.key, ko, kn))
        return self.mapleaf(e, f)

    def o_subsd(self, t, env):
        e = self.ev(t.args[0], env)
        d = self.ev(t.args[1], env)
        kd = self.key(d)
        return self.mapleaf(e, lambda u: self.atom(('subsd', u.key, kd)))

    def o_sympd(self, t, env):
        return self.ev(t.args[0], env)

    def o_ev(self, t, env):
        e = self.ev(t.args[0], env)
        binds = {}
        for b in t.args[1].args:
            ss = self.seqv(self.ev(b.args[0], env))
            vv = self.ev(b.args[1], env)
            for i, s in enumerate(ss):
                if isinstance(vv, list):
                    if i >= len(vv):
                        raise Fault('short argument')
                    x = vv[i]
                elif isinstance(vv, U):
                    x = vv.at(i)
                else:
                    raise Inconclusive('argument')
                binds[repr(self.key(s))] = x
        kb = tuple(sorted((k, repr(self.key(v))) for k, v in binds.items()))

        def f(u):
            if repr(u.key) in binds:
                return binds[repr(u.key)]
            if u.symbol:
                return self.atom(('unbound', u.key))
            return self.atom(('ev', u.key, kb))
        return self.mapleaf(e, f)

    def o_mkmap(self, t, env):
        ks = self.seqv(self.ev(t.args[0], env))
        vs = self.seqv(self.ev(t.args[1], env))
        return {self.key(k): v for k, v in zip(ks, vs)}

    def o_setkey(self, t, env):
        m = self.ev(t.args[0], env)
        k = self.key(self.ev(t.args[1], env))
        v = self.ev(t.args[2], env)
        if isinstance(m, dict):
            return {**m, k: v}
        return self.atom(('setkey', self.key(m), k, self.key(v)))

    def o_get(self, t, env):
        m = self.ev(t.args[0], env)
        k = self.key(self.ev(t.args[1], env))
        if isinstance(m, dict):
            if k in m:
                return m[k]
            raise Inconclusive('missing key')
        while isinstance(m, U) and isinstance(m.key, tuple) and m.key[0] == 'setkey':
            raise Inconclusive('map update')
        return self.atom(('get', self.key(m), k))

    def o_isin(self, t, env):
        x, s = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(s, (list,)):
            return any(self.same(x, y) for y in s)
        return h64(self.seed, 'isin', self.key(x), self.key(s)) % 2 == 0

    def o_isclose(self, t, env):
        vs = [self.ev(a, env) for a in t.args]
        return abs(self.num(vs[0]) - self.num(vs[1])) < 1e-6

    def boolatom(self, t, env):
        k = (t.op,) + tuple(self.key(self.ev(a, env)) if isinstance(a, T) else repr(a) for a in t.args)
        return h64(self.seed, k) % 2 == 0
    o_isinst = o_hasattr = o_callable = o_haskey = boolatom

    def o_call(self, t, env):
        n = t.args[0]
        if isinstance(n, str):
            if len(t.args) == 2 and (n in FUNS or n in ('asin', 'arcsin', 'sqrt', 'abs', 'fabs', 'log')):
                v = self.ev(t.args[1], env)
                if isinstance(v, (U, E)) or self.isnum(v) or isinstance(v, list):
                    return self.app(n, v)
            if n in ('max', 'min') and len(t.args) >= 2:
                vs = [self.ev(a, env) for a in t.args[1:]]
                if len(vs) == 1:
                    vs = self.seqv(vs[0])
                if not vs:
                    raise Inconclusive('max of empty')
                g = max if n == 'max' else min
                return g(vs, key=self.num)
            name = n
        else:
            name = self.key(self.ev(n, env))
        k = ('call', name) + tuple(self.key(self.ev(a, env)) if isinstance(a, T) else repr(a) for a in t.args[1:])
        return self.atom(k, self.lenfn(t, env), self.rowfn(t, env))

    # ------------------------------------------------------------ comparison
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, tuple):
            a = list(a)
        if isinstance(b, tuple):
            b = list(b)
        if a is None or b is None:
            if isinstance(a, U) or isinstance(b, U):
                u = a if isinstance(a, U) else b
                return h64(self.seed, 'none', u.key) % 3 == 0
            return a is b
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, U):
            return self.same(a, self.seqv(b))
        if isinstance(b, list) and isinstance(a, U):
            return self.same(self.seqv(a), b)
        if isinstance(a, list) or isinstance(b, list):
            return False
        if isinstance(a, dict) or isinstance(b, dict):
            if isinstance(a, dict) and isinstance(b, dict):
                return set(a) == set(b) and all(self.same(a[k], b[k]) for k in a)
            return False
        if isinstance(a, str) or isinstance(b, str):
            return self.strv(a) == self.strv(b)
        if isinstance(a, frozenset) or isinstance(b, frozenset):
            return a == b
        if isinstance(a, U) and isinstance(b, U) and a.key == b.key:
            return True
        x, y = self.num(a), self.num(b)
        return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))
