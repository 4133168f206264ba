"""Obligations, verdicts, evidence and replay files."""
import json
import os
import time
import hashlib
from . import terms as tm
from .terms import subterms, show, T
from .models import Model, Inconclusive, Fault, FAULTS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'

# operators a model interprets exactly or that denote inputs; anything else introduced by the
# code but unknown to the specification makes the obligation undecided instead of an alarm
FREE_VOCAB = {'sin', 'cos', 'exp', 'tan', 'sqrt', 'abs', 'max', 'min', 'log', 'asin', 'arcsin', 'len'}


def vocab(t):
    out = set()
    for x in subterms(t):
        if x.op == 'call' and isinstance(x.args[0], tm.T) and x.args[0].op == 'opaque' and x.args[0].args[0] in FAULTS:
            continue          # calling what a certain failure should have produced
        if x.op == 'call':
            out.add('call:%s' % (x.args[0] if isinstance(x.args[0], str) else show(x.args[0]),))
        elif x.op in ('fmt', 'objstr', 'mapkeys', 'isinst', 'hasattr', 'exc', 'next', 'meth', 'perm', 'star',
                      'stride', 'wexit', 'isclose', 'subsd', 'lin', 'repeat', 'super', 'mapatom', 'haskey', 'callable'):
            out.add(x.op)
    return {v for v in out if v[5:] not in FREE_VOCAB}


class Oblig:
    def __init__(self, name, verdict, detail='', where='', witness=None):
        self.name = name
        self.verdict = verdict
        self.detail = detail
        self.where = where
        self.witness = witness


class Broken(Exception):
    """the analysis lost its anchor (an error of the check, never an alarm)"""


def split_same(a, b, fuel):
    """equality by case distinction on the conditions that occur in both terms"""
    if a is b:
        return True
    if fuel[0] <= 0:
        return False
    fuel[0] -= 1
    c = None
    for t in (a, b):
        for x in tm.subterms(t):
            if x.op == 'ite' and not any(y.op == 'ite' for y in tm.subterms(x.args[0]) if y is not x.args[0]) \
                    and not x.args[0].fbv:
                c = x.args[0]
                break
        if c is not None:
            break
    if c is None:
        return False
    while c.op == 'not':
        c = c.args[0]
    if c.op in ('and', 'or'):
        c = c.args[0]
    while c.op == 'not':
        c = c.args[0]
    for v in (tm.TRUE, tm.FALSE):
        if not split_same(tm.subst(a, {c: v}), tm.subst(b, {c: v}), fuel):
            return False
    return True


def rational_same(a, b):
    """equality of two rational expressions by clearing denominators"""
    if a.op in ('seq', 'tup') and b.op == a.op and len(a.args) == len(b.args):
        return all(x is y or rational_same(x, y) for x, y in zip(a.args, b.args))
    d = tm.sub(a, b)
    for _ in range(6):
        if d is tm.ZERO:
            return True
        p = tm.as_poly(d)
        deg, low = {}, {}
        for m in p:
            for x, e in m:
                if x.op == 'inv':
                    deg[x] = max(deg.get(x, 0), e)
                elif e < 0:
                    low[x] = min(low.get(x, 0), e)
        if not deg and not low:
            return False
        if len(p) > 4000:
            return False
        r = tm.ZERO
        for m, c in p.items():
            t = tm.num(c)
            have = dict(m)
            for x, e in m:
                if x.op != 'inv' and x not in low:
                    t = tm.mul(t, tm.powi(x, e))
            for x, k in low.items():
                t = tm.mul(t, tm.powi(x, have.get(x, 0) - k))
            for x, k in deg.items():
                for _i in range(k - have.get(x, 0)):
                    t = tm.mul(t, x.args[0])
            r = tm.add(r, t)
        d = r
    return False


def no_exc(t):
    m = {x: tm.FALSE for x in subterms(t) if x.op == 'exc' and x.args[0].op == 'const'
         and x.args[0].args[0] not in ('loop', 'loopret')}
    return tm.subst(t, m) if m else t


def solve_for(e):
    """an input symbol and the value that makes the equation true"""
    a, b = e.args
    for x, y in ((a, b), (b, a)):
        if x.op == 'sym' and not tm.contains(y, x):
            if x.args[1] != 'real' and y.op not in ('num', 'const'):
                continue            # names and the like may be known to differ
            return x, y
    d = tm.sub(a, b) if (tm.numeric(a) or a.op in ('poly', 'num')) and (tm.numeric(b) or b.op in ('poly', 'num')) else None
    if d is None:
        return None
    p = tm.as_poly(d)
    for m in p:
        for x, k in m:
            if x.op == 'sym' and k == 1 and x.args[1] == 'real':
                co, rest, ok = tm.ZERO, tm.ZERO, True
                for m2, c2 in p.items():
                    e2 = dict(m2).get(x, 0)
                    if e2 == 0:
                        if any(tm.contains(z, x) for z, _ in m2):
                            ok = False
                        rest = tm.add(rest, mono(m2, c2))
                    elif e2 == 1:
                        m3 = tuple((z, q) for z, q in m2 if z is not x)
                        if any(tm.contains(z, x) for z, _ in m3):
                            ok = False
                        co = tm.add(co, mono(m3, c2))
                    else:
                        ok = False
                if ok and co is not tm.ZERO:
                    return x, tm.neg(tm.div(rest, co))
    return None


def mono(m, c):
    t = tm.num(c)
    for z, q in m:
        t = tm.mul(t, tm.powi(z, q))
    return t


class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obligs = []
        self.closed = False
        self.assumptions = []
        self.analysed = {}
        self.t0 = time.time()
        self.nmodels = 40 if tier == 'quick' else 400
        self.known = load_known()
        self.own = set()         # names of uninterpreted operations the rule itself introduces
        self.min_decided = 1
        self.notes = []

    # ------------------------------------------------------------ obligations
    def ok(self, name, where='', detail=''):
        self.obligs.append(Oblig(name, PROVED, detail, where))

    def undecided(self, name, detail='', where=''):
        self.obligs.append(Oblig(name, UNDECIDED, detail, where))

    def fail(self, name, detail='', where='', witness=None):
        self.obligs.append(Oblig(name, REFUTED, detail, where, witness))

    def check(self, name, cond, detail='', where=''):
        """a structural obligation already decided by the rule: True, False or None"""
        if cond is True:
            self.ok(name, where)
        elif cond is False:
            self.fail(name, detail, where)
        else:
            self.undecided(name, detail, where)

    def equal(self, name, got, want, where='', assume=(), extra_vocab=(), strict=False):
        if got is want:
            self.ok(name, where)
            return PROVED
        if got is None or want is None:
            self.undecided(name, 'no value', where)
            return UNDECIDED
        got2, want2 = got, want
        for a in assume:
            got2, want2 = tm.assume(got2, a, True), tm.assume(want2, a, True)
        if got2 is want2:
            self.ok(name, where)
            return PROVED
        # closed rules compare code with code: a library function unknown to both sides proves nothing
        extra_vocab = set(extra_vocab) | self.own
        ex = (vocab(got2) - (vocab(want2) if not self.closed else set())) - set(extra_vocab)
        if self.closed:
            ex |= vocab(want2) - set(extra_vocab)
        st = self._models(got2, want2, assume)
        if ex and 'exc' in ex and st[0] == 'diff':
            # the run in which no library call fails
            g3, w3 = no_exc(got2), no_exc(want2)
            if (vocab(g3) - (vocab(w3) if not self.closed else set())) - set(extra_vocab):
                pass
            else:
                s3 = self._models(g3, w3, assume)
                if s3[0] == 'diff':
                    got2, want2, st, ex = g3, w3, s3, set()
        if st[0] == 'same':
            s3 = self._directed(got2, want2, assume)
            if s3 is not None:
                st = s3
        if st[0] == 'diff':
            if ex and not strict:
                self.undecided(name, 'value uses operations outside the rule vocabulary: %s' % sorted(ex)[:4], where)
                return UNDECIDED
            self.fail(name, 'got %s  expected %s' % (clip(show(got2)), clip(show(want2))), where, st[1])
            return REFUTED
        if st[0] == 'same' and (rational_same(got2, want2) or split_same(got2, want2, [200])):
            self.ok(name, where)
            return PROVED
        if st[0] == 'same':
            self.undecided(name, 'normal forms differ; no distinguishing structure in %d: got %s want %s' % (
                st[1], clip(show(got2)), clip(show(want2))), where)
        else:
            self.undecided(name, 'inconclusive (%s): got %s want %s' % (
                st[1], clip(show(got2)), clip(show(want2))), where)
        return UNDECIDED

    def equal_or(self, name, got, want, defect, defect_name, where='', assume=()):
        """like equal, but a value equal to one recorded wrong value is reported under that defect's own name, so
        that a known finding covers exactly that wrong value and no other"""
        if got is not want and got is not None:
            if got is defect or (self._models(got, want, assume)[0] == 'diff'
                                 and self._models(got, defect, assume)[0] == 'same'):
                self.fail(defect_name, 'got %s  expected %s' % (clip(show(got)), clip(show(want))), where)
                return REFUTED
        return self.equal(name, got, want, where, assume)

    def equal_bag(self, name, got, want, where='', assume=(), extra_vocab=()):
        """equality of two sequences up to order"""
        def norm(t):
            segs = t.args if t.op == 'cat' else (t,)
            lit, oth = [], []
            for g in segs:
                if g.op in ('seq', 'tup'):
                    lit.extend(g.args)
                else:
                    oth.append(g)
            return tm.cat(tm.seq(*sorted(lit, key=lambda x: x.id)), *sorted(oth, key=lambda x: x.id))
        g, w = norm(got), norm(want)
        if g is w:
            self.ok(name, where)
            return PROVED
        return self.equal(name, tm.mk('bag', got), tm.mk('bag', want), where, assume, extra_vocab)

    def holds(self, name, cond, where='', assume=(), detail=''):
        """cond is a boolean term that must be TRUE for every input"""
        return self.equal(name, cond, tm.TRUE, where, assume, strict=False)

    def _directed(self, got, want, assume):
        """structures in which chosen equations of the two terms hold (random values never satisfy one)"""
        eqs = []
        for t in (got, want):
            for x in subterms(t):
                if x.op == 'eq' and not x.fbv and x not in eqs:
                    eqs.append(x)
        eqs = eqs[:8]
        force = {}
        for t in (got, want):
            for x in subterms(t):
                if x.op == 'eq' and x.fbv:
                    for a, b in (x.args, x.args[::-1]):
                        if a.op == 'num' and b.op == 'attr':
                            force.setdefault(b.args[0], a.args[0])
        if force:
            s = self._models(got, want, assume, 12, force)
            if s[0] == 'diff':
                if isinstance(s[1], dict):
                    s[1]['where'] = ['%s of some = %s' % kv for kv in force.items()]
                return s
        if any(t.op in ('not', 'pos', 'and', 'or') for t in (got, want)):
            # thresholds: quantities of different magnitude
            s = self._models(got, want, assume, 30, scaled=True)
            if s[0] == 'diff':
                return s
        if not eqs:
            return None
        plans = [eqs] + ([[e] for e in eqs] + [[e for e in eqs if e is not d] for d in eqs] if len(eqs) > 1 else [])
        for plan in plans:
            mp = {}
            ok = True
            for e in plan:
                e = tm.subst(e, mp) if mp else e
                if e.op != 'eq':
                    continue
                s = solve_for(e)
                if s is None:
                    ok = False
                    break
                mp = {k: tm.subst(v, {s[0]: s[1]}) for k, v in mp.items()}
                mp[s[0]] = s[1]
            if not ok or not mp:
                continue
            try:
                g, w, a = tm.subst(got, mp), tm.subst(want, mp), [tm.subst(x, mp) for x in assume]
            except RecursionError:
                continue
            if g is w or any(x is tm.FALSE for x in a):
                continue
            s = self._models(g, w, a, 12)
            if s[0] == 'diff':
                if isinstance(s[1], dict):
                    s[1]['where'] = ['%s = %s' % (clip(show(k), 80), clip(show(v), 80)) for k, v in mp.items()]
                return s
        return None

    def _models(self, got, want, assume, nmodels=None, force=None, scaled=False):
        n = 0
        why = ''
        for k in range(nmodels or self.nmodels):
            m = Model(self.seed * 1000 + k, minlen=1 if k % 3 == 1 else 0)
            m.force = force or {}
            m.scaled = scaled
            try:
                if not all(m.truth(m.ev(a)) for a in assume):
                    continue
                w = m.ev(want)
                try:
                    g = m.ev(got)
                except Fault as x:
                    return 'diff', {'structure_seed': m.seed, 'got': 'run-time error: %s' % x, 'expected': descr(m, w)}
                except Inconclusive as x:
                    why = str(x)
                    continue
                n += 1
                if not m.same(g, w):
                    return 'diff', {'structure_seed': m.seed, 'got': descr(m, g), 'expected': descr(m, w),
                                    'inputs': {str(a): b for a, b in list(m.used.items())[:20]}}
            except Inconclusive as x:
                why = str(x)
                continue
            except RecursionError:
                why = 'recursion'
                continue
        if n:
            return 'same', n
        return 'inconclusive', why

    # ------------------------------------------------------------ output
    def finish(self, level='other', explanation='', broken=None):
        ref = [o for o in self.obligs if o.verdict == REFUTED]
        und = [o for o in self.obligs if o.verdict == UNDECIDED]
        prv = [o for o in self.obligs if o.verdict == PROVED]
        new, known = [], []
        for o in ref:
            (known if (self.pid, o.name) in self.known else new).append(o)
        cov = {
            'explanation': explanation,
            'obligations': len(self.obligs),
            'discharged': len(prv),
            'undecided': len(und),
            'refuted': len(ref),
            'analysed': self.analysed,
            'obligation_list': [{'name': o.name, 'verdict': o.verdict, 'where': o.where,
                                 **({'detail': o.detail} if o.verdict != PROVED else {})} for o in self.obligs],
        }
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        out = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted (%.1fs)' % (
            self.pid, len(self.obligs), len(prv), len(und), len(ref), time.time() - self.t0))
        for o in und:
            print('  undecided: %s  %s %s' % (o.name, o.where, o.detail))
        for o in known:
            print('KNOWN-FINDING: property=%s %s %s' % (self.pid, o.name, self.known[(self.pid, o.name)]))
        if broken:
            print('ANALYSIS-BROKEN property=%s %s' % (self.pid, broken))
            return 2
        if new:
            rp = os.path.join(out, 'replay_%s.txt' % self.pid)
            with open(rp, 'w') as f:
                for o in new:
                    f.write('property %s\nobligation: %s\nat: %s\n%s\n' % (self.pid, o.name, o.where, o.detail))
                    if o.witness:
                        f.write('distinguishing structure: %s\n' % json.dumps(o.witness, default=str, indent=1))
                    f.write('\n')
            for o in new:
                print('  broken: %s at %s: %s' % (o.name, o.where, clip(o.detail, 600)))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if len(self.obligs) < self.min_decided:
            print('ANALYSIS-BROKEN property=%s only %d obligations found (expected at least %d)' % (
                self.pid, len(self.obligs), self.min_decided))
            return 2
        return 0


def descr(m, v, d=0):
    if isinstance(v, list) and d < 3:
        return [descr(m, x, d + 1) for x in v[:6]]
    try:
        if v is None or isinstance(v, (str, bool)):
            return v
        return round(m.num(v), 6)
    except Inconclusive:
        return str(type(v).__name__)


def clip(s, n=300):
    return s if len(s) <= n else s[:n] + '...'


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=<id> obligation=<name> :: <description>
                head, _, desc = line.partition('::')
                parts = head.split(None, 2)
                pid = parts[1].split('=', 1)[1]
                ob = parts[2].split('=', 1)[1].strip()
                out[(pid, ob)] = desc.strip()
    return out
