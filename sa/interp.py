"""Flow-sensitive value-graph extraction (gated-SSA style dataflow) for the repository's Python.

Every statement is interpreted once over terms; both sides of a branch are merged with
``ite``; loops are summarised by solving their recurrences (append -> tab, accumulate ->
sum, counters -> closed form, pointwise update -> tab, search -> first/any, otherwise an
explicit ``fold``).  No inputs are sampled and no paths are enumerated.
"""
import ast
import builtins
from .terms import *
from . import terms as tm
from .program import AnalysisError, ClassObj, Program


class FuncObj:
    def __init__(self, node, module, qual, cls=None):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.is_gen = not isinstance(node, ast.Lambda) and any(
            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_local(node))

    def __repr__(self):
        return self.qual


def walk_local(fn):
    """walk a function body without entering nested functions"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)


class State:
    __slots__ = ('heap', 'fams', 'pc')

    def __init__(self, heap=None, fams=(), pc=TRUE):
        self.heap = heap if heap is not None else {}
        self.fams = fams
        self.pc = pc

    def copy(self):
        return State(dict(self.heap), self.fams, self.pc)

    def become(self, other):
        self.heap, self.fams, self.pc = other.heap, other.fams, other.pc


class Fam:
    __slots__ = ('field', 'binders', 'ptr', 'value', 'cond')

    def __init__(self, field, binders, ptr, value, cond=TRUE):
        self.field, self.binders, self.ptr, self.value, self.cond = field, binders, ptr, value, cond


class Flow:
    def __init__(self, norm=None):
        self.norm = norm
        self.rets = []
        self.brks = []
        self.conts = []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts


class Raise:
    __slots__ = ('pc', 'exc', 'node', 'state', 'where')

    def __init__(self, pc, exc, node, state, where):
        self.pc, self.exc, self.node, self.state, self.where = pc, exc, node, state, where


class Frame:
    def __init__(self, ref, module, func, cls=None):
        self.ref, self.module, self.func, self.cls = ref, module, func, cls


class LoopRec:
    """what a rule may want to know about a while loop"""
    pass


class Interp:
    MAXDEPTH = 60
    maxrec = 6

    def __init__(self, prog):
        self.prog = prog
        self.nref = 0
        self.refcls = {}
        self.symbolic = set()       # names of refs whose missing attributes are inputs
        self.elemcls = {}           # sequence atom -> class of elements
        self.attrcls = {}           # attr name (or (class name, attr)) -> class
        self.elemattr = {}
        self.ranks = {}
        self.dictkeys = {}
        self.logger_names = set()
        self.mark_sympify = False
        self.track_valueerror = False
        self.copies = {}
        self.ncopy = 0
        self.parents = {}
        self.funcs = {}
        self.defaults = {}       # mutable default arguments
        self.bvstack = []
        self.raises = [[]]
        self.depth = 0
        self.nloop = 0
        self.captured = set()
        self.callstack = []
        self.opaque_calls = {}      # name -> count
        self.unroll_while = 0
        self.expand_arg = False     # argmin of a short literal sequence as a decision
        self.intercepts = {}        # qualname -> handler
        self.trace_calls = []       # (callee, args) of library calls, in order
        self.prov = {}
        self.whiles = []
        self.len_cats = {}
        self.funcs_seen = {}
        self.ncalls = 0
        self.mutations = None       # optional list collecting (ptr, field) writes
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ allocation
    def alloc(self, cls, hint='o'):
        self.nref += 1
        name = '%s#%d' % (hint, self.nref)
        self.refcls[name] = cls
        return mk('ref', name, *self.bvstack)

    def input_obj(self, name, cls, symbolic=True):
        self.refcls[name] = cls
        if symbolic:
            self.symbolic.add(name)
        return mk('ref', name)

    def new_list(self, st, content, cls='list', hint='l'):
        r = self.alloc(cls, hint)
        st.heap[(r, '$')] = content
        return r

    def new_array(self, st, content):
        return self.new_list(st, content, 'ndarray', 'a')

    # ------------------------------------------------------------ classes
    def class_of(self, t):
        if t.op == 'ref':
            return self.refcls.get(t.args[0])
        if t.op == 'cp':
            return self.class_of(t.args[1])
        if t.op == 'at':
            c = self.elem_class(t.args[0])
            if c is not None:
                return c
            b = t.args[0]
            if b.op == 'slice':
                return self.class_of(at(b.args[0], t.args[1]))
            if b.op == 'cat':
                cs = {self._seg_cls(x) for x in b.args}
                if len(cs) == 1:
                    return cs.pop()
            return None
        if t.op == 'get':
            return self.elemcls.get(t.args[0])
        if t.op == 'attr':
            c = self.attrcls.get(t.args[0])
            if c is not None:
                return c
            oc = self.class_of(t.args[1])
            if isinstance(oc, ClassObj):
                for k in oc.mro():
                    c = self.attrcls.get((k.name, t.args[0]))
                    if c is not None:
                        return c
            return None
        if t.op == 'ite':
            a, b = self.class_of(t.args[1]), self.class_of(t.args[2])
            return a if a is b else None
        if t.op in ('tup',):
            return 'tuple'
        if t.op in ('seq', 'cat', 'tab'):
            return 'rawseq'
        return None

    def _seg_cls(self, x):
        if x.op == 'seq':
            cs = {self.class_of(e) for e in x.args}
            return cs.pop() if len(cs) == 1 else None
        if x.op == 'tab':
            return self.class_of(x.args[2])
        if x.op == 'slice':
            return self._seg_cls(x.args[0])
        return self.elem_class(x)

    def is_obj(self, t):
        return isinstance(self.class_of(t), ClassObj)

    # ------------------------------------------------------------ heap
    def read(self, st, ptr, field, default=None):
        if ptr.op == 'ite':
            return ite(ptr.args[0], self.read(st, ptr.args[1], field, default),
                       self.read(st, ptr.args[2], field, default))
        v = st.heap.get((ptr, field))
        if v is not None:
            return v
        for k in range(len(st.fams) - 1, -1, -1):
            f = st.fams[k]
            if f.field != field:
                continue
            m = self.match(f, ptr)
            if m == 'no':
                continue
            if m is None:
                return mk('opaque', 'mayalias', ptr, const(field))
            v = subst(f.value, m)
            c = subst(f.cond, m)
            if c is TRUE:
                return v
            st2 = State(st.heap, st.fams[:k], st.pc)
            return ite(c, v, self.read(st2, ptr, field, default))
        # stuck element of a concatenation: read per segment is not possible here
        if self.is_input(ptr):
            return mk('attr', field, ptr) if field != '$' else mk('cont', ptr)
        if ptr.op == 'cp':
            k = ptr.args[0]
            S, deep = self.copies[k]
            v = self.read(S, ptr.args[1], field, None)
            if v is None:
                return default
            return self.wrapcp(k, v, S) if deep else v
        return default

    def wrapcp(self, k, v, S):
        """the value v as seen through deep copy number k (lazy structural copy)"""
        if v.op in ('num', 'const', 'sym', 'bv', 'undef', 'fn', 'cls', 'mod', 'poly', 'lam'):
            return v
        if v.op == 'ite':
            return ite(v.args[0], self.wrapcp(k, v.args[1], S), self.wrapcp(k, v.args[2], S))
        if v.op in ('seq', 'tup'):
            return rebuild(v.op, [self.wrapcp(k, x, S) for x in v.args])
        if v.op == 'cat':
            return cat(*[self.wrapcp(k, x, S) for x in v.args])
        if v.op == 'tab':
            n, b, body = open_binder(v)
            return tab(n, b, self.wrapcp(k, body, S))
        if v.op == 'bound':
            return mk('bound', v.args[0], self.wrapcp(k, v.args[1], S))
        if v.op == 'partial':
            return v
        if v.op == 'cont':
            c = self.elem_class(v)
            if c is None:
                return v
            b = fresh_bv()
            return tab(slen(v), b, self.wrapcp(k, at(v, b), S))
        c = self.class_of(v)
        if isinstance(c, ClassObj):
            if c.find('__deepcopy__')[1] is not None:
                return v
            return mk('cp', k, v)
        if c in ('list', 'ndarray', 'dict', 'deque'):
            return mk('cp', k, v)
        return v

    def elem_class(self, cont):
        c = self.elemcls.get(cont)
        if c is None and cont.op == 'cont' and cont.args[0].op == 'attr':
            c = self.elemattr.get(cont.args[0].args[0])
        if c is None and cont.op == 'cont' and cont.args[0].op == 'cp':
            return None
        return c

    def copy_value(self, st, v, deep):
        if v.op == 'ite':
            return ite(v.args[0], self.copy_value(st, v.args[1], deep), self.copy_value(st, v.args[2], deep))
        self.ncopy += 1
        k = 'c%d' % self.ncopy
        self.copies[k] = (st.copy(), deep)
        if deep:
            return self.wrapcp(k, v, self.copies[k][0])
        c = self.class_of(v)
        if isinstance(c, ClassObj) or c in ('list', 'ndarray', 'dict', 'deque'):
            return mk('cp', k, v)
        return v

    def is_input(self, ptr):
        if ptr.op == 'ref':
            return ptr.args[0] in self.symbolic
        if ptr.op in ('at', 'attr', 'get'):
            return True
        return False

    def match(self, fam, ptr):
        """match family pointer pattern; returns mapping, 'no' (distinct) or None (unknown)"""
        bvs = [b for _, b in fam.binders]
        m = {}

        def go(p, q):
            if p is q and not any(b in p.fbv for b in bvs):
                return True
            if p.op == 'bv' and p in bvs:
                if p in m:
                    return True if m[p] is q else None
                m[p] = q
                return True
            if p.op == 'poly' and p.fbv:
                # bv + const
                d = as_poly(p)
                lin = [(mm, c) for mm, c in d.items() if any(b in at_.fbv for at_, e in mm for b in bvs)]
                if len(lin) == 1 and lin[0][1] == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1 \
                        and lin[0][0][0][0] in bvs:
                    b = lin[0][0][0][0]
                    m[b] = sub(q, sub(p, b))
                    return True
                return None
            if p.op != q.op:
                if {p.op, q.op} <= {'ref', 'at', 'attr', 'get', 'cp'}:
                    if 'ref' in (p.op, q.op):
                        return False
                    return None if p.op == q.op else False
                return None
            if p.op == 'ref':
                if p.args[0] != q.args[0]:
                    return False
                for a, b in zip(p.args[1:], q.args[1:]):
                    r = go(a, b)
                    if r is not True:
                        return r
                return True
            if p.op == 'at':
                if p.args[0] is not q.args[0]:
                    if self.distinct_seq(p.args[0], q.args[0]):
                        return False
                    r = go(p.args[0], q.args[0])
                    if r is not True:
                        return r
                return go(p.args[1], q.args[1])
            if p.op == 'cp':
                if p.args[0] != q.args[0]:
                    return False
                return go(p.args[1], q.args[1])
            if p.op == 'get':
                if p.args[0] is not q.args[0]:
                    return False
                return go(p.args[1], q.args[1])
            if p.op == 'attr':
                if p.args[0] != q.args[0]:
                    return False
                return go(p.args[1], q.args[1])
            if len(p.args) == len(q.args) and p.op not in BINDERS:
                for a, b in zip(p.args, q.args):
                    if isinstance(a, T) and isinstance(b, T):
                        r = go(a, b)
                        if r is not True:
                            return None
                    elif a != b:
                        return None
                return True
            return None
        r = go(fam.ptr, ptr)
        if r is False:
            return 'no'
        if r is not True or len(m) != len(bvs):
            return None
        # index below the family range?
        return m

    def distinct_seq(self, a, b):
        """two base sequences of objects never share elements (stated assumption for input collections)"""
        if a is b:
            return False
        base = lambda s: s.op in ('sym', 'attr', 'cont')
        if base(a) and base(b):
            return True
        if a.op == 'slice' or b.op == 'slice':
            ra = a.args[0] if a.op == 'slice' else a
            rb = b.args[0] if b.op == 'slice' else b
            if ra is not rb and base(ra) and base(rb):
                return True
        return False

    def write(self, st, ptr, field, value, node=None):
        if ptr.op == 'ite':
            c, a, b = ptr.args
            self.write(st, a, field, ite(c, value, self.read(st, a, field, UNDEF)), node)
            self.write(st, b, field, ite(c, self.read(st, b, field, UNDEF), value), node)
            return
        if ptr.op not in ('ref', 'at', 'attr', 'get', 'cp'):
            return
        # a write through a may-aliasing element pointer invalidates what cannot be told apart
        if ptr.op == 'at':
            for (p, f) in list(st.heap):
                if f == field and p.op == 'at' and p is not ptr and p.args[0] is ptr.args[0]:
                    e = eq(p.args[1], ptr.args[1])
                    if e is not FALSE:
                        st.heap[(p, f)] = ite(e, value, st.heap[(p, f)])
        st.heap[(ptr, field)] = value
        if node is not None:
            self.prov[(ptr, field)] = (self.curfile(), getattr(node, 'lineno', 0))

    def dict_ident(self, st, d):
        return d

    def trace(self, st, name, obj, args, kwargs, node):
        self.trace_calls.append((name, obj, args, dict(kwargs), st.pc, getattr(node, 'lineno', 0), self.curfile()))

    def curfile(self):
        return self.callstack[-1].module.path if self.callstack else '?'

    # value view of lists / arrays
    def V(self, st, t):
        c = self.class_of(t)
        if c in ('list', 'ndarray', 'deque') and t.op in ('ref', 'attr', 'at', 'get', 'cp'):
            r = self.read(st, t, '$', EMPTY)
            return r
        if t.op == 'ite':
            return ite(t.args[0], self.V(st, t.args[1]), self.V(st, t.args[2]))
        return t

    def reify(self, st, t, depth=0, memo=None):
        """replace list/array addresses inside t by their contents"""
        if memo is None:
            memo = {}
        if t.id in memo:
            return memo[t.id]
        if depth > 30:
            return t
        r = self._reify(st, t, depth, memo)
        memo[t.id] = r
        return r

    def _reify(self, st, t, depth, memo):
        if t.op in ('num', 'const', 'sym', 'bv', 'undef', 'fn', 'cls', 'mod'):
            return t
        c = self.class_of(t)
        if c in ('list', 'ndarray', 'deque', 'matrix') and t.op in ('ref', 'attr', 'at', 'get', 'cp'):
            v = self.read(st, t, '$', EMPTY)
            if v is t:
                return t
            return self.reify(st, v, depth + 1, memo)
        if t.op == 'ref':
            if c == 'dict':
                return self.reify_dict(st, t, depth, memo)
            return t
        if t.op == 'poly':
            r = ZERO
            for m, cc in t.args[0]:
                p = num(cc)
                for a, e in m:
                    p = mul(p, powi(self.reify(st, a, depth, memo), e))
                r = add(r, p)
            return r
        if t.op in BINDERS:
            parts = open_binder(t)
            rest = [self.reify(st, b, depth + 1, memo) if isinstance(b, T) else b for b in parts[2:]]
            return rebuild(t.op, [self.reify(st, parts[0], depth, memo), parts[1]] + rest)
        if t.op in ('at', 'attr', 'get', 'cp', 'cont') and (isinstance(c, ClassObj) or t.op == 'cont'):
            return t
        na = [self.reify(st, b, depth + 1, memo) if isinstance(b, T) else b for b in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            return t
        return rebuild(t.op, na)

    def reify_dict(self, st, t, depth, memo):
        keys = st.heap.get((t, '$keys'))
        mp = st.heap.get((t, '$map'))
        if mp is not None:
            return self.reify(st, mp, depth + 1, memo)
        out = []
        if keys is not None and keys.op == 'seq':
            for k in keys.args:
                v = self.read(st, t, '[' + repr(k.args[0]) + ']', UNDEF)
                out.append(tup(k, self.reify(st, v, depth + 1, memo)))
        out.sort(key=lambda x: repr(x.args[0].args[0]))
        return mk('dict', *out)

    # ------------------------------------------------------------ merging
    def merge2(self, c, s1, s2, pc=None):
        """state equal to s1 when c holds, s2 otherwise"""
        if pc is None:
            pc = or_(s1.pc, s2.pc)
        if c is TRUE:
            r = s1.copy(); r.pc = pc
            return r
        if c is FALSE:
            r = s2.copy(); r.pc = pc
            return r
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for k, v1 in h1.items():
            v2 = h2.get(k)
            if v2 is v1:
                heap[k] = v1
            elif v2 is None:
                v2 = self.read(s2, k[0], k[1], UNDEF)
                heap[k] = self.mergeval(c, v1, v2, s1, s2, heap)
            else:
                heap[k] = self.mergeval(c, v1, v2, s1, s2, heap)
        for k, v2 in h2.items():
            if k not in h1:
                v1 = self.read(s1, k[0], k[1], UNDEF)
                heap[k] = self.mergeval(c, v1, v2, s1, s2, heap)
        if s1.fams is s2.fams or s1.fams == s2.fams:
            fams = s1.fams
        else:
            n = 0
            while n < len(s1.fams) and n < len(s2.fams) and s1.fams[n] is s2.fams[n]:
                n += 1
            fams = list(s1.fams[:n])
            for f in s1.fams[n:]:
                fams.append(Fam(f.field, f.binders, f.ptr, f.value, and_(c, f.cond)))
            for f in s2.fams[n:]:
                fams.append(Fam(f.field, f.binders, f.ptr, f.value, and_(not_(c), f.cond)))
            fams = tuple(fams)
        return State(heap, fams, pc)

    def mergeval(self, c, v1, v2, s1, s2, heap):
        return ite(c, v1, v2)

    def merge_many(self, items):
        """items: [(state, value)] mutually exclusive by state.pc -> (state, value)"""
        if not items:
            return None, UNDEF
        if len(items) == 1:
            return items[0]
        conj = []
        for s, v in items:
            conj.append(set(s.pc.args) if s.pc.op == 'and' else {s.pc})
        common = set.intersection(*conj)
        st, val = items[-1]
        pcs = [items[-1][0].pc]
        for k in range(len(items) - 2, -1, -1):
            s, v = items[k]
            cond = and_(*[x for x in sorted(conj[k], key=lambda t: t.id) if x not in common]) if True else s.pc
            pcs.append(s.pc)
            merged = self.merge2(cond, s, st, pc=TRUE)
            val = ite(cond, v, val) if (v is not None and val is not None) else val
            st = merged
        st.pc = or_(*pcs)
        return st, val

    # ------------------------------------------------------------ functions
    def funcobj(self, node, module, qual, cls=None):
        k = id(node)
        if k not in self.funcs:
            self.funcs[k] = FuncObj(node, module, qual, cls)
        return self.funcs[k]

    def mkfn(self, node, module, qual, frame, st, fr, cls=None):
        fo = self.funcobj(node, module, qual, cls)
        a = node.args
        one = self.default_once if frame is None else self.eval
        defs = [one(d, st, fr) for d in a.defaults]
        kwd = [one(d, st, fr) if d is not None else UNDEF for d in a.kw_defaults]
        return mk('fn', fo, frame if frame is not None else NONE, tup(*defs), tup(*kwd))

    def default_once(self, d, st, fr):
        """a default value is evaluated once, so a mutable one is shared by all calls"""
        if not isinstance(d, (ast.Dict, ast.List, ast.Set)):
            return self.eval(d, st, fr)
        h = self.defaults.get(id(d))
        if h is None:
            b4 = dict(st.heap)
            v = self.eval(d, st, fr)
            h = self.defaults[id(d)] = (v, {k: x for k, x in st.heap.items() if k not in b4})
        v, init = h
        for k, x in init.items():
            if k not in st.heap:
                st.heap[k] = x
        return v

    def method_fn(self, cls, node, st):
        fr = Frame(None, cls.module, None, cls)
        return self.mkfn(node, cls.module, cls.qual + '.' + node.name, None, st, fr, cls)

    @staticmethod
    def deco(node):
        return [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]

    def call_fn(self, fn, args, kwargs, st, node=None, starkw=None):
        fo = fn.args[0]
        n = fo.node
        h = self.intercepts.get(fo.qual)
        if h is None and self.intercepts:
            q = fo.qual.split('.')
            h = self.intercepts.get('.'.join(q[-2:]) if fo.cls is not None else q[-1])
        if h is not None:
            r = h(self, st, args, kwargs)
            if r is not None:
                return r
        self.ncalls += 1
        if self.ncalls > 400000:
            raise AnalysisError('analysis budget exceeded')
        self.funcs_seen[fo.qual] = self.funcs_seen.get(fo.qual, 0) + 1
        if self.depth > self.MAXDEPTH or sum(1 for f in self.callstack if f is fo) > self.maxrec:
            return mk('opaque', 'recursion', const(fo.qual), *[self.reify(st, a) for a in args])
        frame = self.alloc('frame', 'frame')
        if fn.args[1] is not NONE:
            self.parents[frame.args[0]] = fn.args[1]
        a = n.args
        params = [p.arg for p in a.posonlyargs + a.args]
        bind = {}
        pos = list(args)
        kw = dict(kwargs)
        for k, p in enumerate(params):
            if k < len(pos):
                bind[p] = pos[k]
            elif p in kw:
                bind[p] = kw.pop(p)
        extra = pos[len(params):]
        if a.vararg:
            bind[a.vararg.arg] = tup(*extra)
        elif extra:
            self.raise_(st, const('TypeError'), node, 'too many arguments for ' + fo.qual)
            return mk('opaque', 'arity', const(fo.qual))
        defs = fn.args[2].args
        for k, p in enumerate(params):
            if p not in bind:
                j = k - (len(params) - len(defs))
                if 0 <= j < len(defs):
                    bind[p] = defs[j]
                else:
                    self.raise_(st, const('TypeError'), node, 'missing argument %s for %s' % (p, fo.qual))
                    return mk('opaque', 'arity', const(fo.qual))
        for k, p in enumerate(a.kwonlyargs):
            if p.arg in kw:
                bind[p.arg] = kw.pop(p.arg)
            else:
                bind[p.arg] = fn.args[3].args[k]
        if a.kwarg:
            d = self.alloc('dict', 'kw')
            if starkw is not None and not kw:
                bind[a.kwarg.arg] = starkw
            else:
                st.heap[(d, '$keys')] = seq(*[const(k) for k in kw])
                for k, v in kw.items():
                    st.heap[(d, '[' + repr(k) + ']')] = v
                bind[a.kwarg.arg] = d
        elif kw:
            self.raise_(st, const('TypeError'), node, 'unexpected keyword for ' + fo.qual)
            return mk('opaque', 'arity', const(fo.qual))
        for p, v in bind.items():
            st.heap[(frame, 'v:' + p)] = v
        fr = Frame(frame, fo.module, fo, fo.cls)
        pc0 = st.pc
        st2 = st.copy()
        st2.pc = TRUE
        self.depth += 1
        self.callstack.append(fo)
        self.raises.append([])
        gen = None
        if fo.is_gen:
            gen = self.new_list(st2, EMPTY)
            st2.heap[(frame, '$gen')] = gen
        try:
            if isinstance(n, ast.Lambda):
                v = self.eval(n.body, st2, fr)
                items = [(st2, v)]
            else:
                out = self.exec_block(n.body, st2, fr)
                items = out.rets
                if out.norm is not None:
                    items = items + [(out.norm, NONE)]
        finally:
            self.depth -= 1
            self.callstack.pop()
            rs = self.raises.pop()
        rc = FALSE
        for r in rs:
            self.raises[-1].append(Raise(and_(pc0, r.pc), r.exc, r.node, r.state, r.where))
            rc = or_(rc, r.pc)
        if not items:
            # never returns normally
            st.pc = FALSE
            return UNDEF
        ms, val = self.merge_many(items)
        st.heap, st.fams = ms.heap, ms.fams
        st.pc = and_(pc0, not_(rc)) if rc is not FALSE else pc0
        if frame.args[0] not in self.captured:
            for k in [k for k in st.heap if k[0] is frame]:
                del st.heap[k]
        if gen is not None:
            return gen
        return val

    def raise_(self, st, exc, node, msg=''):
        self.raises[-1].append(Raise(st.pc, exc, node, st.copy(), '%s:%s %s' % (
            self.curfile(), getattr(node, 'lineno', '?'), msg)))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        out = Flow()
        cur = st
        for s in stmts:
            if cur is None or cur.pc is FALSE:
                cur = None
                break
            f = self.exec_stmt(s, cur, fr)
            out.absorb(f)
            cur = f.norm
        if cur is not None and cur.pc is FALSE:
            cur = None
        out.norm = cur
        return out

    def exec_stmt(self, s, st, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('unsupported statement %s at %s:%d' % (type(s).__name__, fr.module.path, s.lineno))
        return m(s, st, fr)

    def x_Pass(self, s, st, fr):
        return Flow(st)

    x_Import = x_Global = x_Nonlocal = x_Pass

    def x_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st.heap[(fr.ref, 'v:' + nm)] = mk('mod', a.name if a.asname else nm)
        return Flow(st)

    def x_ImportFrom(self, s, st, fr):
        base = fr.module._rel(s)
        for a in s.names:
            st.heap[(fr.ref, 'v:' + (a.asname or a.name))] = self.module_name(base, a.name, st)
        return Flow(st)

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, (ast.Constant,)):
            return Flow(st)
        self.eval(s.value, st, fr)
        return Flow(st)

    def x_Assert(self, s, st, fr):
        return Flow(st)

    def x_FunctionDef(self, s, st, fr):
        qual = (fr.func.qual if fr.func else fr.module.name) + '.' + s.name
        fn = self.mkfn(s, fr.module, qual, fr.ref, st, fr, fr.cls)
        self.captured.add(fr.ref.args[0])
        st.heap[(fr.ref, 'v:' + s.name)] = fn
        return Flow(st)

    def x_ClassDef(self, s, st, fr):
        st.heap[(fr.ref, 'v:' + s.name)] = mk('cls', self.prog.cls(fr.module, s))
        return Flow(st)

    def x_Return(self, s, st, fr):
        v = NONE if s.value is None else self.eval(s.value, st, fr)
        f = Flow(None)
        if st.pc is not FALSE:
            f.rets.append((st, v))
        return f

    def x_Break(self, s, st, fr):
        f = Flow(None)
        f.brks.append(st)
        return f

    def x_Continue(self, s, st, fr):
        f = Flow(None)
        f.conts.append(st)
        return f

    def x_Raise(self, s, st, fr):
        e = NONE
        if s.exc is not None:
            x = s.exc
            if isinstance(x, ast.Call):
                x = x.func
            e = const(ast.unparse(x))
        self.raise_(st, e, s, 'raise')
        return Flow(None)

    def x_If(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        return self.branch(c, st, fr, lambda x: self.exec_block(s.body, x, fr),
                           lambda x: self.exec_block(s.orelse, x, fr))

    def branch(self, c, st, fr, f1, f2):
        c = self.under_pc(c, st.pc)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        pc = st.pc
        s1, s2 = st.copy(), st
        p1, p2 = and_(pc, c), and_(pc, not_(c))
        s1.pc, s2.pc = p1, p2
        a = f1(s1)
        b = f2(s2)
        out = Flow()
        out.absorb(a)
        out.absorb(b)
        if a.norm is None:
            out.norm = b.norm
        elif b.norm is None:
            out.norm = a.norm
        else:
            if a.norm.pc is p1 and b.norm.pc is p2:
                npc = pc
            else:
                # normal completion: original pc minus what left
                npc = or_(a.norm.pc, b.norm.pc)
            out.norm = self.merge2(c, a.norm, b.norm, pc=npc)
        return out

    def under_pc(self, c, pc):
        if pc is TRUE:
            return c
        r = assume(c, pc, True)
        return r

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return Flow(st)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return Flow(st)

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                i = self.eval_index(t.slice, st, fr)
                if self.class_of(o) == 'list':
                    self.write(st, o, '$', self.lib.delete_idx(self, self.V(st, o), i), s)
                elif self.class_of(o) == 'dict':
                    self.lib.dict_pop(self, st, o, i)
            elif isinstance(t, ast.Name):
                st.heap.pop((fr.ref, 'v:' + t.id), None)
        return Flow(st)

    def x_AugAssign(self, s, st, fr):
        # evaluate target location once
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fr)
            rhs = self.eval(s.value, st, fr)
            new = self.augop(op, cur, rhs, st, s)
            if new is not None:
                self.assign(t, new, st, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st, fr)
            cur = self.get_attr(obj, t.attr, st, s)
            rhs = self.eval(s.value, st, fr)
            new = self.augop(op, cur, rhs, st, s)
            if new is not None:
                self.set_attr(obj, t.attr, new, st, s)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, st, fr)
            idx = self.eval_index(t.slice, st, fr)
            cur = self.lib.getitem(self, st, obj, idx, s)
            rhs = self.eval(s.value, st, fr)
            new = self.augop(op, cur, rhs, st, s)
            if new is not None:
                self.store_sub(t, obj, idx, new, st, fr)
        return Flow(st)

    def augop(self, op, cur, rhs, st, node):
        c = self.class_of(cur)
        if c == 'list' and op == 'Add':
            self.write(st, cur, '$', cat(self.V(st, cur), self.lib.as_seq(self, st, rhs)), node)
            return None
        if c == 'ndarray' and op in ('Add', 'Sub', 'Mult', 'Div'):
            self.write(st, cur, '$', self.V(st, self.binop(op, cur, rhs, st, node)), node)
            return None
        if isinstance(c, ClassObj):
            d = {'Add': '__iadd__', 'Mult': '__imul__', 'LShift': '__ilshift__', 'RShift': '__irshift__'}.get(op)
            if d and c.find(d)[0] is not None:
                return self.call_method(cur, d, [rhs], {}, st, node)
        return self.binop(op, cur, rhs, st, node)

    # assignment -------------------------------------------------------------
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.heap[(fr.ref, 'v:' + t.id)] = v
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st, fr)
            self.set_attr(obj, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, st, fr)
            idx = self.eval_index(t.slice, st, fr)
            self.store_sub(t, obj, idx, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.V(st, v)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            for k, e in enumerate(t.elts):
                if star and k == star[0]:
                    rest = self.new_list(st, slice_(vv, num(k), num(k - n + 1) if k - n + 1 < 0 else NONE))
                    self.assign(e.value, rest, st, fr)
                elif star and k > star[0]:
                    self.assign(e, at(vv, num(k - n)), st, fr)
                else:
                    self.assign(e, self.unpack_at(vv, k, n, st), st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise AnalysisError('assignment target ' + type(t).__name__)

    def unpack_at(self, v, k, n, st):
        if v.op == 'ite':
            return ite(v.args[0], self.unpack_at(self.V(st, v.args[1]), k, n, st),
                       self.unpack_at(self.V(st, v.args[2]), k, n, st))
        return at(v, num(k))

    def set_attr(self, obj, name, v, st, node):
        if obj.op == 'cls':
            return
        c = self.class_of(obj)
        if isinstance(c, ClassObj):
            dc, d = c.find(name)
            if d is not None and isinstance(d, ast.FunctionDef) and (name + '.setter') in self.deco(d):
                self.call_fn(self.method_fn(dc, d, st), [obj, v], {}, st, node)
                return
        if obj.op == 'ite':
            for k, cc in ((1, obj.args[0]), (2, not_(obj.args[0]))):
                o = obj.args[k]
                self.set_attr(o, name, ite(cc, v, self.read(st, o, name, UNDEF)), st, node)
            return
        if self.mutations is not None:
            self.mutations.append((obj, name, self.curfile(), getattr(node, 'lineno', 0)))
        self.write(st, obj, name, v, node)

    def store_sub(self, t, obj, idx, v, st, fr):
        c = self.class_of(obj)
        if c == 'dict' or (obj.op in ('attr', 'at') and c == 'dict'):
            self.lib.dict_set(self, st, obj, idx, v)
            return
        if isinstance(c, ClassObj) and c.find('__setitem__')[0] is not None:
            self.call_method(obj, '__setitem__', [idx, v], {}, st, t)
            return
        if isinstance(c, ClassObj) and 'dict' in c.ext_bases():
            self.lib.dict_set(self, st, obj, idx, v)
            return
        if c in ('list', 'ndarray'):
            if self.mutations is not None:
                self.mutations.append((obj, '$', self.curfile(), getattr(t, 'lineno', 0)))
            self.write(st, obj, '$', self.lib.setitem(self, st, self.V(st, obj), idx, v), t)
            return
        # raw value: box it where it lives
        new = self.lib.setitem(self, st, self.V(st, obj), idx, v)
        if obj.op in ('ref', 'ite') and any(self.class_of(o) in ('list', 'ndarray') for o in
                                            (obj.args[1:] if obj.op == 'ite' else ())):
            cnd = obj.args[0]
            for k, cc in ((1, cnd), (2, not_(cnd))):
                o = obj.args[k]
                if self.class_of(o) in ('list', 'ndarray'):
                    old = self.V(st, o)
                    self.write(st, o, '$', ite(cc, self.lib.setitem(self, st, old, idx, v), old), t)
            return
        if self.mutations is not None:
            self.mutations.append((obj, '$', self.curfile(), getattr(t, 'lineno', 0)))
        box = self.new_array(st, new)
        tgt = t.value
        if isinstance(tgt, (ast.Name, ast.Attribute, ast.Subscript)):
            self.assign(tgt, box, st, fr)

    # try / with -------------------------------------------------------------
    def x_Try(self, s, st, fr):
        entry = st.copy()
        self.raises.append([])
        ncall0 = len(self.trace_calls)
        out = self.exec_block(s.body, st, fr)
        rs = self.raises.pop()
        if out.norm is not None and s.orelse:
            o2 = self.exec_block(s.orelse, out.norm, fr)
            out.absorb(o2)
            out.norm = o2.norm
        handled = Flow()
        items = []
        for h in s.handlers:
            types = [] if h.type is None else \
                [ast.unparse(e) for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            matched, keep = [], []
            for r in rs:
                nm = r.exc.args[0] if r.exc.op == 'const' else None
                (matched if (not types or 'Exception' in types or 'BaseException' in types or nm in types)
                 else keep).append(r)
            rs = keep
            for r in matched:
                hs = r.state.copy()
                hs.pc = r.pc
                if h.name:
                    hs.heap[(fr.ref, 'v:' + h.name)] = mk('opaque', 'exception')
                o = self.exec_block(h.body, hs, fr)
                handled.absorb(o)
                if o.norm is not None:
                    items.append((o.norm, None))
            # implicit library exceptions
            self.nexc = getattr(self, 'nexc', 0)
            lbl = mk('exc', const('|'.join(types)), const(ast.dump(ast.Module(s.body, []))[:0]),
                     const(self.curfn_qual() + ':' + '|'.join(types)))
            hs = entry.copy()
            hs.pc = and_(entry.pc, lbl)
            if h.name:
                hs.heap[(fr.ref, 'v:' + h.name)] = mk('opaque', 'exception')
            o = self.exec_block(h.body, hs, fr)
            # returns under the implicit exception come first
            handled.absorb(o)
            if o.norm is not None:
                items.append((o.norm, None))
            nl = not_(lbl)
            if out.norm is not None:
                out.norm.pc = and_(out.norm.pc, nl)
            for (rst, v) in out.rets:
                rst.pc = and_(rst.pc, nl)
        for r in rs:
            self.raises[-1].append(r)
        out.absorb(handled)
        if out.norm is not None:
            items.append((out.norm, None))
        if items:
            ms = items[-1][0]
            for k in range(len(items) - 2, -1, -1):
                sk = items[k][0]
                ms = self.merge2(self.relpc(sk.pc, entry.pc), sk, ms, pc=or_(sk.pc, ms.pc))
            # exceptions labels do not constrain what follows
            if not any(r.pc is not FALSE for r in rs) and not out.rets:
                ms.pc = entry.pc
            out.norm = ms
        if s.finalbody:
            if out.norm is not None:
                o3 = self.exec_block(s.finalbody, out.norm, fr)
                out.absorb(o3)
                out.norm = o3.norm
            newr = []
            for (rst, v) in out.rets:
                o3 = self.exec_block(s.finalbody, rst, fr)
                if o3.norm is not None:
                    newr.append((o3.norm, v))
                out.rets = out.rets
            out.rets = newr if newr else out.rets
        return out

    def curfn_qual(self):
        return self.callstack[-1].qual if self.callstack else '?'

    @staticmethod
    def relpc(pc, base):
        cb = set(base.args) if base.op == 'and' else {base}
        cp = list(pc.args) if pc.op == 'and' else [pc]
        return and_(*[x for x in cp if x not in cb])

    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    # loops --------------------------------------------------------------
    def x_For(self, s, st, fr):
        itv = self.eval(s.iter, st, fr)
        sq = self.iter_seq(itv, st, s)
        if sq is None:
            r = self.proto_iter(s, itv, st, fr)
            if r is not None:
                return r
            # iterator protocol on an object: opaque loop driven by an unknown number of __next__ results
            return self.opaque_iter(s, itv, st, fr)
        return self.loop_over(sq, lambda elem, x: self.assign(s.target, elem, x, fr),
                              s.body, s.orelse, st, fr, s)

    def iter_seq(self, v, st, node):
        c = self.class_of(v)
        if c in ('list', 'ndarray', 'deque'):
            return self.V(st, v)
        if c == 'matrix':
            return self.lib.mat_iter(self, st, v)
        if c == 'dict':
            return self.lib.dict_keys(self, st, v)
        if isinstance(c, ClassObj):
            if 'list' in c.ext_bases():
                return self.read(st, v, '$', EMPTY)
            if 'dict' in c.ext_bases():
                return self.lib.dict_keys(self, st, v)
            if c.find('__iter__')[0] is not None:
                return None
            return None
        if v.op == 'ite':
            a = self.iter_seq(v.args[1], st, node)
            b = self.iter_seq(v.args[2], st, node)
            if a is None or b is None:
                return None
            return ite(v.args[0], a, b)
        if v.op in ('mkmap', 'setkey'):
            return self.lib.map_keys(self, v)
        if v.op == 'const' and isinstance(v.args[0], str):
            return seq(*[const(ch) for ch in v.args[0]])
        if v.op == 'opaque':
            return v
        return v

    def proto_iter(self, s, itv, st, fr):
        """iterator protocol of a class of the program, unrolled until StopIteration is certain"""
        c = self.class_of(itv)
        if not isinstance(c, ClassObj) or c.find('__iter__')[1] is None:
            return None
        it = self.call_method(itv, '__iter__', [], {}, st, s)
        c = self.class_of(it)
        if not isinstance(c, ClassObj) or c.find('__next__')[1] is None:
            return None
        out, cur, ends, brk = Flow(), st, [], []
        for rnd in range(40):
            self.raises.append([])
            v = self.call_method(it, '__next__', [], {}, cur, s)
            rs = self.raises.pop()
            for r in rs:
                if r.exc.op == 'const' and r.exc.args[0] == 'StopIteration':
                    e = r.state.copy()
                    e.pc = r.pc
                    # the frame of the loop is the one at the call
                    for k, x in cur.heap.items():
                        if k[0] is fr.ref:
                            e.heap[k] = x
                    ends.append(e)
                else:
                    self.raises[-1].append(r)
            if cur.pc is FALSE:
                cur = None
                break
            self.assign(s.target, v, cur, fr)
            f = self.exec_block(s.body, cur, fr)
            out.rets += f.rets
            brk += f.brks
            items = [(x, None) for x in f.conts] + ([(f.norm, None)] if f.norm is not None else [])
            cur = self.merge_many(items)[0] if items else None
            if cur is None or cur.pc is FALSE:
                break
        else:
            raise AnalysisError('iteration over %s does not end within the unrolling bound' % c.name)
        items = [(x, None) for x in ends]
        cur = self.merge_many(items)[0] if items else None
        if cur is not None and s.orelse:
            f = self.exec_block(s.orelse, cur, fr)
            out.absorb(f)
            cur = f.norm
        items = [(x, None) for x in brk] + ([(cur, None)] if cur is not None else [])
        out.norm = self.merge_many(items)[0] if items else None
        return out

    def opaque_iter(self, s, itv, st, fr):
        elem = mk('opaque', 'iterator', itv)
        n = mk('sym', 'niter', 'nat')
        bv = fresh_bv()
        sq = tab(n, bv, mk('next', itv, bv))
        return self.loop_over(sq, lambda e, x: self.assign(s.target, e, x, fr), s.body, s.orelse, st, fr, s)

    def loop_over(self, sq, bind, body, orelse, st, fr, node):
        """execute body for each element of the sequence term"""
        if sq.op == 'ite':
            c = sq.args[0]
            return self.branch(c, st, fr,
                               lambda x: self.loop_over(sq.args[1], bind, body, orelse, x, fr, node),
                               lambda x: self.loop_over(sq.args[2], bind, body, orelse, x, fr, node))
        out = Flow()
        cur = st
        brk = []
        segs = sq.args if sq.op == 'cat' else self.split_range(sq)
        for seg in segs:
            if cur is None:
                break
            if seg.op in ('seq', 'tup'):
                for e in seg.args:
                    if cur is None:
                        break
                    bind(e, cur)
                    f = self.exec_block(body, cur, fr)
                    out.rets += f.rets
                    brk += f.brks
                    items = [(x, None) for x in f.conts] + ([(f.norm, None)] if f.norm is not None else [])
                    cur = self.merge_many(items)[0] if items else None
            else:
                cur, b2 = self.sym_loop(seg, bind, body, cur, fr, out, node)
                brk += b2
        if cur is not None and orelse:
            f = self.exec_block(orelse, cur, fr)
            out.absorb(f)
            cur = f.norm
        items = [(x, None) for x in brk] + ([(cur, None)] if cur is not None else [])
        out.norm = self.merge_many(items)[0] if items else None
        return out

    def split_range(self, sq):
        """a range over the length of joined sequences is looped over part by part"""
        if sq.op == 'tab' and sq.args[0] in self.len_cats and sq.args[2] is sq.args[1]:
            out, off = [], ZERO
            for n in self.len_cats[sq.args[0]]:
                if n.op == 'num':
                    out.append(seq(*[add(off, num(j)) for j in range(int(n.args[0]))]))
                else:
                    b = fresh_bv()
                    out.append(tab(n, b, add(off, b)))
                off = add(off, n)
            return out
        return (sq,)

    def sym_loop(self, sq, bind, body, st, fr, out, node):
        n = slen(sq)
        return self.counted(n, lambda bv, x: bind(at(sq, bv), x), body, st, fr, out, node)

    def loc_changed(self, s0, s1, bv, alloc0):
        """locations outside the body whose value changed between s0 and s1"""
        out = []
        for k, v in s1.heap.items():
            if s0.heap.get(k) is v:
                continue
            ptr, f = k
            if bv in ptr.fbv:
                continue
            if ptr.op == 'ref' and self.refnum(ptr) > alloc0:
                continue
            if ptr.op == 'ref' and self.refcls.get(ptr.args[0]) == 'frame' and k not in s0.heap and f != '$gen' \
                    and False:
                continue
            out.append(k)
        return out

    @staticmethod
    def refnum(ptr):
        nm = ptr.args[0]
        if '#' in nm:
            try:
                return int(nm.rsplit('#', 1)[1])
            except ValueError:
                return -1
        return -1

    def run_body(self, st, carried, lid, bindf, bv, body, fr, pre=None, boxes=None):
        """one abstract execution of the loop body with carried locations as loop-in symbols"""
        s0 = st.copy()
        for k in carried:
            s0.heap[k] = mk('lin', lid, carried[k])
        for k, b in (boxes or {}).items():
            s0.heap[k] = b
        s0.pc = TRUE
        s1 = s0.copy()
        self.raises.append([])
        self.bvstack.append(bv)
        try:
            bindf(bv, s1)
            pre_flow = None
            if pre is not None:
                pre_flow = pre(s1)
                s1 = pre_flow
            f = self.exec_block(body, s1, fr) if s1 is not None else Flow(None)
        finally:
            self.bvstack.pop()
            rs = self.raises.pop()
        return s0, f, rs

    def counted(self, n, bindf, body, st, fr, out, node, head_break=None):
        """loop with bound index bv in [0, n)"""
        self.nloop += 1
        lid = 'L%d' % self.nloop
        if n is ZERO:
            return st, []
        bv = fresh_bv()
        tm.BV_BOUND[bv] = n
        carried = {}
        boxes = {}
        alloc0 = self.nref
        for rnd in range(10):
            extra_brk = []

            def pre(s1):
                if head_break is None:
                    return s1
                c = head_break(s1)
                if c is FALSE:
                    return s1
                b = s1.copy()
                b.pc = and_(s1.pc, c)
                extra_brk.append(b)
                s1.pc = and_(s1.pc, not_(c))
                return s1
            s0, f, rs = self.run_body(st, carried, lid, bindf, bv, body, fr, pre, boxes)
            states = list(f.conts) + ([f.norm] if f.norm is not None else [])
            ends = states + extra_brk + f.brks + [x for x, _ in f.rets]
            self.unbox(ends, boxes)
            new = []
            for e in ends:
                for k in self.loc_changed(s0, e, bv, alloc0):
                    if k not in carried and k not in new:
                        new.append(k)
            # loop-in symbols for locations re-read through families
            if not new:
                nb = self.boxable(st, ends, carried, boxes, bv, alloc0) if not boxes and rnd < 8 else {}
                if not nb:
                    break
                # an array location rebound to a fresh array in every iteration: carry its content
                for k, (cl_, v0) in nb.items():
                    b = self.new_list(st, v0, cl_, 'box')
                    boxes[k] = b
                    del carried[k]
                    carried[(b, '$')] = 100 + len(boxes)
                    rk = self.ranks.get(v0)
                    if rk is None:
                        from . import lib
                        rk = lib.rank(self, v0)
                    self.ranks[mk('lin', lid, carried[(b, '$')])] = rk
                alloc0 = self.nref
                continue
            for k in new:
                carried[k] = len(carried)
        brks = extra_brk + list(f.brks)
        if states:
            end = self.merge_many([(x, None) for x in states])[0]
        else:
            end = None
        keys = sorted(carried, key=lambda k: carried[k])
        inits = {k: st.heap.get(k, None) for k in keys}
        for k in keys:
            if inits[k] is None:
                inits[k] = self.read(st, k[0], k[1], UNDEF)
        # values at the end of an iteration
        bodies = {}
        for k in keys:
            bodies[k] = end.heap.get(k, UNDEF) if end is not None else UNDEF
        lins = {k: mk('lin', lid, carried[k]) for k in keys}
        closed, exits = self.solve(lid, n, bv, keys, lins, inits, bodies)
        sub_closed = {lins[k]: closed[k] for k in keys}

        def cl(t, at_bv=None):
            r = subst(t, sub_closed) if sub_closed else t
            if at_bv is not None:
                r = subst(r, {bv: at_bv})
            return r
        # exits through break / return
        exit_conds = []
        for b in brks:
            exit_conds.append(cl(b.pc))
        for x, _ in f.rets:
            exit_conds.append(cl(x.pc))
        rcond = FALSE
        for r in rs:
            rcond = or_(rcond, cl(r.pc))
        leave = or_(*exit_conds) if exit_conds else FALSE
        anyexit = any_(n, bv, leave)
        k1 = first_(n, bv, leave) if leave is not FALSE else None
        if rcond is not FALSE:
            # a raise in iteration i happens when no earlier iteration left
            rc = any_(n, bv, rcond) if leave is FALSE else and_(any_(n, bv, rcond), mk('sym', 'r' + lid, 'bool')) \
                if leave is not FALSE and not self.excl(leave, rcond) else any_(n, bv, rcond)
            for r in rs:
                self.raises[-1].append(Raise(and_(st.pc, any_(n, bv, cl(r.pc))), r.exc, r.node, r.state, r.where))
        # normal exhaustion
        res = st.copy()
        for k in keys:
            v = exits[k]
            if v is UNDEF:
                res.heap.pop(k, None)
            else:
                res.heap[k] = v
        for k, b in boxes.items():
            res.heap[k] = b
        fams = self.families(s0, end, bv, n, cl, alloc0) if end is not None else []
        res.fams = res.fams + tuple(fams)
        if rcond is not FALSE:
            res.pc = and_(res.pc, not_(any_(n, bv, rcond)))
        brk_states = []
        if leave is not FALSE:
            nn = k1
            for b in brks:
                bs = self.inst_state(st, b, bv, k1, cl, keys, alloc0, s0, n)
                bs.pc = and_(st.pc, anyexit, subst(cl(b.pc), {bv: k1}) if len(exit_conds) > 1 else TRUE)
                if fams:
                    bs.fams = st.fams + tuple(self.families(s0, end, bv, k1, cl, alloc0))
                brk_states.append(bs)
            for x, v in f.rets:
                bs = self.inst_state(st, x, bv, k1, cl, keys, alloc0, s0, n)
                bs.pc = and_(st.pc, anyexit, subst(cl(x.pc), {bv: k1}) if len(exit_conds) > 1 else TRUE)
                out.rets.append((bs, subst(cl(v), {bv: k1})))
            res.pc = and_(res.pc, not_(anyexit))
        if res.pc is FALSE:
            return None, brk_states
        return res, brk_states

    def unbox(self, ends, boxes):
        for e in ends:
            for k, b in boxes.items():
                v = e.heap.get(k)
                if v is not None and v is not b:
                    e.heap[(b, '$')] = self.V(e, v)
                    e.heap[k] = b

    def boxable(self, st, ends, carried, boxes, bv, alloc0):
        out = {}
        for k in carried:
            if k[1] == '$' or k in boxes:
                continue
            i0 = st.heap.get(k)
            if i0 is None:
                i0 = self.read(st, k[0], k[1], UNDEF)
            if i0 is UNDEF:
                continue
            c = self.class_of(i0)
            if c not in ('ndarray', 'list') or i0.op not in ('ref', 'attr', 'at', 'cp'):
                continue
            vs = [e.heap.get(k) for e in ends]
            if not vs or any(v is None for v in vs):
                continue
            ok = True
            for v in vs:
                if v.op == 'lin':
                    continue
                if v.op != 'ref' or bv not in v.fbv or self.refnum(v) < alloc0 or self.class_of(v) != c:
                    ok = False
            if ok and any(v.op == 'ref' for v in vs):
                out[k] = (c, self.V(st, i0))
        return out

    @staticmethod
    def excl(a, b):
        return and_(a, b) is FALSE

    def inst_state(self, st, b, bv, k1, cl, keys, alloc0, s0, n):
        """state of the iteration that left the loop, with the index instantiated"""
        bs = st.copy()
        for k, v in b.heap.items():
            if s0.heap.get(k) is v and k not in keys:
                continue
            ptr = subst(k[0], {bv: k1}) if bv in k[0].fbv else k[0]
            bs.heap[(ptr, k[1])] = subst(cl(v), {bv: k1})
        for k in keys:
            v = b.heap.get(k)
            if v is not None:
                bs.heap[k] = subst(cl(v), {bv: k1})
        return bs

    def families(self, s0, end, bv, n, cl, alloc0):
        fams = []
        for k, v in end.heap.items():
            ptr, f = k
            if bv not in ptr.fbv:
                continue
            if s0.heap.get(k) is v:
                continue
            if ptr.op == 'ref' and self.refcls.get(ptr.args[0]) == 'frame' and ptr.args[0] not in self.captured:
                continue
            fams.append(Fam(f, [(n, bv)], ptr, cl(v)))
        base = len(s0.fams)
        for g in end.fams[base:]:
            if bv in g.ptr.fbv or any(bv in nn.fbv for nn, _ in g.binders):
                fams.append(Fam(g.field, g.binders + [(n, bv)], g.ptr, cl(g.value), cl(g.cond)))
            elif bv in cl(g.value).fbv or bv in cl(g.cond).fbv:
                fams.append(Fam(g.field, g.binders, g.ptr, mk('opaque', 'loop-carried element'), g.cond))
            else:
                # same element written each iteration with an iteration-independent value
                gv = cl(g.value)
                if mentions(gv, lambda x: x.op == 'lin'):
                    gv = mk('opaque', 'loop-carried element')
                fams.append(Fam(g.field, g.binders, g.ptr, gv, and_(g.cond, pos(n))))
        return fams

    # recurrence solving ---------------------------------------------------
    def solve(self, lid, n, bv, keys, lins, inits, bodies):
        closed, exits = {}, {}
        pend = list(keys)
        bod = dict(bodies)

        def islin(t):
            return t.op == 'lin' and t.args[0] == lid

        def haslin(t):
            return mentions(t, islin)

        progress = True
        while pend and progress:
            progress = False
            for k in list(pend):
                b, l, i0 = bod[k], lins[k], inits[k]
                r = None
                if b is l:
                    r = (i0, i0)
                elif b is UNDEF:
                    r = (i0, i0)
                else:
                    r = self.recur(n, bv, b, l, i0, haslin)
                if r is None:
                    continue
                closed[k], exits[k] = r
                pend.remove(k)
                progress = True
                m = {l: closed[k]}
                for k2 in pend:
                    bod[k2] = subst(bod[k2], m)
                for k2 in closed:
                    if k2 is not k:
                        closed[k2] = subst(closed[k2], m)
                        exits[k2] = exits[k2]
        if pend:
            # group fold
            d = len(pend)
            h = 0
            for k in pend:
                h = max(h, bod[k].height)
            fid = 'A%d' % h
            m = {lins[k]: mk('acc', fid, j) for j, k in enumerate(pend)}
            bs = [subst(bod[k], m) for k in pend]
            for j, k in enumerate(pend):
                ii = [inits[q] for q in pend]
                exits[k] = self.mkfold(n, bv, j, ii, bs)
                b2 = fresh_bv()
                closed[k] = self.mkfold(bv, b2, j, ii, [subst(b, {bv: b2}) for b in bs])
            m2 = {lins[k]: closed[k] for k in pend}
            for k in keys:
                if k not in pend:
                    closed[k] = subst(closed[k], m2)
        return closed, exits

    @staticmethod
    def mkfold(n, bv, j, inits, bodies):
        # prune components the j-th does not depend on
        need = {j}
        todo = [j]
        while todo:
            x = todo.pop()
            for s in subterms(bodies[x]):
                if s.op == 'acc' and s.args[1] < len(bodies) and s.args[1] not in need:
                    need.add(s.args[1])
                    todo.append(s.args[1])
        order = [j] + sorted(need - {j})
        h = 0
        for x in order:
            h = max(h, bodies[x].height)
        ren = {}
        accs = {s for x in order for s in subterms(bodies[x]) if s.op == 'acc'}
        fids = {s.args[0] for s in accs}
        for q, x in enumerate(order):
            for fid in fids:
                ren[mk('acc', fid, x)] = mk('acc', 'A%d' % h, q)
        bs = [subst(bodies[x], ren) for x in order]
        return mk_binder('fold', n, bv, const(len(order)), *([inits[x] for x in order] + bs))

    def recur(self, n, bv, b, l, i0, haslin):
        """closed form (value at the start of iteration bv) and exit value of x' = b(x)"""
        if not haslin(b):
            bprev = subst(b, {bv: sub(bv, ONE)})
            cl = ite(pos(bv), bprev, i0) if i0 is not UNDEF else bprev
            if bv not in b.fbv:
                cl = ite(pos(bv), b, i0) if i0 is not UNDEF else b
            ex = ite(pos(n), subst(b, {bv: sub(n, ONE)}), i0) if i0 is not UNDEF else subst(b, {bv: sub(n, ONE)})
            return cl, ex
        # list append / extend
        if b.op == 'cat' and b.args[0] is l and not any(haslin(x) for x in b.args[1:]):
            e = cat(*b.args[1:])
            return cat(i0, self.flat(bv, e, bv)), cat(i0, self.flat(n, e, bv))
        if b.op == 'cat' and b.args[-1] is l and not any(haslin(x) for x in b.args[:-1]):
            e = cat(*b.args[:-1])
            if e.op == 'seq' and len(e.args) == 1:
                j = fresh_bv()
                f = lambda m: tab(m, j, subst(e.args[0], {bv: sub(sub(m, ONE), j)}))
                return cat(f(bv), i0), cat(f(n), i0)
        # taking elements off the front or the back
        if b.op == 'delat' and b.args[0] is l and b.args[1] is ZERO:
            ln = slen(i0)
            return slice_(i0, bv, ln), slice_(i0, n, ln)
        if b.op == 'slice' and b.args[0] is l and b.args[1] is ZERO and add(b.args[2], ONE) is slen(l):
            ln = slen(i0)
            return slice_(i0, ZERO, sub(ln, bv)), slice_(i0, ZERO, sub(ln, n))
        # conditional append
        if b.op == 'ite' and not haslin(b.args[0]):
            c, x, y = b.args
            if y is l:
                cc, u = c, x
            elif x is l:
                cc, u = not_(c), y
            else:
                cc = None
            if cc is not None:
                if u.op == 'cat' and u.args[0] is l and not any(haslin(z) for z in u.args[1:]):
                    e = cat(*u.args[1:])
                    if e.op == 'seq' and len(e.args) == 1:
                        f = lambda m: mk_binder('filt', m, bv, cc, e.args[0])
                        return cat(i0, f(bv)), cat(i0, f(n))
                if not haslin(u):
                    if bv not in u.fbv:
                        return ite(any_(bv, bv2(bv), subst(cc, {bv: bv2(bv)})), u, i0), ite(any_(n, bv, cc), u, i0)
                    f = lambda m: mk_binder('lastsat', m, bv, cc, u)
                    return ite(any_(bv, bv2(bv), subst(cc, {bv: bv2(bv)})),
                               f(bv), i0), ite(any_(n, bv, cc), f(n), i0)
                d = sub(u, l)
                if numeric_ok(u) and not haslin(d):
                    bb = ite(cc, d, ZERO)
                    return add(i0, psum(bv, bv, bb)), add(i0, sum_(n, bv, bb))
            else:
                # both sides append
                if x.op == 'cat' and y.op == 'cat' and x.args[0] is l and y.args[0] is l:
                    ex, ey = cat(*x.args[1:]), cat(*y.args[1:])
                    if not haslin(ex) and not haslin(ey):
                        if ex.op == 'seq' and ey.op == 'seq' and len(ex.args) == len(ey.args):
                            e = seq(*[ite(c, p, q) for p, q in zip(ex.args, ey.args)])
                        else:
                            e = ite(c, ex, ey)
                        return cat(i0, self.flat(bv, e, bv)), cat(i0, self.flat(n, e, bv))
        # pointwise update
        r = self.pointwise(n, bv, b, l, i0, haslin)
        if r is not None:
            return r
        r = self.inscols(n, bv, b, l, i0, haslin)
        if r is not None:
            return r
        # boolean accumulation
        if b.op == 'or' and l in b.args and not any(haslin(x) for x in b.args if x is not l):
            c = or_(*[x for x in b.args if x is not l])
            return or_(i0, any_(bv, bv2(bv), subst(c, {bv: bv2(bv)}))), or_(i0, any_(n, bv, c))
        if b.op == 'and' and l in b.args and not any(haslin(x) for x in b.args if x is not l):
            c = or_(*[not_(x) for x in b.args if x is not l])
            return and_(i0, not_(any_(bv, bv2(bv), subst(c, {bv: bv2(bv)})))), and_(i0, not_(any_(n, bv, c)))
        # accumulation
        if numeric_ok(b):
            d = sub(b, l)
            if not haslin(d):
                return add(i0, psum(bv, bv, d)), add(i0, sum_(n, bv, d))
            p = as_poly(b)
            if len(p) == 1:
                (m, c), = p.items()
                if (l, 1) in m:
                    q = from_poly({tuple(x for x in m if x != (l, 1)): c})
                    if not haslin(q):
                        if bv not in q.fbv:
                            return mul(i0, mk('pow', q, bv)), mul(i0, mk('pow', q, n))
                        b2 = fresh_bv()
                        return mul(i0, prod_(bv, b2, subst(q, {bv: b2}))), mul(i0, prod_(n, bv, q))
        return None

    def flat(self, m, e, bv):
        """concatenation over bv < m of the sequence e(bv)"""
        b2 = fresh_bv()
        e2 = subst(e, {bv: b2})
        if e2.op == 'seq' and len(e2.args) == 1:
            return tab(m, b2, e2.args[0])
        if e2 is EMPTY:
            return EMPTY
        return mk_binder('flat', m, b2, e2)

    def pointwise(self, n, bv, b, l, i0, haslin):
        if b.op != 'setat' or b.args[0] is not l:
            return None
        idx, v = b.args[1], b.args[2]
        if haslin(idx):
            return None
        off = sub(idx, bv)
        if bv in off.fbv:
            return None
        cur = at(l, idx)
        mark = mk('sym', 'elem', 'any')
        v2 = subst(v, {cur: mark})
        if haslin(v2):
            return None
        g = lambda base, j: subst(subst(v2, {mark: at(base, add(j, off))}), {bv: j})
        N = slen(i0)
        j = fresh_bv()

        def upto(m):
            pieces = []
            if off is not ZERO:
                pieces.append(slice_(i0, ZERO, off))
            pieces.append(tab(m, j, g(i0, j)))
            if sub(add(off, m), N) is not ZERO:
                pieces.append(slice_(i0, add(off, m), N))
            return cat(*pieces)
        return upto(bv), upto(n)

    def inscols(self, n, bv, b, l, i0, haslin):
        """y = insert(y, idx_k, col_k, axis=1) over k in sorted(zip(I, C))  ->  row-wise insertion of many"""
        if b.op != 'tab':
            return None
        N, r, body = open_binder(b)
        if body.op != 'insat' or body.args[0] is not at(l, r):
            return None
        X, Y = body.args[1], body.args[2]
        if haslin(X) or haslin(Y) or (haslin(N) and N is not slen(l)):
            return None
        if haslin(N):
            N = slen(i0)
        # consecutive positions off, off+1, ...: one block (insertion past the end raises)
        off = sub(X, bv)
        if bv not in off.fbv:
            def block(m):
                row = at(i0, r)
                k = fresh_bv()
                mid = tab(m, k, subst(Y, {bv: k}))
                if off is slen(row):
                    return tab(N, r, cat(row, mid))
                return tab(N, r, cat(slice_(row, ZERO, off), mid, slice_(row, off, slen(row))))
            return block(bv), block(n)
        # X = at(perm(Z), bv)[0]
        ps = [s for s in subterms(X) if s.op == 'perm']
        if len(ps) != 1:
            return None
        P = ps[0]
        Z = P.args[1]
        if P.args[0].args[0] != 'sorted' or X is not at(at(P, bv), ZERO):
            return None
        m = slen(Z)
        if m is not n:
            return None
        k = fresh_bv()
        Iseq = tab(m, k, at(at(Z, k), ZERO))
        k2 = fresh_bv()
        Y2 = subst(Y, {at(P, bv): at(Z, k2)})
        if mentions(Y2, lambda x: x is P):
            return None
        if bv in Y2.fbv:
            return None
        vals = tab(m, k2, Y2)
        ex = tab(N, r, insmany(at(i0, r), Iseq, vals))
        return mk('opaque', 'prefix of sorted insertion'), ex

    # while --------------------------------------------------------------
    def unrolled_while(self, s, st, fr, left):
        c = self.under_pc(self.truth(self.eval(s.test, st, fr), st), st.pc)
        if left <= 0 and c is not FALSE:
            raise AnalysisError('loop does not end within the unrolling bound')

        def once(x):
            f = self.exec_block(s.body, x, fr)
            out = Flow()
            out.rets = f.rets
            items = [(y, None) for y in f.conts] + ([(f.norm, None)] if f.norm is not None else [])
            cur = self.merge_many(items)[0] if items else None
            ends = [(y, None) for y in f.brks]
            if cur is not None:
                g = self.unrolled_while(s, cur, fr, left - 1)
                out.rets += g.rets
                if g.norm is not None:
                    ends.append((g.norm, None))
            out.norm = self.merge_many(ends)[0] if ends else None
            return out

        def leave(x):
            return self.exec_block(s.orelse, x, fr) if s.orelse else Flow(x)
        return self.branch(c, st, fr, once, leave)

    def literal_count(self, s, st, fr):
        """bound on the iterations of a loop that counts a literal variable up or down to a literal limit, or
        empties a literal list; None for any other loop"""
        t = s.test
        for c in (t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]):
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
                a, b = c.left, c.comparators[0]
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, ast.Name) and self.steps(s.body, x.id) and \
                            not any(isinstance(q, ast.Call) and not (isinstance(q.func, ast.Name) and q.func.id == 'len')
                                    for q in ast.walk(y)):
                        try:
                            u, v = self.V(st, self.eval(x, st.copy(), fr)), self.V(st, self.eval(y, st.copy(), fr))
                        except AnalysisError:
                            continue
                        if u.op == 'num' and v.op == 'num' and abs(u.args[0] - v.args[0]) <= 60:
                            return int(abs(u.args[0] - v.args[0])) + 2
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'len' and len(c.args) == 1:
                c = c.args[0]
            if isinstance(c, ast.Name) and any(isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and
                                               q.func.attr in ('pop', 'popleft', 'popitem') and isinstance(q.func.value, ast.Name)
                                               and q.func.value.id == c.id for q in ast.walk(s)):
                v = self.V(st, self.lookup(c.id, st, fr))
                if v.op == 'seq' and len(v.args) <= 60:
                    return 2 * len(v.args) + 4
        return None

    @staticmethod
    def steps(body, name):
        """the statements change the variable only by fixed steps, at least once at their top level"""
        ok = False
        for b in body:
            for q in ast.walk(b):
                tg = [q.target] if isinstance(q, (ast.AugAssign, ast.For)) else q.targets if isinstance(q, ast.Assign) else []
                for t in tg:
                    for z in ast.walk(t):
                        if isinstance(z, ast.Name) and z.id == name and isinstance(z.ctx, ast.Store):
                            if isinstance(q, ast.AugAssign) and isinstance(q.value, ast.Constant):
                                ok = ok or q is b
                            elif isinstance(q, ast.Assign) and isinstance(q.value, ast.BinOp) and isinstance(q.value.right, ast.Constant) \
                                    and isinstance(q.value.left, ast.Name) and q.value.left.id == name:
                                ok = ok or q is b
                            else:
                                return False
        return ok

    def x_While(self, s, st, fr):
        if self.unroll_while:
            return self.unrolled_while(s, st, fr, self.unroll_while)
        k = self.literal_count(s, st, fr)
        if k is not None:
            return self.unrolled_while(s, st, fr, k)
        self.nloop += 1
        lid = 'L%d' % self.nloop
        mark = fresh_bv()
        carried = {}
        alloc0 = self.nref
        out = Flow()
        for _ in range(8):
            s0 = st.copy()
            for k in carried:
                s0.heap[k] = mk('lin', lid, carried[k])
            s0.pc = TRUE
            s1 = s0.copy()
            self.raises.append([])
            nref0 = self.nref
            self.bvstack.append(mark)
            try:
                cond = self.truth(self.eval(s.test, s1, fr), s1)
                s2 = s1.copy()
                s2.pc = cond if cond is not TRUE else TRUE
                f = self.exec_block(s.body, s2, fr)
            finally:
                self.bvstack.pop()
                rs = self.raises.pop()
            ends = list(f.conts) + ([f.norm] if f.norm is not None else []) + f.brks + [x for x, _ in f.rets]
            new = []
            for e in ends:
                for k in self.loc_changed(s0, e, mark, alloc0):
                    if k not in carried and k not in new:
                        new.append(k)
            if not new:
                break
            for k in new:
                carried[k] = len(carried)
        keys = sorted(carried, key=lambda k: carried[k])
        lins = {k: mk('lin', lid, carried[k]) for k in keys}
        inits = {k: st.heap.get(k) if st.heap.get(k) is not None else self.read(st, k[0], k[1], UNDEF) for k in keys}
        states = list(f.conts) + ([f.norm] if f.norm is not None else [])
        end = self.merge_many([(x, None) for x in states])[0] if states else None
        # counter recognition
        conj = list(cond.args) if cond.op == 'and' else [cond]
        if end is not None:
            for c in conj:
                neg_ = False
                p = None
                if c.op == 'pos':
                    p = c.args[0]
                elif c.op == 'not' and c.args[0].op == 'pos':
                    p = neg(c.args[0].args[0])
                    p = add(p, ONE) if is_intish(p, inits, lins) else None
                if p is None:
                    continue
                for k in keys:
                    l = lins[k]
                    d = as_poly(p)
                    if d.get(((l, 1),)) == -1:
                        E = add(p, l)
                        if mentions(E, lambda x: x.op == 'lin' and x.args[0] == lid):
                            continue
                        step = sub(end.heap.get(k, UNDEF), l) if end.heap.get(k, UNDEF) is not UNDEF else None
                        if step is not ONE or inits[k] is UNDEF:
                            continue
                        nn = sub(E, inits[k])
                        others = [x for x in conj if x is not c]

                        def bindf(bv, x, k=k):
                            x.heap[k] = add(inits[k], bv)
                        hb = None
                        if others:
                            def hb(x, s=s, fr=fr):
                                t = self.truth(self.eval(s.test, x, fr), x)
                                cj = list(t.args) if t.op == 'and' else [t]
                                # drop the range conjunct
                                return or_(*[not_(q) for q in cj if not (q.op == 'pos' and self._range_conj(q, E))])
                        if nn.op == 'num' and nn.args[0] <= 60:
                            return self.unrolled_while(s, st, fr, int(nn.args[0]) + 1)
                        if nn in self.len_cats and not others and not f.brks:
                            res, brks = st, []
                            for seg in self.split_range(tab(nn, mark, mark)):
                                if res is None:
                                    break
                                g = self.loop_over(seg, lambda e, x, k=k: x.heap.__setitem__(k, add(inits[k], e)), s.body, [],
                                                   res, fr, s)
                                out.rets += g.rets
                                res = g.norm
                        else:
                            res, brks = self.counted(nn, bindf, s.body, st, fr, out, s, head_break=hb)
                        if res is not None:
                            res.heap[k] = add(inits[k], nn)
                        if res is not None and s.orelse:
                            g = self.exec_block(s.orelse, res, fr)
                            out.absorb(g)
                            res = g.norm
                        items = [(x, None) for x in brks] + ([(res, None)] if res is not None else [])
                        out.norm = self.merge_many(items)[0] if items else None
                        return out
        # generic loop: exit values are named by the loop's own equations
        rec = LoopRec()
        rec.keys, rec.lins, rec.inits, rec.cond, rec.end = keys, lins, inits, cond, end
        rec.node, rec.lid, rec.flow, rec.fr, rec.s0 = s, lid, f, fr, s0
        rec.entry = st.copy()
        self.whiles.append(rec)
        bodies = {k: (end.heap.get(k, UNDEF) if end is not None else UNDEF) for k in keys}
        h = max([bodies[k].height for k in keys] + [cond.height, 0])
        m = {lins[k]: mk('acc', 'W%d' % h, j) for j, k in enumerate(keys)}
        core = mk('while', const(len(keys)), subst(cond, m),
                  *([inits[k] for k in keys] + [subst(bodies[k], m) for k in keys]))
        rec.core = core
        res = st.copy()
        rec.exits = {}
        for j, k in enumerate(keys):
            v = mk('wexit', core, const(j))
            if bodies[k] is lins[k]:
                v = inits[k]
            res.heap[k] = v
            rec.exits[k] = v
        # families written inside are unknown afterwards
        if end is not None:
            for (p, fld) in end.heap:
                if mark in p.fbv and not (p.op == 'ref'):
                    res.fams = res.fams + (Fam(fld, [(ONE, mark)], p, mk('opaque', 'while element')),)
        for r in rs:
            self.raises[-1].append(Raise(and_(st.pc, mk('exc', const('loop'), core, const(str(r.exc)))), r.exc, r.node,
                                         r.state, r.where))
        for x, v in f.rets:
            rs_ = st.copy()
            rs_.pc = and_(st.pc, mk('exc', const('loopret'), core, NONE))
            out.rets.append((rs_, mk('opaque', 'return in while', v)))
        if f.brks:
            for k in keys:
                res.heap[k] = mk('opaque', 'while-break', core, const(carried[k]))
        out.norm = res
        return out

    @staticmethod
    def _range_conj(q, E):
        return q.op == 'pos' and any(c == -1 for m, c in as_poly(q.args[0]).items())

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('unsupported expression %s at %s:%d' % (type(e).__name__, fr.module.path, e.lineno))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return const(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, complex):
            return add(num(v.real), mul(num(v.imag), sym('imaginary unit', 'real')))
        return const(v)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def lookup(self, name, st, fr):
        ref = fr.ref
        while ref is not None:
            v = self.read(st, ref, 'v:' + name)
            if v is not None:
                return v
            ref = self.parents.get(ref.args[0])
        r = self.module_name(fr.module.name, name, st)
        if r.op == 'mod' and r.args[0] == 'builtins.' + name and not hasattr(builtins, name) \
                and fr.func is not None and self.prog.never_bound(fr.module, fr.func.node, name):
            self.raise_(st, const('NameError'), None, 'name %s is not defined' % name)
            return mk('opaque', 'unbound name', const(name))
        return r

    def module_name(self, modname, name, st):
        r = self.prog.lookup(modname, name)
        if r is None:
            if name == '__name__':
                return const(modname)
            return mk('mod', 'builtins.' + name)
        return self.resolved(r, name, st)

    def resolved(self, r, name, st):
        if r[0] == 'def':
            _, m, node = r
            fr = Frame(None, m, None)
            return self.mkfn(node, m, m.name + '.' + node.name, None, st, fr)
        if r[0] == 'class':
            return mk('cls', r[1])
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'lib':
            return self.lib.libname(r[1])
        if r[0] == 'assign':
            m, expr = r[1], r[2]
            frame = self.alloc('frame', 'mod')
            return self.eval(expr, st, Frame(frame, m, None))
        if r[0] == 'assign_el':
            m, expr, k = r[1], r[2], r[3]
            frame = self.alloc('frame', 'mod')
            return at(self.V(st, self.eval(expr, st, Frame(frame, m, None))), num(k))
        raise AnalysisError('resolve ' + name)

    def e_Tuple(self, e, st, fr):
        return self.seq_display(e, st, fr, tup)

    def seq_display(self, e, st, fr, mkf):
        parts = []
        star = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                star = True
                parts.append(self.lib.as_seq(self, st, self.eval(x.value, st, fr)))
            else:
                parts.append(seq(self.eval(x, st, fr)))
        c = cat(*parts)
        if c.op == 'seq':
            return mkf(*c.args)
        return c

    def e_List(self, e, st, fr):
        c = self.seq_display(e, st, fr, seq)
        return self.new_list(st, c)

    def e_Set(self, e, st, fr):
        c = self.seq_display(e, st, fr, seq)
        return mk('set', *sorted(set(c.args), key=lambda t: t.id)) if c.op == 'seq' else mk('setof', c)

    def e_Dict(self, e, st, fr):
        d = self.alloc('dict', 'd')
        st.heap[(d, '$keys')] = EMPTY
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, st, fr)
                self.lib.dict_update(self, st, d, o)
            else:
                kk = self.eval(k, st, fr)
                self.lib.dict_set(self, st, d, kk, self.eval(v, st, fr))
        return d

    def e_Attribute(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        return self.get_attr(o, e.attr, st, e)

    def get_attr(self, o, name, st, node):
        if o.op == 'ite':
            s1 = self.get_attr(o.args[1], name, st, node)
            s2 = self.get_attr(o.args[2], name, st, node)
            return ite(o.args[0], s1, s2)
        if o is UNDEF:
            return UNDEF
        if o.op == 'mod':
            return self.mod_attr(o.args[0], name, st)
        if o.op == 'cls':
            c = o.args[0]
            if name == '__name__':
                return const(c.name)
            dc, d = c.find(name)
            if d is None:
                return mk('opaque', 'classattr', const(c.name), const(name))
            if isinstance(d, ast.FunctionDef):
                return self.method_fn(dc, d, st)
            return self.eval(d, st, Frame(self.alloc('frame', 'cls'), dc.module, None, dc))
        if o.op == 'super':
            cls, selfp = o.args
            oc = self.class_of(selfp) if selfp.op != 'cls' else selfp.args[0]
            dc, d = oc.find(name, after=cls.args[0]) if isinstance(oc, ClassObj) else (None, None)
            if d is None:
                return mk('meth', o, name)
            fn = self.method_fn(dc, d, st)
            dec = self.deco(d)
            if 'staticmethod' in dec or name == '__new__':
                return fn
            return mk('bound', fn, selfp)
        c = self.class_of(o)
        if isinstance(c, ClassObj):
            v = st.heap.get((o, name))
            if v is None:
                # class-level definition takes part before lazily-created input attributes
                dc, d = c.find(name)
                if d is not None and isinstance(d, ast.FunctionDef):
                    v = self.read(st, o, name) if not self.lazy(o) else self.read_fam_only(st, o, name)
                    if v is not None:
                        return v
                    fn = self.method_fn(dc, d, st)
                    dec = self.deco(d)
                    if 'property' in dec:
                        return self.call_fn(fn, [o], {}, st, node)
                    if 'staticmethod' in dec:
                        return fn
                    if 'classmethod' in dec:
                        return mk('bound', fn, mk('cls', c))
                    return mk('bound', fn, o)
                v = self.read(st, o, name) if not self.lazy(o) else self.read_fam_only(st, o, name)
                if v is not None:
                    return v
                if d is not None:
                    return self.eval(d, st, Frame(self.alloc('frame', 'cls'), dc.module, None, dc))
                if name == '__class__':
                    return mk('cls', c)
                if name == '__dict__':
                    return mk('opaque', '__dict__', o)
                v = self.read(st, o, name)
                if v is None:
                    if c.find('__getattr__')[0] is not None:
                        return mk('opaque', '__getattr__', o, const(name))
                    self.raise_(st, const('AttributeError'), node, '%s has no attribute %s' % (c.name, name))
                    if any(x.node.decorator_list or any(not isinstance(b, ClassObj) and b not in ('object', 'ABC', 'abc.ABC')
                                                        for b in x.bases()) for x in c.mro()):
                        return mk('opaque', 'unknown attribute', const(c.name), const(name))
                    return mk('opaque', 'noattr', const(c.name), const(name))
            return v
        return self.lib.value_attr(self, st, o, name, node)

    def read_fam_only(self, st, o, name):
        v = st.heap.get((o, name))
        if v is not None:
            return v
        for k in range(len(st.fams) - 1, -1, -1):
            f = st.fams[k]
            if f.field == name:
                m = self.match(f, o)
                if m != 'no':
                    return self.read(st, o, name)
        if o.op == 'cp':
            S, deep = self.copies[o.args[0]]
            v = self.read_fam_only(S, o.args[1], name)
            if v is not None:
                return self.wrapcp(o.args[0], v, S) if deep else v
        return None

    def lazy(self, o):
        return o.op == 'cp' or self.is_input(o)

    def mod_attr(self, dotted, name, st):
        if dotted in self.prog.modules:
            r = self.prog.lookup(dotted, name)
            if r is not None:
                return self.resolved(r, name, st)
            if dotted + '.' + name in self.prog.modules:
                return mk('mod', dotted + '.' + name)
            return mk('opaque', 'modattr', const(dotted + '.' + name))
        return self.lib.libname(dotted + '.' + name)

    def e_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        i = self.eval_index(e.slice, st, fr)
        return self.lib.getitem(self, st, o, i, e)

    def eval_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.eval(x, st, fr)
            return mk('sliceobj', f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tup(*[self.eval_index(x, st, fr) for x in s.elts])
        return self.eval(s, st, fr)

    def e_Slice(self, e, st, fr):
        return self.eval_index(e, st, fr)

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st, fr)
                if v.format_spec is not None:
                    parts.append(mk('fmt', self.V(st, x), self.eval(v.format_spec, st, fr)))
                else:
                    parts.append(str_(self.lib.strval(self, st, x)))
        return strcat(*parts)

    def e_FormattedValue(self, e, st, fr):
        return str_(self.eval(e.value, st, fr))

    def e_IfExp(self, e, st, fr):
        c = self.under_pc(self.truth(self.eval(e.test, st, fr), st), st.pc)
        if c is TRUE:
            return self.eval(e.body, st, fr)
        if c is FALSE:
            return self.eval(e.orelse, st, fr)
        return self.cond_eval(c, st, lambda x: self.eval(e.body, x, fr), lambda x: self.eval(e.orelse, x, fr))

    def cond_eval(self, c, st, f1, f2):
        pc = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = and_(pc, c), and_(pc, not_(c))
        v1 = f1(s1)
        v2 = f2(s2)
        if s1.pc is FALSE and s2.pc is not FALSE:
            st.become(s2)
            return v2
        if s2.pc is FALSE and s1.pc is not FALSE:
            st.become(s1)
            return v1
        st.become(self.merge2(c, s1, s2, pc=pc))
        return ite(c, v1, v2)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def go(vals, st):
            v = self.eval(vals[0], st, fr)
            if len(vals) == 1:
                return v
            c = self.truth(v, st)
            if c is TRUE:
                return go(vals[1:], st) if isand else v
            if c is FALSE:
                return v if isand else go(vals[1:], st)
            if isand:
                r = self.cond_eval(c, st, lambda x: go(vals[1:], x), lambda x: v)
            else:
                r = self.cond_eval(c, st, lambda x: v, lambda x: go(vals[1:], x))
            return r
        return go(e.values, st)

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v, st))
        if isinstance(e.op, ast.USub) and self.class_of(v) == 'matrix':
            return self.new_list(st, self.lib.neg_value(self, self.read(st, v, '$', EMPTY)), 'matrix', 'm')
        v = self.V(st, v)
        if isinstance(e.op, ast.USub):
            return self.lib.neg_value(self, v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('call', 'invert', v)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop(self, op, a, b, st, node):
        return self.lib.binop(self, st, op, a, b, node)

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            res = and_(res, self.lib.compare(self, st, type(op).__name__, left, right))
            left = right
        return res

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Lambda(self, e, st, fr):
        if fr.ref is not None:
            self.captured.add(fr.ref.args[0])
        qual = (fr.func.qual if fr.func else fr.module.name) + '.<lambda>'
        return self.mkfn(e, fr.module, qual, fr.ref, st, fr, fr.cls)

    def e_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.eval(e.value, st, fr)
        g = st.heap.get((fr.ref, '$gen'))
        self.write(st, g, '$', cat(self.V(st, g), seq(v)))
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        g = st.heap.get((fr.ref, '$gen'))
        self.write(st, g, '$', cat(self.V(st, g), self.lib.as_seq(self, st, v)))
        return NONE

    # comprehensions
    def comp(self, e, st, fr, emit):
        frame = self.alloc('frame', 'comp')
        if fr.ref is not None:
            self.parents[frame.args[0]] = fr.ref
        f2 = Frame(frame, fr.module, fr.func, fr.cls)
        acc = self.new_list(st, EMPTY, hint='comp')
        accname = ast.Name(id='$acc', ctx=ast.Load())
        st.heap[(frame, 'v:$acc')] = acc
        call = ast.Expr(ast.Call(func=ast.Attribute(value=accname, attr='append', ctx=ast.Load()),
                                 args=[emit], keywords=[]))
        body = [call]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for n in ast.walk(ast.Module(body, [])):
            if not hasattr(n, 'lineno'):
                n.lineno = e.lineno
                n.col_offset = 0
        out = self.exec_block(body, st, f2)
        if out.norm is None:
            st.pc = FALSE
            return UNDEF
        st.become(out.norm)
        if frame.args[0] not in self.captured:
            for k in [k for k in st.heap if k[0] is frame]:
                del st.heap[k]
        return acc

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, e.elt)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        return mk('setof', self.V(st, self.comp(e, st, fr, e.elt)))

    def e_DictComp(self, e, st, fr):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        acc = self.V(st, self.comp(e, st, fr, pair))
        return self.lib.dict_from_pairs(self, st, acc)

    # calls
    def e_Call(self, e, st, fr):
        f = e.func
        # logging never influences values
        if self.lib.is_logging(self, f, st, fr):
            return NONE
        if isinstance(f, ast.Name) and f.id == 'super':
            return self.do_super(e, st, fr)
        obj = fn = None
        if isinstance(f, ast.Attribute):
            obj = self.eval(f.value, st, fr)
        else:
            fn = self.eval(f, st, fr)
        args, kwargs, starkw = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.lib.as_seq(self, st, self.eval(a.value, st, fr))
                if s.op in ('seq', 'tup'):
                    args.extend(s.args)
                elif s.op == 'cat' and s.args[0].op == 'seq' and False:
                    pass
                else:
                    args.append(mk('star', s))
            else:
                args.append(self.eval(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, st, fr)
                keys = st.heap.get((d, '$keys')) if d.op == 'ref' else None
                if keys is not None and keys.op == 'seq' and self.class_of(d) == 'dict':
                    for kk in keys.args:
                        kwargs[kk.args[0]] = self.read(st, d, '[' + repr(kk.args[0]) + ']', UNDEF)
                else:
                    starkw = d
                    kwargs_star = d
                    kwargs['**'] = d
            else:
                kwargs[k.arg] = self.eval(k.value, st, fr)
        if obj is not None:
            return self.call_method(obj, f.attr, args, kwargs, st, e)
        return self.call(fn, args, kwargs, st, e)

    def do_super(self, e, st, fr):
        if e.args:
            c = self.eval(e.args[0], st, fr)
            s = self.eval(e.args[1], st, fr)
        else:
            c = mk('cls', fr.cls)
            n = fr.func.node
            a = n.args.posonlyargs + n.args.args
            s = st.heap.get((fr.ref, 'v:' + a[0].arg))
        return mk('super', c, s)

    def call(self, fn, args, kwargs, st, node):
        if fn.op == 'ite':
            c = fn.args[0]
            return self.cond_eval(c, st, lambda x: self.call(fn.args[1], args, kwargs, x, node),
                                  lambda x: self.call(fn.args[2], args, kwargs, x, node))
        if fn is UNDEF:
            return UNDEF
        if fn.op == 'fn':
            starkw = kwargs.pop('**', None) if '**' in kwargs else None
            if any(a.op == 'star' for a in args):
                r = self.try_star(fn, args, kwargs, st, node)
                if r is not None:
                    return r
                return mk('opaque', 'star-call', fn, *[self.reify(st, a) for a in args])
            if starkw is not None and not self.takes_kw(fn):
                return mk('opaque', 'starkw', fn)
            return self.call_fn(fn, args, kwargs, st, node, starkw)
        if fn.op == 'bound':
            return self.call(fn.args[0], [fn.args[1]] + list(args), kwargs, st, node)
        if fn.op == 'partial':
            kw = {a.args[0].args[0]: a.args[1] for a in fn.args[2].args}
            kw.update(kwargs)
            return self.call(fn.args[0], list(fn.args[1].args) + list(args), kw, st, node)
        if fn.op == 'cls':
            return self.instantiate(fn.args[0], args, kwargs, st, node)
        if fn.op == 'mod':
            return self.lib.call_lib(self, st, fn.args[0], args, kwargs, node)
        if fn.op == 'meth':
            return self.call_method(fn.args[0], fn.args[1], args, kwargs, st, node)
        if fn.op == 'lam':
            return self.lib.apply_lam(self, st, fn, args)
        c = self.class_of(fn)
        if isinstance(c, ClassObj):
            dc, d = c.find('__call__')
            if d is not None:
                return self.call(mk('bound', self.method_fn(dc, d, st), fn), args, kwargs, st, node)
        return self.lib.opaque_call(self, st, fn, args, kwargs, node)

    def takes_kw(self, fn):
        n = fn.args[0].node
        return n.args.kwarg is not None

    def try_star(self, fn, args, kwargs, st, node):
        """f(a, *seq) with a symbolic seq is passed through when f forwards it as *args"""
        n = fn.args[0].node
        if n.args.vararg is None:
            return None
        k = len(n.args.posonlyargs + n.args.args)
        if any(a.op == 'star' for a in args[:k]):
            return None
        return self.call_fn(fn, args, kwargs, st, node)

    def instantiate(self, c, args, kwargs, st, node):
        h = self.intercepts.get('new:' + c.name)
        if h is not None:
            r = h(self, st, args, kwargs)
            if r is not None:
                return r
        clst = mk('cls', c)
        dc, d = c.find('__new__')
        if d is not None:
            obj = self.call(self.method_fn(dc, d, st), [clst] + list(args), dict(kwargs), st, node)
            oc = self.class_of(obj)
            if not (isinstance(oc, ClassObj) and oc.issub(c)):
                if not (isinstance(oc, ClassObj) and (c.issub(oc))):
                    return obj
                return obj
            if not isinstance(oc, ClassObj) or not oc.issub(c):
                return obj
        else:
            obj = self.alloc(c, c.name)
            if 'dict' in c.ext_bases():
                st.heap[(obj, '$keys')] = EMPTY
            if 'list' in c.ext_bases():
                st.heap[(obj, '$')] = EMPTY
        oc = self.class_of(obj)
        cc = oc if isinstance(oc, ClassObj) else c
        dc, d = cc.find('__init__')
        if d is not None:
            self.call(self.method_fn(dc, d, st), [obj] + list(args), dict(kwargs), st, node)
        elif 'dict' in c.ext_bases():
            for k, v in kwargs.items():
                self.lib.dict_set(self, st, obj, const(k), v)
        return obj

    def call_method(self, o, name, args, kwargs, st, node):
        if o.op == 'ite':
            ca, cb = o.args[1], o.args[2]
            return self.cond_eval(o.args[0], st, lambda x: self.call_method(ca, name, args, kwargs, x, node),
                                  lambda x: self.call_method(cb, name, args, kwargs, x, node))
        if o is UNDEF:
            return UNDEF
        if o.op in ('mod', 'cls'):
            return self.call(self.get_attr(o, name, st, node), args, kwargs, st, node)
        if o.op == 'super':
            f = self.get_attr(o, name, st, node)
            if f.op == 'meth':
                return self.super_ext(o, name, args, kwargs, st, node)
            return self.call(f, args, kwargs, st, node)
        c = self.class_of(o)
        if isinstance(c, ClassObj):
            if st.heap.get((o, name)) is not None or c.find(name)[1] is not None \
                    or self.read_fam_only(st, o, name) is not None:
                return self.call(self.get_attr(o, name, st, node), args, kwargs, st, node)
            if 'list' in c.ext_bases() and name in self.lib.LIST_METHODS:
                return self.lib.LIST_METHODS[name](self, st, o, args, kwargs, node)
            if 'dict' in c.ext_bases() and name in self.lib.DICT_METHODS:
                return self.lib.DICT_METHODS[name](self, st, o, args, kwargs, node)
            v = self.get_attr(o, name, st, node)
            return self.call(v, args, kwargs, st, node)
        return self.lib.call_value_method(self, st, o, name, args, kwargs, node)

    def super_ext(self, o, name, args, kwargs, st, node):
        """method of an external base class"""
        cls, selfp = o.args
        if name == '__new__':
            c = args[0].args[0] if args and args[0].op == 'cls' else None
            if c is not None:
                r = self.alloc(c, c.name)
                return r
        if name == '__init__':
            return NONE
        return mk('call', 'super.' + name, self.reify(st, selfp) if selfp.op != 'cls' else selfp,
                  *[self.reify(st, a) for a in args])

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        if v.op == 'const':
            return TRUE if v.args[0] else FALSE
        if v.op == 'num':
            return TRUE if v.args[0] != 0 else FALSE
        if is_bool(v):
            return v
        if v.op == 'ite':
            return ite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
        c = self.class_of(v)
        if c in ('list', 'tuple', 'rawseq'):
            return pos(slen(self.V(st, v)))
        if c == 'dict':
            ks = self.lib.dict_keys(self, st, v)
            return pos(slen(ks))
        if v.op in ('fn', 'cls', 'mod', 'bound', 'lam', 'partial'):
            return TRUE
        if isinstance(c, ClassObj) and v.op == 'ref':
            if c.find('__bool__')[1] is None and c.find('__len__')[1] is None:
                return TRUE
        if numeric(v) or is_int(v):
            return not_(eq(v, ZERO))
        if v is UNDEF:
            return UNDEF
        return mk('truth', self.reify(st, v))


def bv2(bv):
    b = mk('bv', 'p%s' % bv.args[0])
    return b


def psum(m, bv, d):
    """sum over j < m of d(j), with bv the name of the index inside d"""
    b2 = fresh_bv()
    return sum_(m, b2, subst(d, {bv: b2}))


def numeric_ok(b):
    return b.op in ('poly', 'num', 'sum') or b.op == 'lin'


def is_intish(p, inits, lins):
    m = {}
    for k, l in lins.items():
        if inits[k] is not UNDEF and is_int(inits[k]):
            m[l] = mk('sym', 'int_' + str(l.args[1]), 'int')
    return is_int(subst(p, m))
