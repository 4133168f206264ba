"""Loads and resolves the repository's source (never imports or runs it)."""
import ast
import os


class AnalysisError(Exception):
    """An anchor vanished or the source cannot be parsed: the analysis has no verdict."""


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg
        self.defs = {}       # name -> ('def', node) | ('class', node) | ('import', mod, attr) | ('assign', node)
        self.cache = {}
        self._scan(tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[n.name] = ('def', n)
            elif isinstance(n, ast.ClassDef):
                self.defs[n.name] = ('class', n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs[a.asname] = ('mod', a.name)
                    else:
                        self.defs[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = self._rel(n)
                for a in n.names:
                    if a.name == '*':
                        self.defs.setdefault('*', ('star', []))[1].append(base)
                    else:
                        self.defs[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('assign', n.value)
                    elif isinstance(t, ast.Tuple):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ('assign_el', n.value, k)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs[n.target.id] = ('assign', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)
                for h in getattr(n, 'handlers', []):
                    self._scan(h.body)
                self._scan(n.orelse)

    def _rel(self, n):
        if n.level == 0:
            return n.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        if n.module:
            parts.append(n.module)
        return '.'.join(parts)


class ClassObj:
    """A repository class."""
    def __init__(self, prog, module, node, outer=None):
        self.prog, self.module, self.node, self.name = prog, module, node, node.name
        self.qual = module.name + '.' + node.name
        self.members = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.members[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.members[n.target.id] = n.value
        self._mro = None

    def __repr__(self):
        return '<class %s>' % self.qual

    def bases(self):
        out = []
        for b in self.node.bases:
            out.append(self.prog.resolve_base(self.module, b))
        return out

    def mro(self):
        if self._mro is None:
            seqs = []
            bases = [b for b in self.bases() if isinstance(b, ClassObj)]
            for b in bases:
                seqs.append(list(b.mro()))
            seqs.append(list(bases))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisError('inconsistent MRO for ' + self.qual)
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def ext_bases(self):
        """names of non-repository bases anywhere in the MRO"""
        out = []
        for c in self.mro():
            for b in c.bases():
                if not isinstance(b, ClassObj):
                    out.append(b)
        return out

    def find(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.members:
                return c, c.members[name]
        return None, None

    def issub(self, other):
        return other in self.mro()

    def fields(self):
        """attribute names assigned on instances in the class bodies of the MRO"""
        out = []
        for c in self.mro():
            for n in ast.walk(c.node):
                t = None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id in ('self', 'obj'):
                    if n.attr not in out:
                        out.append(n.attr)
        return out


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}
        base = os.path.join(root, 'beluga')
        if not os.path.isdir(base):
            raise AnalysisError('package directory beluga not found under ' + root)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                is_pkg = False
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                    is_pkg = True
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (p, e))
                self.modules[rel] = Module(rel, p, tree, src, is_pkg)

    def add_source(self, name, path, src):
        m = Module(name, path, ast.parse(src, path), src, False)
        self.modules[name] = m
        return m

    def cls(self, module, node):
        k = (module.name, id(node))
        if k not in self.classes:
            self.classes[k] = ClassObj(self, module, node)
        return self.classes[k]

    def lookup(self, modname, name, seen=None):
        """Resolve a module-level name to ('def', Module, node) / ('class', ClassObj) / ('mod', dotted) /
        ('assign', Module, expr) / ('lib', dotted)."""
        if seen is None:
            seen = set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('lib', modname + '.' + name)
        d = m.defs.get(name)
        if d is None:
            if modname + '.' + name in self.modules:
                return ('mod', modname + '.' + name)
            for base in m.defs.get('*', ('star', []))[1]:
                r = self.lookup(base, name, seen)
                if r is not None and (r[0] != 'lib' or base not in self.modules):
                    return r
            return None
        if d[0] == 'def':
            return ('def', m, d[1])
        if d[0] == 'class':
            return ('class', self.cls(m, d[1]))
        if d[0] == 'mod':
            return ('mod', d[1])
        if d[0] == 'from':
            if d[1] in self.modules:
                r = self.lookup(d[1], d[2], seen)
                if r is not None:
                    return r
                if d[1] + '.' + d[2] in self.modules:
                    return ('mod', d[1] + '.' + d[2])
                return None
            return ('lib', d[1] + '.' + d[2])
        if d[0] == 'assign':
            return ('assign', m, d[1])
        if d[0] == 'assign_el':
            return ('assign_el', m, d[1], d[2])
        return None

    def never_bound(self, module, node, name):
        """no binding of the name in the module's own scope or in the outermost function around node"""
        if any(d[0] == 'star' for d in module.defs.values()):
            return False
        k = (module.name, node, name)
        c = self.__dict__.setdefault('_nb', {})
        if k not in c:
            top = None
            for n in module.tree.body:
                for f in ([n] if isinstance(n, ast.FunctionDef) else ast.walk(n)):
                    if isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(x is node for x in ast.walk(f)):
                        top = f
                        break
                if top is not None:
                    break
            r = top is not None
            for x in (ast.walk(top) if r else ()):
                if (isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load)) \
                        or (isinstance(x, ast.arg) and x.arg == name) \
                        or (isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name) \
                        or (isinstance(x, ast.ExceptHandler) and x.name == name) \
                        or (isinstance(x, ast.alias) and (x.asname or x.name).split('.')[0] == name) \
                        or isinstance(x, (ast.Global, ast.Nonlocal, getattr(ast, 'Match', ast.Global))) \
                        or (isinstance(x, ast.Name) and x.id in ('exec', 'globals')):
                    r = False
                    break
            for x in ast.walk(module.tree):
                if isinstance(x, ast.Global) and name in x.names:
                    r = False
            c[k] = r
        return c[k]

    def resolve_base(self, module, expr):
        if isinstance(expr, ast.Name):
            r = self.lookup(module.name, expr.id)
            if r and r[0] == 'class':
                return r[1]
            if r and r[0] == 'lib':
                return r[1]
            return expr.id
        if isinstance(expr, ast.Attribute):
            return ast.unparse(expr)
        return ast.unparse(expr)

    def find_class(self, modname, name):
        """A class reachable under its public module path, wherever it is now defined."""
        r = self.lookup(modname, name)
        if r and r[0] == 'class':
            return r[1]
        for m in self.modules.values():
            d = m.defs.get(name)
            if d and d[0] == 'class':
                return self.cls(m, d[1])
        raise AnalysisError('anchor class %s.%s not found' % (modname, name))

    def find_func(self, modname, name):
        r = self.lookup(modname, name)
        if r and r[0] == 'def':
            return r[1], r[2]
        for m in self.modules.values():
            d = m.defs.get(name)
            if d and d[0] == 'def':
                return m, d[1]
        raise AnalysisError('anchor function %s.%s not found' % (modname, name))
