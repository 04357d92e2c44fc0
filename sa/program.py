"""Program model: modules, classes, functions and name resolution, from source."""
import ast
import os


class AnalysisError(Exception):
    pass


class Module:
    def __init__(self, name, path, is_pkg, tree, src):
        self.name, self.path, self.is_pkg, self.tree, self.src = name, path, is_pkg, tree, src
        self.bindings = {}      # name -> list of binding tuples in order
        self.collect(tree.body)

    def collect(self, body, guarded=False):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.bind(n.name, ('def', n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.bind(a.asname, ('import', a.name))
                    else:
                        self.bind(a.name.split('.')[0], ('import', a.name.split('.')[0]))
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.bind(a.asname or a.name, ('from', n.module, n.level, a.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.bind(t.id, ('assign', n.value))
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.bind(e.id, ('assign_i', n.value, i))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.bind(n.target.id, ('assign', n.value))
            elif isinstance(n, ast.If):
                self.collect(n.body, True)
                self.collect(n.orelse, True)
            elif isinstance(n, ast.Try):
                self.collect(n.body, True)
                for h in n.handlers:
                    self.collect(h.body, True)
                self.collect(n.orelse, True)
                self.collect(n.finalbody, True)
            elif isinstance(n, ast.With):
                self.collect(n.body, True)
            elif isinstance(n, (ast.For, ast.While)):
                self.collect(n.body, True)

    def bind(self, name, b):
        self.bindings.setdefault(name, []).append(b)

    def stars(self):
        for n in self.tree.body:
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                yield n


class Func:
    def __init__(self, qual, node, module, cls=None, closure=None):
        self.qual, self.node, self.module, self.cls, self.closure = qual, node, module, cls, closure
        self.decos = []
        for d in getattr(node, 'decorator_list', []):
            self.decos.append(ast.unparse(d))
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def has_deco(self, n):
        return any(d == n or d.endswith('.' + n) for d in self.decos)

    @property
    def abstract(self):
        return self.has_deco('abstractmethod')

    def loc(self):
        return '%s:%d' % (self.module.path, self.node.lineno)


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.nested = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = Func(qual + '.' + n.name, n, module, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.attrs[n.target.id] = n.value
            elif isinstance(n, ast.ClassDef):
                self.nested[n.name] = n
        self.mro = None
        self.ext_bases = []


class Program:
    def __init__(self, roots, alias=None):
        """roots: {package name: directory}; alias: {simple class name: qualified
        name to use in terms} (reference classes take the names of the classes
        they describe)"""
        self.alias = alias or {}
        self.replace = {}
        self.roots = dict(roots)
        self.modules = {}
        self.classes = {}
        self.recs = {}            # recursive functions met by the interpreter
        self.funcs = {}
        self.errors = []
        for pkg, d in self.roots.items():
            self._load(pkg, d)
        for m in list(self.modules.values()):
            for name, bs in m.bindings.items():
                for b in bs:
                    if b[0] == 'def':
                        self._def(m, b[1], m.name)

    def _load(self, pkg, d):
        for dirpath, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if not x.startswith('.') and x != '__pycache__')
            rel = os.path.relpath(dirpath, d)
            parts = [pkg] + ([] if rel == '.' else rel.split(os.sep))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dirpath, f)
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    self.errors.append('%s: %s' % (p, e))
                    continue
                if f == '__init__.py':
                    name, is_pkg = '.'.join(parts), True
                else:
                    name, is_pkg = '.'.join(parts + [f[:-3]]), False
                self.modules[name] = Module(name, p, is_pkg, tree, src)

    def _def(self, m, node, prefix):
        q = prefix + '.' + node.name
        if isinstance(node, ast.ClassDef):
            a = q if q.startswith('stub.') else self.alias.get(node.name, q)
            c = Class(a, node, m)
            self.classes[q] = c
            self.classes[a] = c
            for f in c.methods.values():
                self.funcs[f.qual] = f
            for n in c.nested.values():
                self._def(m, n, a)
        else:
            self.funcs[q] = Func(q, node, m)

    # ------------------------------------------------------------ resolution
    def abs_module(self, mod, module, level):
        if level == 0:
            return module
        parts = mod.name.split('.')
        if not mod.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([module] if module else []))

    def is_internal(self, name):
        return name.split('.')[0] in self.roots

    def lookup(self, modname, name, seen=None):
        """Resolve attribute `name` of module `modname` to a tagged target:
        ('class', Class) ('func', Func) ('mod', name) ('ext', qual) ('expr', Module, ast) ('missing',)"""
        seen = seen or set()
        if (modname, name) in seen:
            return ('missing',)
        seen.add((modname, name))
        if modname not in self.modules:
            return ('ext', modname + '.' + name)
        m = self.modules[modname]
        bs = m.bindings.get(name)
        if bs:
            b = bs[-1]
            # prefer a non-None binding for guarded alternatives (try/except)
            if b[0] == 'def':
                q = modname + '.' + name
                if isinstance(b[1], ast.ClassDef):
                    return ('class', self.classes[q])
                return ('func', self.funcs[q])
            if b[0] == 'import':
                return ('mod', b[1]) if self.is_internal(b[1]) else ('ext', b[1])
            if b[0] == 'from':
                tgt = self.abs_module(m, b[1], b[2])
                if self.is_internal(tgt):
                    sub = tgt + '.' + b[3]
                    r = self.lookup(tgt, b[3], seen)
                    if r[0] == 'missing' and sub in self.modules:
                        return ('mod', sub)
                    return r
                return ('ext', tgt + '.' + b[3])
            if b[0] == 'assign':
                return ('expr', m, bs)
            if b[0] == 'assign_i':
                return ('expr_i', m, b[1], b[2])
        for n in m.stars():
            tgt = self.abs_module(m, n.module, n.level)
            if self.is_internal(tgt):
                r = self.lookup(tgt, name, seen)
                if r[0] != 'missing':
                    return r
        if modname + '.' + name in self.modules:
            return ('mod', modname + '.' + name)
        return ('missing',)

    def resolve(self, qual):
        """Resolve a dotted public path such as pysad.models.LODA."""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                if i == len(parts):
                    return ('mod', mn)
                r = self.lookup(mn, parts[i])
                for p in parts[i + 1:]:
                    if r[0] == 'class' and r[1].qual + '.' + p in self.classes:
                        r = ('class', self.classes[r[1].qual + '.' + p])
                    else:
                        return ('missing',)
                return r
        return ('missing',)

    def cls(self, qual):
        r = self.resolve(qual)
        if r[0] != 'class':
            raise AnalysisError('anchor vanished: class %s' % qual)
        return r[1]

    def base_target(self, c, expr):
        return self.resolve_expr(c.module, expr)

    def resolve_expr(self, m, expr):
        if isinstance(expr, ast.Name):
            return self.lookup(m.name, expr.id)
        if isinstance(expr, ast.Attribute):
            r = self.resolve_expr(m, expr.value)
            if r[0] == 'mod':
                return self.lookup(r[1], expr.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + expr.attr)
            if r[0] == 'class' and r[1].qual + '.' + expr.attr in self.classes:
                return ('class', self.classes[r[1].qual + '.' + expr.attr])
        return ('missing',)

    def mro(self, c):
        if c.mro is not None:
            return c.mro
        c.mro = [c]
        seqs = []
        for b in c.node.bases:
            r = self.base_target(c, b)
            if r[0] == 'class':
                seqs.append(list(self.mro(r[1])))
            elif r[0] == 'ext':
                c.ext_bases.append(r[1])
        bases = [s[0] for s in seqs]
        seqs = [s for s in seqs] + [bases]
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
        c.mro = out
        return out

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def exported_classes(self, pkg):
        """Classes reachable as attributes of the package (public names)."""
        out = {}
        m = self.modules.get(pkg)
        if m is None:
            raise AnalysisError('anchor vanished: package %s' % pkg)
        for name in m.bindings:
            r = self.lookup(pkg, name)
            if r[0] == 'class' and not name.startswith('_'):
                out[name] = r[1]
        return out


def alias_for(prog):
    """simple name -> qualified name of the analysed program's classes (unique ones)"""
    out, dup = {}, set()
    for q in prog.classes:
        if q.startswith('stub.'):
            continue
        n = q.split('.')[-1]
        if n in out:
            dup.add(n)
        out[n] = q
    return {n: q for n, q in out.items() if n not in dup}
