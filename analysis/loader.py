"""Parse every module of the package under /repo and resolve names between them."""
import ast, hashlib, os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'misfit'


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: neither a pass nor a violation."""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = path.endswith('__init__.py')
        self.imports = {}     # local name -> ('mod', dotted) | ('obj', dotted, name)
        self.functions = {}   # name -> FunctionDef
        self.classes = {}     # name -> ClassDef
        self.assigns = {}     # module-level name -> [value expr]
        self.star = []

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Func:
    """A function or method of the package."""
    def __init__(self, module, node, cls=None):
        self.module, self.node, self.cls = module, node, cls

    @property
    def qual(self):
        c = (self.cls.name + '.') if self.cls else ''
        return '%s.%s%s' % (self.module.name, c, self.node.name)

    @property
    def where(self):
        return '%s:%d (%s)' % (self.module.rel, self.node.lineno,
                               (self.cls.name + '.' if self.cls else '') + self.node.name)

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.decor = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(module, st, self)
                self.decor[st.name] = [d.id for d in st.decorator_list if isinstance(d, ast.Name)]
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value

    @property
    def qual(self):
        return self.module.name + '.' + self.name

    def __repr__(self):
        return '<Class %s>' % self.qual


class Program:
    def __init__(self, root=None, extra=None, sources=None, trees=None):
        self.root = root or REPO
        self.memo = {}
        self.sources = sources or {}      # path -> text to analyse instead of the file's
        self.trees = trees if trees is not None else {}
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken('package directory %s is missing' % base)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f))
        for name, path in (extra or {}).items():
            self._load(path, name)
        self.classes = {}
        for m in self.modules.values():
            for n, node in m.classes.items():
                self.classes[m.name + '.' + n] = Class(m, node)
        self.funcs = {}
        for m in self.modules.values():
            for n, node in m.functions.items():
                self.funcs[m.name + '.' + n] = Func(m, node)

    def _load(self, path, name=None):
        if path in self.sources:
            src = self.sources[path]
        else:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        if name is None:
            rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
            name = rel[:-9] if rel.endswith('.__init__') else rel
        try:
            tree = self.trees.get((path, src)) or ast.parse(src, path)
            self.trees[(path, src)] = tree
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse %s: %s' % (path, e))
        m = Module(name, path, tree, src)
        self.modules[name] = m
        self._collect(m, tree.body)

    def _collect(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports.setdefault(a.asname, []).append(('mod', a.name))
                    else:
                        m.imports.setdefault(a.name.split('.')[0], []).append(('mod', a.name.split('.')[0]))
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    base = '.'.join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == '*':
                        m.star.append(base)
                    else:
                        m.imports.setdefault(a.asname or a.name, []).append(('obj', base, a.name))
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.functions[st.name] = st
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                v = (st.value.elts[i] if isinstance(st.value, (ast.Tuple, ast.List))
                                     and len(st.value.elts) == len(t.elts) else
                                     ast.Subscript(st.value, ast.Constant(i), ast.Load()))
                                m.assigns.setdefault(e.id, []).append(v)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                m.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                m.assigns.setdefault(st.target.id, []).append(None)
            elif isinstance(st, ast.Try):
                self._collect(m, st.body)
                for h in st.handlers:
                    self._collect(m, h.body)
                self._collect(m, st.orelse + st.finalbody)
            elif isinstance(st, ast.If):
                self._collect(m, st.body + st.orelse)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                self._collect(m, st.body)

    # ---- name resolution -------------------------------------------------
    def resolve(self, modname, name, seen=None):
        """('func', Func) | ('class', Class) | ('mod', dotted) | ('ext', dotted) |
        ('assign', Module, [exprs]) | None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if name in m.functions:
            return ('func', self.funcs[m.name + '.' + name])
        if name in m.classes:
            return ('class', self.classes[m.name + '.' + name])
        if name in m.imports:
            best = None
            for imp in m.imports[name]:
                r = self._resolve_import(m, imp, seen)
                if r and r[0] != 'ext':
                    return r
                best = best or r
            return best
        if name in m.assigns:
            return ('assign', m, m.assigns[name])
        sub = modname + '.' + name
        if sub in self.modules:
            return ('mod', sub)
        for b in m.star:
            r = self.resolve(b, name, seen)
            if r:
                return r
        return None

    def _resolve_import(self, m, imp, seen):
        if imp[0] == 'mod':
            d = imp[1]
            if d in self.modules:
                return ('mod', d)
            if '.' not in d and m.name.startswith(PKG + '.'):   # implicit sibling import
                sib = m.name.rsplit('.', 1)[0] + '.' + d
                if sib in self.modules and d not in ('io', 'copy', 'instrument_'):
                    return ('mod', sib)
            return ('ext', d)
        _, base, name = imp
        if base + '.' + name in self.modules and not (
                base in self.modules and (name in self.modules[base].functions
                                          or name in self.modules[base].classes)):
            return ('mod', base + '.' + name)
        if base in self.modules:
            return self.resolve(base, name, seen)
        if m.name.startswith(PKG + '.'):
            sib = m.name.rsplit('.', 1)[0] + '.' + base
            if '.' not in base and sib in self.modules:
                return self.resolve(sib, name, seen)
        return ('ext', base + '.' + name)

    # ---- classes -----------------------------------------------------------
    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(cls.module.name, b.id)
                if r and r[0] == 'class':
                    out.append(r[1])
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r = self.resolve(cls.module.name, b.value.id)
                if r and r[0] == 'mod':
                    r = self.resolve(r[1], b.attr)
                    if r and r[0] == 'class':
                        out.append(r[1])
        return out

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            for c in self.mro(b):
                if c not in out:
                    out.append(c)
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def subclasses(self, cls):
        return [c for c in self.classes.values() if cls in self.mro(c)]

    # ---- anchors --------------------------------------------------------------
    def func(self, qual):
        """'model.kin_functions.rebin' or 'model.kin_model.KinModel2D.make_model'."""
        full = qual if qual.startswith((PKG + '.', 'spec')) else PKG + '.' + qual
        if full in self.funcs:
            return self.funcs[full]
        mod, name = full.rsplit('.', 1)
        if mod in self.classes:
            f = self.method(self.classes[mod], name)
            if f:
                return f
        if mod in self.modules:              # re-exported / moved
            r = self.resolve(mod, name)
            if r and r[0] == 'func':
                return r[1]
        elif '.' in mod:
            mm, cn = mod.rsplit('.', 1)
            if mm in self.modules:
                r = self.resolve(mm, cn)
                if r and r[0] == 'class':
                    f = self.method(r[1], name)
                    if f:
                        return f
        # moved elsewhere in the package?
        if mod in self.modules or mod.rsplit('.', 1)[0] in self.modules:
            cands = [f for q, f in self.funcs.items() if q.endswith('.' + name)]
            if not cands and '.' in mod:
                cn = mod.rsplit('.', 1)[1]
                cands = [self.method(c, name) for c in self.classes.values()
                         if c.name == cn and self.method(c, name)]
            if len(cands) == 1:
                return cands[0]
        raise AnalysisBroken('anchor %s not found' % qual)

    def cls(self, qual):
        full = qual if qual.startswith((PKG + '.', 'spec')) else PKG + '.' + qual
        if full in self.classes:
            return self.classes[full]
        name = full.rsplit('.', 1)[1]
        c = [x for x in self.classes.values() if x.name == name]
        if len(c) == 1:
            return c[0]
        raise AnalysisBroken('class anchor %s not found' % qual)

    def all_funcs(self):
        """Every function and method of the package (not the spec modules)."""
        out = [f for q, f in self.funcs.items() if q.startswith(PKG + '.')]
        for q, c in self.classes.items():
            if q.startswith(PKG + '.'):
                out.extend(c.methods.values())
        return out

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode()); h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]
