"""setAttr: every setting handed over reaches the attribute of that name, whatever its value."""
import ast

from analysis.rulebase import rule, ok, bad, undecided
from analysis.selfflow import FUNCS, aliases, callee, first_param

PKG = 'misfit'


def mentions(e, names):
    return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))


class Scan:
    """Update sites of one function: (status, line, message)."""

    def __init__(self, prog, module, fn, selfs, kws, cls, depth=0):
        self.prog, self.module, self.fn, self.cls, self.depth = prog, module, fn, cls, depth
        self.selfs = aliases(fn, selfs)
        self.kws = aliases(fn, kws)
        self.defs = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.defs.setdefault(n.targets[0].id, []).append(n.value)
        self.sites, self.built = [], {}
        self.block(fn.body, [])

    # -- recognisers
    def deref(self, e):
        n = 0
        while isinstance(e, ast.Name) and e.id not in self.kws and e.id not in self.selfs and len(
                self.defs.get(e.id, ())) == 1 and n < 8:
            e, n = self.defs[e.id][0], n + 1
        return e

    def isself(self, e):
        return isinstance(e, ast.Name) and e.id in self.selfs

    def isdict(self, e):
        e = self.deref(e)
        return isinstance(e, ast.Attribute) and e.attr == '__dict__' and self.isself(e.value) or \
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'vars' and len(e.args) == 1 \
            and self.isself(e.args[0])

    def iskw(self, e):
        e = self.deref(e)
        if isinstance(e, ast.Name):
            return e.id in self.kws
        if isinstance(e, ast.Call) and not e.keywords:
            if isinstance(e.func, ast.Name) and e.func.id in ('dict', 'list', 'tuple', 'sorted', 'set') and len(e.args) == 1:
                return self.iskw(e.args[0])
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args:
                return self.iskw(e.func.value)
        return False

    def source(self, it):
        """(key-and-value?) when the iterable runs over every setting handed over"""
        it = self.deref(it)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'sorted', 'iter') and len(it.args) == 1:
            return self.source(it.args[0])
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and self.iskw(it.func.value) and not it.args:
            return {'items': 'items', 'keys': 'keys'}.get(it.func.attr)
        if self.iskw(it) or self.isdict(it):
            return 'keys'
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'keys' and self.isdict(it.func.value):
            return 'keys'
        if isinstance(it, ast.BinOp) and isinstance(it.op, ast.BitAnd) and self.source(it.left) and self.source(it.right):
            return 'keys'
        return None

    def cond(self, c, key, val):
        """'keep' only drops settings the object has no attribute for; 'drop' looks at something else"""
        c = self.deref(c)
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            n = self.deref(c.operand)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                return self.cond(n.operand, key, val)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
                return self.cond(ast.Compare(n.left, [ast.In()], n.comparators), key, val)
        if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And):
            r = [self.cond(v, key, val) for v in c.values]
            return 'drop' if 'drop' in r else '?' if '?' in r else 'keep'
        if isinstance(c, ast.Constant) and c.value is True:
            return 'keep'
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In) and isinstance(c.left, ast.Name) and c.left.id == key:
            r = self.deref(c.comparators[0])
            if self.iskw(r) or isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == 'keys' and self.iskw(r.func.value):
                return 'keep'
            if self.isdict(r) or isinstance(r, ast.Call) and (
                    isinstance(r.func, ast.Attribute) and r.func.attr == 'keys' and self.isdict(r.func.value) or
                    isinstance(r.func, ast.Name) and r.func.id in ('list', 'set', 'tuple', 'dir') and len(r.args) == 1 and
                    (self.isdict(r.args[0]) or self.isself(r.args[0]))):
                return 'keep'
            if isinstance(r, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in r.elts):
                return 'drop'
            return '?'
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'hasattr' and self.isself(c.args[0]):
            return 'keep'
        names = {n.id for n in ast.walk(c) if isinstance(n, ast.Name)}
        if names & ({key, val} - {None}) and not any(
                isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'get', 'startswith', 'endswith', 'lower') or isinstance(n.func, ast.Name) and n.func.id in (
                        'bool', 'isinstance', 'getattr', 'type', 'len', 'callable', 'str')) for n in ast.walk(c)):
            return 'drop'
        return '?'

    def value(self, v, key, val):
        v = self.deref(v)
        if isinstance(v, ast.Name):
            return v.id == val
        if isinstance(v, ast.Subscript) and self.iskw(v.value):
            return isinstance(v.slice, ast.Name) and v.slice.id == key
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'get' and self.iskw(v.func.value):
            return bool(v.args) and isinstance(v.args[0], ast.Name) and v.args[0].id == key
        return False

    def target(self, tg, src):
        if src == 'items':
            if isinstance(tg, ast.Tuple) and len(tg.elts) == 2 and all(isinstance(x, ast.Name) for x in tg.elts):
                return tg.elts[0].id, tg.elts[1].id
            return None, None
        return (tg.id, None) if isinstance(tg, ast.Name) else (None, None)

    def judge(self, conds, vgood, line):
        if 'drop' in conds:
            self.sites.append(('bad', line, 'a setting is dropped depending on its name or value'))
        elif '?' in conds or not vgood:
            self.sites.append(('und', line, 'condition or value not understood'))
        else:
            self.sites.append(('ok', line, ''))

    def mapping(self, e, line):
        if isinstance(e, ast.Name) and e.id in self.built:
            self.sites += [(st, line, m) for st, _, m in self.built[e.id]]
            return True
        e = self.deref(e)
        if self.iskw(e):
            self.sites.append(('ok', line, ''))
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict' and len(e.args) == 1:
            e = self.deref(e.args[0])
        if isinstance(e, ast.DictComp):
            k, v, gens = e.key, e.value, e.generators
        elif isinstance(e, (ast.ListComp, ast.GeneratorExp)) and isinstance(e.elt, (ast.Tuple, ast.List)) and len(e.elt.elts) == 2:
            (k, v), gens = e.elt.elts, e.generators
        else:
            return False
        src = self.source(gens[0].iter) if len(gens) == 1 else None
        if src is None:
            return False
        key, val = self.target(gens[0].target, src)
        if key is None or not (isinstance(k, ast.Name) and k.id == key):
            return False
        self.judge([self.cond(c, key, val) for c in gens[0].ifs], self.value(v, key, val), line)
        return True

    # -- statements
    def block(self, body, guards):
        for st in body:
            self.stmt(st, guards)

    def stmt(self, st, guards):
        if isinstance(st, FUNCS + (ast.ClassDef,)):
            return
        if isinstance(st, ast.If):
            a = len(self.sites)
            self.block(st.body, guards)
            b = len(self.sites)
            self.block(st.orelse, guards)
            c = len(self.sites)
            if b > a and c > b:
                return
            for i in range(a, c):
                if self.sites[i][0] == 'ok' and not (mentions(st.test, self.kws) and not mentions(st.test, self.selfs)):
                    self.sites[i] = ('cond', self.sites[i][1], 'settings are applied only when `%s`' % ast.unparse(st.test))
            return
        if isinstance(st, ast.For):
            src = self.source(st.iter)
            if src is not None:
                key, val = self.target(st.target, src)
                if key is not None and self.loop(st.body, key, val, []):
                    return
            self.block(st.body, guards)
            return
        for attr in ('body', 'orelse', 'finalbody'):
            if getattr(st, attr, None) and isinstance(getattr(st, attr), list):
                self.block(getattr(st, attr), guards)
        if isinstance(st, ast.Try):
            for h in st.handlers:
                self.block(h.body, guards)
        if isinstance(st, (ast.With, ast.While, ast.Try)):
            return
        for n in ast.walk(st):
            if isinstance(n, ast.Call):
                self.call(n)

    def loop(self, body, key, val, conds):
        """for key in kwargs: ... -> did it store the settings?"""
        found = False
        conds = list(conds)
        for st in body:
            if isinstance(st, ast.If):
                only = len(st.body) == 1 and isinstance(st.body[0], ast.Continue) and not st.orelse
                if only:
                    t = self.deref(st.test)
                    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                        conds.append(self.cond(t.operand, key, val))
                    elif isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn):
                        conds.append(self.cond(ast.Compare(t.left, [ast.In()], t.comparators), key, val))
                    else:
                        conds.append(self.cond(t, key, val))
                    continue
                a = len(self.sites)
                both = bool(st.orelse) and self.loop(st.body, key, val, conds) and self.loop(st.orelse, key, val, conds)
                if both:        # stored whichever way the test goes
                    found = True
                    continue
                del self.sites[a:]
                if self.loop(st.body, key, val, conds + [self.cond(st.test, key, val)]):
                    found = True
                if st.orelse and self.loop(st.orelse, key, val, conds + [self.cond(ast.UnaryOp(ast.Not(), st.test), key, val)]):
                    found = True
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                tg = st.targets[0]
                if isinstance(tg, ast.Subscript) and self.isdict(tg.value) and isinstance(tg.slice, ast.Name) and tg.slice.id == key:
                    self.judge(conds, self.value(st.value, key, val), st.lineno)
                    found = True
                elif isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and isinstance(tg.slice, ast.Name) and tg.slice.id == key \
                        and isinstance(self.deref(tg.value), (ast.Dict, ast.Call)):
                    k = len(self.sites)
                    self.judge(conds, self.value(st.value, key, val), st.lineno)
                    self.built.setdefault(tg.value.id, []).extend(self.sites[k:])
                    del self.sites[k:]
                    found = True
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault' and self.isdict(n.func.value):
                    self.sites.append(('bad', st.lineno, 'a setting does not replace the value already there'))
                    found = True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and self.isself(
                        n.args[0]) and isinstance(n.args[1], ast.Name) and n.args[1].id == key:
                    self.judge(conds, self.value(n.args[2], key, val), st.lineno)
                    found = True
        return found

    def call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'update' and self.isdict(f.value):
            arg = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg is None), None)
            if arg is None or not self.mapping(arg, n.lineno):
                self.sites.append(('und', n.lineno, 'mapping not understood'))
            return
        kwpass = [k for k in n.keywords if k.arg is None and self.iskw(k.value)]
        pos = [i for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id in self.kws]
        if not kwpass and not pos:
            return
        if isinstance(f, ast.Attribute) and (isinstance(f.value, ast.Call) and getattr(f.value.func, 'id', '') == 'super'
                                             or mentions(f.value, self.selfs)):
            if f.attr == 'setAttr':
                self.sites.append(('ok', n.lineno, ''))
                return
            m = self.prog.method(self.cls, f.attr) if self.cls else None
            if m is not None and self.depth < 4:
                self.enter(m.module, m.node, n, kwpass, 1)
            return
        if isinstance(f, ast.Name) and self.depth < 4:
            for g in ast.walk(self.fn):
                if isinstance(g, FUNCS) and g is not self.fn and g.name == f.id:
                    self.enter(self.module, g, n, kwpass, 0)
                    return
        g = callee(self.prog, self.module, self.fn, f)
        if g is not None and self.depth < 4:
            self.enter(g.module, g.node, n, kwpass, 0)

    def enter(self, module, fn, n, kwpass, skip):
        ps = [x.arg for x in fn.args.posonlyargs + fn.args.args]
        ss = {ps[0]} if skip and ps else set()
        kk = {fn.args.kwarg.arg} if kwpass and fn.args.kwarg else set()
        for i, a in enumerate(n.args):
            if i + skip < len(ps) and isinstance(a, ast.Name):
                if a.id in self.selfs:
                    ss.add(ps[i + skip])
                if a.id in self.kws:
                    kk.add(ps[i + skip])
        for k in n.keywords:
            if isinstance(k.value, ast.Name) and k.arg in ps:
                if k.value.id in self.selfs:
                    ss.add(k.arg)
                if k.value.id in self.kws:
                    kk.add(k.arg)
        free = {x for x in self.selfs if x not in ps} if module is self.module and skip == 0 else set()
        freek = {x for x in self.kws if x not in ps} if module is self.module and skip == 0 else set()
        inner = any(x is fn for x in ast.walk(self.fn))
        ss |= free if inner else set()
        kk |= freek if inner else set()
        if ss and kk:
            s = Scan(self.prog, module, fn, ss, kk, self.cls, self.depth + 1)
            self.sites += [(st, n.lineno, m) for st, _, m in s.sites]


def early_exit(fn, line):
    """A return before the settings are applied."""
    for n in ast.walk(fn):
        if isinstance(n, ast.Return) and n.lineno < line:
            return n.lineno
    return None


@rule('C06 C05')
def setattr_applies(ctx, prop):
    """Each class's setAttr stores every setting it is given under its own name, whatever the value."""
    for f in ctx.prog.all_funcs():
        if f.cls is None or f.node.name != 'setAttr':
            continue
        key = 'settings applied by %s' % f.qual
        a = f.node.args
        if a.kwarg is None:
            yield bad(key, f.where, 'setAttr takes no keyword settings')
            continue
        s = Scan(ctx.prog, f.module, f.node, {first_param(f.node)}, {a.kwarg.arg}, f.cls)
        pops = [n for n in ast.walk(f.node) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'pop' and s.iskw(n.value.func.value)]
        dels = [n for n in ast.walk(f.node) if isinstance(n, ast.Delete) and any(
            isinstance(t, ast.Subscript) and s.iskw(t.value) for t in n.targets)]
        for n in pops + dels:
            yield bad(key, '%s:%d' % (f.module.rel, n.lineno), 'a setting is thrown away')
        good = [x for x in s.sites if x[0] == 'ok']
        if good:
            e = early_exit(f.node, good[0][1])
            if e is not None:
                yield undecided(key, '%s:%d' % (f.module.rel, e), 'returns before the settings are applied')
            elif not pops + dels:
                yield ok(key, f.where, 'line %d' % good[0][1])
        elif any(x[0] in ('bad', 'cond') for x in s.sites):
            for st, line, m in s.sites:
                if st in ('bad', 'cond'):
                    yield bad(key, '%s:%d' % (f.module.rel, line), m)
        elif s.sites:
            yield undecided(key, f.where, s.sites[0][2])
        elif any(isinstance(n, ast.Name) and n.id == a.kwarg.arg for n in ast.walk(f.node)):
            yield undecided(key, f.where, 'settings handed on in an unknown way')
        else:
            yield bad(key, f.where, 'the settings are ignored')
