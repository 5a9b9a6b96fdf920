"""C21: names, attributes, call shapes and dependency API; definite assignment of locals."""
import ast, builtins, json, os, subprocess, sys
from analysis.rulebase import rule, ok, bad, undecided
from analysis.loader import PKG
from analysis.selfflow import callee

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


# ---------------------------------------------------------------- helpers
def own_modules(ctx):
    return [m for n, m in sorted(ctx.prog.modules.items()) if n == PKG or n.startswith(PKG + '.')]


def all_args(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x]


def walk_scope(node):
    """Nodes of a function body without those of nested functions and classes (comprehensions included)."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNCS):
            todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d])
            if not isinstance(n, ast.Lambda):
                todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.ClassDef):
            continue
        todo.extend(ast.iter_child_nodes(n))


def bound_names(fn):
    out = set(all_args(fn.args))
    glob = set()
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for n in walk_scope(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    return out, glob


def dead_after_raise(body):
    """Statements of a body that can run: those up to an unconditional raise or return."""
    out = []
    for st in body:
        out.append(st)
        if isinstance(st, (ast.Raise, ast.Return, ast.Break, ast.Continue)):
            break
    return out


def live_walk(body):
    """Statements reachable from a function body, skipping code after an unconditional raise/return."""
    for st in dead_after_raise(body):
        yield st
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(st, f, None)
            if isinstance(b, list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                yield from live_walk(b)
        for h in getattr(st, 'handlers', ()):
            yield from live_walk(h.body)


def functions_of(module):
    """(qualified name, function node, class name or None, enclosing function nodes)"""
    def go(body, prefix, cls, enc):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield prefix + st.name, st, cls, enc
                yield from go([x for x in ast.walk(st) if x is not st and isinstance(x, ast.FunctionDef)],
                              prefix + st.name + '.', None, enc + [st])
            elif isinstance(st, ast.ClassDef):
                yield from go(st.body, prefix + st.name + '.', st.name, enc)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from go(getattr(st, f, []), prefix, cls, enc)
                for h in getattr(st, 'handlers', ()):
                    yield from go(h.body, prefix, cls, enc)
    yield from go(module.tree.body, module.name[len(PKG) + 1:] + '.' if module.name != PKG else '', None, [])


def module_names(ctx, m, seen=None):
    seen = seen or set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    names = set(m.functions) | set(m.classes) | set(m.imports) | set(m.assigns)
    for n in walk_scope(m.tree.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            names.update((a.asname or a.name).split('.')[0] for a in n.names if a.name != '*')
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
    for b in m.star:
        mm = ctx.prog.modules.get(b)
        if mm is not None:
            names |= module_names(ctx, mm, seen)
        else:
            names.add('*')
    return names


# ---------------------------------------------------------------- unresolved names
@rule('C21')
def unresolved_names(ctx, prop):
    for m in own_modules(ctx):
        top = module_names(ctx, m)
        if '*' in top:
            yield undecided('names %s' % m.name, m.rel, 'star import of an external module')
            continue
        for qual, fn, cls, enc in functions_of(m):
            scope = set()
            for e in enc + [fn]:
                scope |= bound_names(e)[0]
            n_ok, missing = 0, []

            def check(body, scope):
                nonlocal n_ok
                for st in (live_walk(body) if isinstance(body, list) else [body]):
                    tops = [st] if not hasattr(st, 'body') or isinstance(st, (ast.Lambda, ast.IfExp)) else [
                        c for f in st._fields if f not in ('body', 'orelse', 'finalbody', 'handlers')
                        for c in (getattr(st, f) if isinstance(getattr(st, f), list) else [getattr(st, f)])
                        if isinstance(c, ast.AST)]
                    if isinstance(st, ast.Try):
                        tops = [h.type for h in st.handlers if h.type]
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        continue
                    for tnode in tops:
                        for n in _names(tnode, scope):
                            if n.id in n.scope or n.id in top or n.id in BUILTINS:
                                n_ok += 1
                            else:
                                missing.append(n)
            check(fn.body, scope)
            key = 'names in %s' % qual
            if missing:
                for n in missing:
                    yield bad(key, '%s:%d (%s)' % (m.rel, n.lineno, qual),
                              'the name %r is not defined anywhere in scope' % n.id)
            else:
                yield ok(key, '%s:%d' % (m.rel, fn.lineno), '%d names' % n_ok)


class _N:
    def __init__(self, id, lineno, scope):
        self.id, self.lineno, self.scope = id, lineno, scope


def _names(node, scope):
    if isinstance(node, ast.Lambda):
        inner = scope | set(all_args(node.args))
        for d in node.args.defaults:
            yield from _names(d, scope)
        yield from _names(node.body, inner)
        return
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        inner = set(scope)
        for g in node.generators:
            inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for c in ast.iter_child_nodes(node):
            yield from _names(c, inner)
        return
    if isinstance(node, ast.Name):
        if isinstance(node.ctx, ast.Load):
            yield _N(node.id, node.lineno, scope)
        return
    for c in ast.iter_child_nodes(node):
        yield from _names(c, scope)


# ---------------------------------------------------------------- definite assignment
class Limit(Exception):
    pass


class Worlds:
    """Sets of (facts, defined locals) with facts known truth values of branch conditions."""
    MAX = 400

    def __init__(self, ws):
        self.ws = ws
        if len(ws) > self.MAX:
            raise Limit()


def atom_key(e):
    """(key, polarity) of an atomic condition; comparisons are oriented."""
    pol = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, pol = e.operand, not pol
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op = e.ops[0]
        l, r = ast.dump(e.left), ast.dump(e.comparators[0])
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and (const_dump(l), l) > (const_dump(r), r):
            l, r = r, l
        if isinstance(op, (ast.NotEq,)):
            return ('==', l, r), not pol
        if isinstance(op, ast.Eq):
            return ('==', l, r), pol
        if isinstance(op, ast.IsNot):
            return ('is', l, r), not pol
        if isinstance(op, ast.Is):
            return ('is', l, r), pol
        if isinstance(op, ast.NotIn):
            return ('in', l, r), not pol
        if isinstance(op, ast.In):
            return ('in', l, r), pol
        if isinstance(op, ast.Gt):
            return ('<', r, l), pol
        if isinstance(op, ast.Lt):
            return ('<', l, r), pol
        if isinstance(op, ast.GtE):
            return ('<', l, r), not pol
        if isinstance(op, ast.LtE):
            return ('<', r, l), not pol
    return ('t', ast.dump(e), ''), pol


def const_dump(s):
    return s.startswith('Constant(')


class DA:
    def __init__(self, fn, once=False, noreturn=None):
        self.fn = fn
        self.noreturn = noreturn or (lambda c: False)
        self.locals, self.globs = bound_names(fn)
        self.locals -= self.globs
        self.params = set(all_args(fn.args))
        self.reports, self.fine = {}, set()
        self.reads = 0
        self.breaks, self.conts = [], []
        self.once = once                     # assume every for loop runs at least once
        self.flags = {n.id for t in ast.walk(fn) if isinstance(t, (ast.If, ast.While, ast.IfExp)) for n in ast.walk(t.test)
                      if isinstance(n, ast.Name)}

    def run(self):
        w = {(frozenset(), frozenset(self.params))}
        self.block(self.fn.body, w)
        return self.reports

    # worlds is a set of (facts frozenset of (key,bool), defined frozenset)
    def cap(self, w):
        if len(w) > 600:
            # merge: keep, per defined set, the facts shared by all
            by = {}
            for f, d in w:
                by[d] = (by[d] & f) if d in by else f
            w = {(f, d) for d, f in by.items()}
            self.merged = True
            if len(w) > 600:
                raise Limit()
        return w

    merged = False

    def read(self, name, w, node):
        if name not in self.locals:
            return
        self.reads += 1
        k = (name, node.lineno)
        if any(name not in d for f, d in w):
            allund = all(name not in d for f, d in w)
            self.reports[k] = self.reports.get(k, True) and allund and k not in self.fine
        else:
            self.fine.add(k)
            if k in self.reports:
                self.reports[k] = False

    def kill(self, name, w):
        nm = "id='%s'" % name
        out = set()
        for f, d in w:
            out.add((frozenset((k, v) for k, v in f if nm not in k[1] and nm not in k[2]), d | {name}))
        return out

    def killattr(self, attr, w):
        nm = "attr='%s'" % attr
        return {(frozenset((k, v) for k, v in f if nm not in k[1] and nm not in k[2]), d) for f, d in w}

    def expr(self, e, w):
        """Reads of an expression (no branching inside, except conditional expressions and boolean operators)."""
        if e is None:
            return w
        if isinstance(e, ast.IfExp):
            a, b = self.cond(e.test, w)
            if a:
                a = self.expr(e.body, a)
            if b:
                b = self.expr(e.orelse, b)
            return w
        if isinstance(e, ast.BoolOp):
            self.cond(e, w)
            return w
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.expr(d, w)
            return w
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            self.expr(e.generators[0].iter, w)
            w2 = {(f, d | inner) for f, d in w}
            for i, g in enumerate(e.generators):
                if i:
                    self.expr(g.iter, w2)
                for c in g.ifs:
                    w2, _ = self.cond(c, w2)
            if w2:
                if isinstance(e, ast.DictComp):
                    self.expr(e.key, w2)
                    self.expr(e.value, w2)
                else:
                    self.expr(e.elt, w2)
            return w
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, w)
            return self.kill(e.target.id, w)
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and w:
                self.read(e.id, w, e)
            return w
        for c in ast.iter_child_nodes(e):
            w = self.expr(c, w)
        return w

    def cond(self, e, w, quiet=False):
        """(worlds where e may be true, worlds where e may be false)"""
        if not w:
            return set(), set()
        if quiet:
            keep = self.read
            self.read = lambda *a: None
            try:
                return self.cond(e, w)
            finally:
                self.read = keep
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.cond(e.operand, w)
            return b, a
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                t, f = w, set()
                for v in e.values:
                    t, g = self.cond(v, t)
                    f = f | g
                return t, self.cap(f)
            f, t = w, set()
            for v in e.values:
                g, f = self.cond(v, f)
                t = t | g
            return self.cap(t), f
        if isinstance(e, ast.Constant):
            return (w, set()) if e.value else (set(), w)
        w = self.expr(e, w)
        k, pol = atom_key(e)
        T, F = set(), set()
        for f, d in w:
            for val, out in ((True, T), (False, F)):
                truth = val if pol else not val          # truth of the key
                known = self.lookup(f, k)
                if known is not None and known != truth:
                    continue
                out.add((f if known is not None else f | {(k, truth)}, d))
        return self.cap(T), self.cap(F)

    def lookup(self, facts, k):
        for kk, v in facts:
            if kk == k:
                return v
            if v and k[0] == '==' and kk[0] == '==' and kk[1] == k[1] and const_dump(kk[2]) and const_dump(k[2]):
                return False              # x == 'a' holds, so x == 'b' does not
            if k[0] == 't' and kk[0] == 'is' and v and kk[1] == k[1] and kk[2] == 'Constant(value=None)':
                return False              # None is falsy
            if k[0] == 'is' and k[2] == 'Constant(value=None)' and kk[0] == 't' and v and kk[1] == k[1]:
                return False
        return None

    def target(self, tg, w):
        if isinstance(tg, ast.Name):
            return self.kill(tg.id, w)
        if isinstance(tg, (ast.Tuple, ast.List)):
            for x in tg.elts:
                w = self.target(x, w)
            return w
        if isinstance(tg, ast.Starred):
            return self.target(tg.value, w)
        if isinstance(tg, ast.Attribute):
            w = self.expr(tg.value, w)
            return self.killattr(tg.attr, w)
        if isinstance(tg, ast.Subscript):
            w = self.expr(tg.value, w)
            return self.expr(tg.slice, w)
        return w

    def block(self, body, w):
        for st in body:
            if not w:
                return w
            w = self.stmt(st, w)
        return w

    def assign(self, tg, value, w):
        """tg = value for a value already read; keeps what is known about the value."""
        if isinstance(tg, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(tg.elts) == len(value.elts) \
                and not any(isinstance(x, ast.Starred) for x in tg.elts + value.elts):
            put = {n.id for x in tg.elts for n in ast.walk(x) if isinstance(n, ast.Name)}
            if not any(isinstance(n, ast.Name) and n.id in put for n in ast.walk(value)):
                for a, b in zip(tg.elts, value.elts):
                    w = self.assign(a, b, w)
                return w
        if not isinstance(tg, ast.Name):
            return self.target(tg, w)
        name = ast.dump(ast.Name(tg.id, ast.Load()))
        if isinstance(value, ast.Name) and value.id != tg.id:
            # a copy: what is known about the one holds for the other
            w = self.kill(tg.id, w)
            src = ast.dump(ast.Name(value.id, ast.Load()))
            return {(f | {((k[0], name if k[1] == src else k[1], name if k[2] == src else k[2]), v) for k, v in f
                          if src in (k[1], k[2])}, d) for f, d in w}
        if tg.id in self.flags and (isinstance(value, (ast.Compare, ast.BoolOp)) or isinstance(
                value, ast.UnaryOp) and isinstance(value.op, ast.Not)):
            # a condition kept in a local
            k = ('t', name, '')
            a, b = self.cond(value, w, quiet=True)
            return self.cap({(f | {(k, True)}, d) for f, d in self.kill(tg.id, a)} | {(f | {(k, False)}, d) for f, d in self.kill(tg.id, b)})
        if isinstance(value, ast.IfExp) and tg.id in self.flags:
            a, b = self.cond(value.test, w, quiet=True)
            return self.cap(self.assign(tg, value.body, a) | self.assign(tg, value.orelse, b))
        w = self.kill(tg.id, w)
        if isinstance(value, ast.Constant):
            v = value.value
            if v is None:
                fact = (('is', name, 'Constant(value=None)'), True)
            elif isinstance(v, bool):
                fact = (('t', name, ''), v)
            elif isinstance(v, (str, int, float)):
                fact = (('==', name, ast.dump(value)), True)
            else:
                return w
            w = {(f | {fact}, d) for f, d in w}
        return w

    def stmt(self, st, w):
        if isinstance(st, ast.Assign):
            w = self.expr(st.value, w)
            for tg in st.targets:
                w = self.assign(tg, st.value, w)
            return w
        if isinstance(st, ast.AnnAssign):
            if st.value:
                w = self.expr(st.value, w)
                w = self.target(st.target, w)
            return w
        if isinstance(st, ast.AugAssign):
            w = self.expr(st.value, w)
            if isinstance(st.target, ast.Name):
                self.read(st.target.id, w, st.target)
            return self.target(st.target, w)
        if isinstance(st, ast.If):
            a, b = self.cond(st.test, w)
            a = self.block(st.body, a) if a else a
            b = self.block(st.orelse, b) if b else b
            return self.cap(a | b)
        if isinstance(st, (ast.For, ast.While)):
            return self.loop(st, w)
        if isinstance(st, ast.Try):
            start = set(w)
            seen = set(w)
            cur = w
            for s in st.body:
                if not cur:
                    break
                cur = self.stmt(s, cur)
                seen |= cur
            h_out = set()
            for h in st.handlers:
                hw = self.cap(set(seen))
                if h.name:
                    hw = self.kill(h.name, hw)
                h_out |= self.block(h.body, hw)
            if cur:
                cur = self.block(st.orelse, cur)
            out = self.cap(cur | h_out)
            if st.finalbody:
                out = self.block(st.finalbody, out)
            return out
        if isinstance(st, ast.With):
            for it in st.items:
                w = self.expr(it.context_expr, w)
                if it.optional_vars is not None:
                    w = self.target(it.optional_vars, w)
            return self.block(st.body, w)
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                w = self.expr(c, w)
            return set()
        if isinstance(st, ast.Break):
            self.breaks[-1] |= w
            return set()
        if isinstance(st, ast.Continue):
            self.conts[-1] |= w
            return set()
        if isinstance(st, ast.Delete):
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    self.read(tg.id, w, tg)
                    w = {(f, d - {tg.id}) for f, d in w}
                else:
                    w = self.target(tg, w)
            return w
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return self.kill(st.name, w)
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                w = self.kill((a.asname or a.name).split('.')[0], w)
            return w
        if isinstance(st, ast.Expr):
            w = self.expr(st.value, w)
            c = st.value
            if isinstance(c, ast.Call):
                # a method call may change the attributes of its receiver
                if isinstance(c.func, ast.Attribute):
                    base = c.func.value
                    while isinstance(base, ast.Attribute):
                        base = base.value
                    if isinstance(base, ast.Name):
                        nm = "Attribute(value=Name(id='%s'" % base.id
                        w = {(frozenset((k, v) for k, v in f if nm not in k[1] and nm not in k[2]), d) for f, d in w}
                if isinstance(c.func, ast.Attribute) and c.func.attr == 'exit' and isinstance(
                        c.func.value, ast.Name) and c.func.value.id == 'sys' or self.noreturn(c):
                    return set()
            return w
        if isinstance(st, ast.Assert):
            t_, f_ = self.cond(st.test, w)
            return t_
        return w

    def modified(self, st):
        names, attrs = set(), set()
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                attrs.add(n.attr)
        return names, attrs

    def index_name(self, st):
        it = st.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id in ('range', 'xrange') and (len(it.args) == 1 or len(it.args) == 2 and isinstance(
                    it.args[0], ast.Constant) and it.args[0].value == 0) and isinstance(st.target, ast.Name):
                return st.target.id
            if it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(st.target, ast.Tuple) and isinstance(
                    st.target.elts[0], ast.Name):
                return st.target.elts[0].id
        return None

    def loop(self, st, w):
        isfor = isinstance(st, ast.For)
        if isfor:
            w = self.expr(st.iter, w)
        names, attrs = self.modified(st)

        def forget(ws):
            out = set()
            for f, d in ws:
                keep = frozenset((k, v) for k, v in f if not any(
                    ("id='%s'" % n) in k[1] or ("id='%s'" % n) in k[2] for n in names) and not any(
                    ("attr='%s'" % a) in k[1] or ("attr='%s'" % a) in k[2] for a in attrs))
                out.add((keep, d))
            return out
        zero_ok = True
        if isfor:
            it = st.iter
            if isinstance(it, (ast.List, ast.Tuple)) and it.elts:
                zero_ok = False
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'xrange') and all(
                    isinstance(a, ast.Constant) for a in it.args) and len(it.args) == 1 and it.args[0].value > 0:
                zero_ok = False
        elif isinstance(st.test, ast.Constant) and st.test.value:
            zero_ok = False
        head = set(w)
        result = set(w) if (zero_ok and isfor and not self.once) else set()
        brk = set()
        cur = head
        entry_all = set(head)
        for it in range(3):
            if isfor:
                t_, f_ = (cur, set())
                t_ = self.target(st.target, t_)
                ix = self.index_name(st)
                if ix is not None:
                    # a counter: zero in the first iteration, positive afterwards
                    nm, zero = ast.dump(ast.Name(ix, ast.Load())), ast.dump(ast.Constant(0))
                    facts = {(('==', nm, zero), it == 0), (('<', zero, nm), it > 0), (('t', nm, ''), it > 0)}
                    t_ = {(f | facts, d) for f, d in t_}
            else:
                t_, f_ = self.cond(st.test, cur)
                result |= f_
            self.breaks.append(set())
            self.conts.append(set())
            o = self.block(st.body, t_)
            brk |= self.breaks.pop()
            o = o | self.conts.pop()
            o = self.cap(forget(o))
            if isfor:
                result |= o
            new = o - entry_all
            entry_all |= o
            if not new and not (it == 0 and o and isfor and self.index_name(st)):
                break
            cur = new or o
        result = self.cap(result)
        if st.orelse and result:
            result = self.block(st.orelse, result)
        return self.cap(result | brk)


@rule('C21')
def definite_assignment(ctx, prop):
    """Each read of a local is preceded by an assignment on every path."""
    for m in own_modules(ctx):
        for qual, fn, cls, enc in functions_of(m):
            key = 'locals assigned in %s' % qual
            nr = noreturn(ctx.prog, m, fn)
            da = DA(fn, noreturn=nr)
            try:
                rep = da.run()
            except (Limit, RecursionError):
                yield undecided(key, m.rel, 'too many condition combinations')
                continue
            if not rep:
                yield ok(key, '%s:%d' % (m.rel, fn.lineno), '%d reads' % da.reads)
                continue
            try:
                rep1 = DA(fn, once=True, noreturn=nr).run()
            except (Limit, RecursionError):
                rep1 = rep
            for (name, line), sure in sorted(rep.items(), key=lambda kv: kv[0][1]):
                where = '%s:%d (%s)' % (m.rel, line, qual)
                k2 = '%s: %s' % (key, name)
                if not sure and (name, line) not in rep1:
                    yield undecided(k2, where, 'unassigned only if a loop runs zero times')
                elif not sure and accumulator(fn, name, line):
                    yield undecided(k2, where, 'an accumulator whose first value is set in the iteration that starts it')
                elif not sure and correlated(fn, name, line):
                    yield undecided(k2, where, 'assigned together with a local the read depends on')
                elif da.merged and not sure:
                    yield undecided(k2, where, 'read where it may be unassigned (conditions merged)')
                else:
                    yield bad(k2, where, 'the local %r is read where %s has assigned it' % (
                        name, 'no path' if sure else 'some path has not') if sure else
                        'the local %r is read on a path that never assigned it' % name)


def noreturn(prog, module, fn):
    """Does a call statement never come back (a package function that only raises)?"""
    memo = {}

    def raises(body):
        for st in body:
            if isinstance(st, ast.Raise):
                return True
            if isinstance(st, ast.If) and st.orelse and raises(st.body) and raises(st.orelse):
                return True
            if not isinstance(st, (ast.Expr, ast.Assign, ast.Pass, ast.AugAssign)):
                return False
        return False

    def test(c):
        if isinstance(c.func, ast.Name) and c.func.id in memo:
            return memo[c.func.id]
        g = callee(prog, module, fn, c.func)
        r = g is not None and raises(g.node.body)
        if isinstance(c.func, ast.Name):
            memo[c.func.id] = r
        return r
    return test


def correlated(fn, name, line):
    """Is the read guarded by a test on a local that is set together with the name (to a value not tracked)?"""
    guards = set()

    def find(body, g):
        for st in body:
            if not st.lineno <= line <= max([getattr(n, 'end_lineno', 0) or 0 for n in ast.walk(st)] + [st.lineno]):
                continue
            t = getattr(st, 'test', None)
            g2 = g | {n.id for n in ast.walk(t) if isinstance(n, ast.Name)} if t is not None else g
            guards.update(g2)
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(st, f, None)
                if isinstance(b, list):
                    find(b, g2)
            for h in getattr(st, 'handlers', ()):
                find(h.body, g2)
    find(fn.body, set())

    def names(st):
        return {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and n is not fn and any(name in names(st) for st in b if isinstance(st, ast.Assign)):
                for st in b:
                    if isinstance(st, ast.Assign) and not isinstance(st.value, (ast.Constant, ast.Compare, ast.BoolOp)) and \
                            (names(st) - {name}) & guards:
                        return True
    return False


def accumulator(fn, name, line):
    """The read at line is x = f(.. x ..) inside a loop that also assigns x without reading it."""
    for lp in ast.walk(fn):
        if not isinstance(lp, (ast.For, ast.While)):
            continue
        grow = start = False
        for st in ast.walk(lp):
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                for v in ([st.value.body, st.value.orelse] if isinstance(st.value, ast.IfExp) else [st.value]):
                    rd = [n for n in ast.walk(v) if isinstance(n, ast.Name) and n.id == name]
                    if any(n.lineno == line for n in rd):
                        grow = True
                    elif not rd:
                        start = True
        if grow and start:
            return True
    return False
