"""Files are closed after use; settings handed to a constructor are not thrown away before they are applied."""
import ast

from analysis.rulebase import rule, ok, bad, undecided

PKG = 'misfit'
OPENERS = {'open', 'io.open', 'gzip.open', 'bz2.open', 'codecs.open'}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + '.' + e.attr
    return None


def own(fn):
    """nodes of a function, nested functions left out"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


@rule('C22')
def files_closed(ctx, prop):
    """Each opened file is closed: by a with statement, by close(), or by handing it to a function that does."""
    for f in ctx.prog.all_funcs():
        fn = f.node
        nodes = list(own(fn))
        opens = [n for n in nodes if isinstance(n, ast.Call) and dotted(n.func) in OPENERS]
        if not opens:
            continue
        withs = {id(i.context_expr) for n in nodes if isinstance(n, (ast.With, ast.AsyncWith)) for i in n.items}
        withnames = {i.context_expr.id for n in nodes if isinstance(n, ast.With) for i in n.items
                     if isinstance(i.context_expr, ast.Name)}
        wrapped = {id(a) for n in nodes if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in
                   ('closing', 'enter_context', 'push', 'callback') for a in n.args}
        closed = {dotted(n.func.value) for n in nodes if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                  and n.func.attr == 'close'} | {dotted(a) for n in nodes if isinstance(n, ast.Call) for a in n.args
                                                 if (dotted(n.func) or '').split('.')[-1] in ('closing', 'enter_context')}
        closed |= {dotted(n) for m in nodes if isinstance(m, ast.Call) for n in m.args
                   if isinstance(n, ast.Attribute) and n.attr == 'close' for n in [n.value]}
        for c in opens:
            key = '%s: file opened at %s is closed' % (f.qual[len(PKG) + 1:], ast.unparse(c)[:60])
            where = '%s:%d (%s)' % (f.module.rel, c.lineno, fn.name)
            if id(c) in withs or id(c) in wrapped:
                yield ok(key, where, 'with statement')
                continue
            tgt = None
            for n in nodes:
                if isinstance(n, ast.Assign) and n.value is c:
                    tgt = n.targets[0]
                if isinstance(n, ast.NamedExpr) and n.value is c:
                    tgt = n.target
                if isinstance(n, ast.Return) and n.value is c:
                    tgt = 'returned'
            if tgt == 'returned':
                yield undecided(key, where, 'the open file is returned')
            elif tgt is not None:
                nm = dotted(tgt)
                if nm in closed or nm in withnames:
                    yield ok(key, where, 'closed by name')
                elif any(isinstance(n, ast.Return) and n.value is not None and dotted(n.value) == nm for n in nodes):
                    yield undecided(key, where, 'the open file is returned')
                elif isinstance(tgt, ast.Name):
                    yield bad(key, where, 'the file opened here is never closed')
                else:
                    yield undecided(key, where, 'kept as %s' % nm)
            elif any(isinstance(n, ast.Call) and (dotted(n.func) or '').startswith(('pickle.', 'np.', 'numpy.')) and
                     any(a is c for a in n.args) for n in nodes) or any(
                         isinstance(n, ast.Attribute) and n.value is c for n in nodes):
                yield bad(key, where, 'the file is opened in passing and never closed')
            else:
                yield undecided(key, where, 'the open file goes elsewhere')


@rule('C06')
def keywords_kept(ctx, prop):
    """A constructor or setter does not throw away or replace a setting it was given by keyword."""
    for cls in ctx.prog.classes.values():
        attrs = set()
        for k in ctx.prog.mro(cls) if hasattr(ctx.prog, 'mro') else [cls]:
            for m in k.methods.values():
                attrs |= {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        for m in cls.methods.values():
            kw = m.node.args.kwarg
            if kw is None:
                continue
            kw = kw.arg
            nodes = list(own(m.node))
            key = '%s: keyword settings are kept' % m.qual[len(PKG) + 1:]
            problem = None
            for n in nodes:
                # kwargs.pop('x') with the value unused
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                        and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == kw and \
                        n.value.func.attr in ('pop', 'clear'):
                    a = n.value.args
                    if n.value.func.attr == 'clear' or a and isinstance(a[0], ast.Constant) and a[0].value in attrs and \
                            not read_before(nodes, kw, a[0].value, n.lineno):
                        problem = n
                if isinstance(n, ast.Delete):
                    for tg in n.targets:
                        if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and tg.value.id == kw and \
                                isinstance(tg.slice, ast.Constant) and tg.slice.value in attrs and \
                                not read_before(nodes, kw, tg.slice.value, n.lineno):
                            problem = n
                if isinstance(n, ast.Assign):
                    for tg in n.targets:
                        if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and tg.value.id == kw and \
                                isinstance(tg.slice, ast.Constant) and tg.slice.value in attrs and \
                                isinstance(n.value, ast.Constant) and not tested(nodes, kw, n):
                            problem = n
            where = '%s:%d (%s)' % (m.module.rel, (problem or m.node).lineno, m.node.name)
            if problem is not None:
                yield bad(key, where, '%s drops the user\'s setting' % ast.unparse(problem)[:80])
            else:
                yield ok(key, where, 'no keyword removed or replaced')


def read_before(nodes, kw, name, line):
    for n in nodes:
        if isinstance(n, ast.Constant) and n.value == name and n.lineno < line:
            return True
        if isinstance(n, ast.keyword) and n.arg is None and isinstance(n.value, ast.Name) and n.value.id == kw and n.value.lineno < line:
            pass
    return False


def tested(nodes, kw, st):
    """the assignment is under a test naming the keywords (a default for a missing one)"""
    for n in nodes:
        if isinstance(n, ast.If) and any(x is st for x in ast.walk(n)) and any(
                isinstance(x, ast.Name) and x.id == kw for x in ast.walk(n.test)):
            return True
    return False
