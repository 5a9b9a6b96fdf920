"""Functions that receive an object: which functions a method hands its own object to, under which name."""
import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


class Piece:
    """A function body working on the object, with the names that hold it there."""
    def __init__(self, module, node, names, cls, cross):
        self.module, self.node, self.names, self.cls, self.cross = module, node, names, cls, cross


def first_param(fn):
    a = fn.args.posonlyargs + fn.args.args
    return a[0].arg if a else None


def aliases(fn, names):
    names = set(names)
    while True:
        more = set(names)
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                more |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        if more == names:
            return names
        names = more


def param_of(fn, call, names, skip=0):
    """Parameters of fn that receive one of the names in this call."""
    out = []
    pos = [x.arg for x in fn.args.posonlyargs + fn.args.args][skip:]
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Name) and a.id in names and i < len(pos):
            out.append(pos[i])
    kn = {x.arg for x in fn.args.args + fn.args.kwonlyargs}
    for k in call.keywords:
        if k.arg in kn and isinstance(k.value, ast.Name) and k.value.id in names:
            out.append(k.arg)
    return out


def callee(prog, module, fn, e):
    """Package function called by name or module attribute."""
    if isinstance(e, ast.Name):
        r = prog.resolve(module.name, e.id)
    elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        b = prog.resolve(module.name, e.value.id)
        r = prog.resolve(b[1], e.attr) if b and b[0] == 'mod' else None
    else:
        r = None
    return r[1] if r and r[0] == 'func' else None


def pieces(prog, module, fn, names=None, cls=None):
    """The function and every package function it hands the object to (not through methods of the object)."""
    names = {first_param(fn)} if names is None else set(names)
    out, seen = [], set()
    todo = [(module, fn, names, False)]
    while todo:
        m, f, ns, cross = todo.pop()
        ns = aliases(f, ns)
        k = (id(f), frozenset(ns))
        if k in seen or len(seen) > 200:
            continue
        seen.add(k)
        out.append(Piece(m, f, ns, cls, cross))
        for n in ast.walk(f):
            if isinstance(n, ast.Call):
                g = callee(prog, m, f, n.func)
                if g is not None:
                    ps = param_of(g.node, n, ns)
                    if ps:
                        todo.append((g.module, g.node, set(ps), True))
            elif isinstance(n, FUNCS) and n is not f:
                # nested function: parameters that receive the object
                for c in ast.walk(f):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == n.name:
                        ps = param_of(n, c, ns)
                        if ps:
                            todo.append((m, n, set(ps), False))
    return out


def stores(piece):
    """Attribute names the piece stores on (or deletes from) the object."""
    out = set()
    for n in ast.walk(piece.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,)) and isinstance(n.value, ast.Name) and n.value.id in piece.names:
            out.add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) >= 2 and isinstance(
                n.args[0], ast.Name) and n.args[0].id in piece.names and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and isinstance(
                n.value, ast.Attribute) and n.value.attr == '__dict__' and isinstance(n.value.value, ast.Name) and n.value.value.id in piece.names:
            out.add(n.slice.value)
    return out


def dynamic(piece):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) >= 2
               and not isinstance(n.args[1], ast.Constant) for n in ast.walk(piece.node))
