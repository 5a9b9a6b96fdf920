"""C04 C01 C05: the parameters of a velocity or dispersion profile are slices of the parameter vector of the model, so
whoever wants other values there puts a new array in place and never writes into the one that is there."""
import ast

from analysis.rulebase import rule, ok, bad

PROFILES = {'velProfile', 'dispProfile'}
FILLS = {'copyto', 'put', 'putmask', 'place', 'fill_diagonal'}
SELFSORT = {'fill', 'sort', 'partition', 'put', 'resize', 'itemset', 'setfield'}


def bases(prog):
    out = set()
    for q in ('misfit.model.kin_classes.VelProfile', 'misfit.model.kin_classes.DispProfile'):
        c = prog.classes.get(q)
        if c is not None:
            out |= {x.qual for x in prog.subclasses(c)}
    return out


def writes(fn, selfprofile):
    """(line, text) of every write into a profile's parameter array"""
    me = fn.args.args[0].arg if selfprofile and fn.args.args else None
    objs, arrs = set(), set()

    def isobj(e):
        return isinstance(e, ast.Attribute) and e.attr in PROFILES or isinstance(e, ast.Name) and (e.id in objs or e.id == me)

    def isarr(e):
        if isinstance(e, ast.Subscript):
            # a slice of it looks at the same numbers
            return isinstance(e.slice, (ast.Slice, ast.Constant)) and isarr(e.value)
        return isinstance(e, ast.Attribute) and e.attr == 'theta' and isobj(e.value) or isinstance(e, ast.Name) and e.id in arrs

    # names bound once, to such an object or array
    defs = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for tg in n.targets:
                if isinstance(tg, ast.Name):
                    defs.setdefault(tg.id, []).append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    defs.setdefault(x.id, []).append(None)
    for again in range(3):
        for k, v in defs.items():
            if len(v) == 1 and v[0] is not None:
                if isobj(v[0]):
                    objs.add(k)
                elif isarr(v[0]) and not (isinstance(v[0], ast.Subscript) and isinstance(v[0].slice, ast.Constant)):
                    arrs.add(k)
    out = []
    for n in ast.walk(fn):
        hit = None
        if isinstance(n, ast.AugAssign):
            hit = n.target if isarr(n.target) else None
        elif isinstance(n, ast.Assign):
            for tg in n.targets:
                if isinstance(tg, ast.Subscript) and isarr(tg.value):
                    hit = tg
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg == 'out' and isarr(k.value):
                    hit = k.value
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in FILLS and n.args and isarr(n.args[0]):
                    hit = n.args[0]
                elif n.func.attr in SELFSORT and isarr(n.func.value):
                    hit = n.func.value
        if hit is not None:
            out.append((n.lineno, ast.unparse(n)[:90]))
    return out


@rule('C04 C01 C05')
def profile_parameters(ctx, prop):
    prog = ctx.prog
    mine = bases(prog)
    seen = 0
    every = list(prog.funcs.values()) + [m for c in prog.classes.values() for m in c.methods.values()]
    for f in sorted({x.qual: x for x in every if x.qual.startswith('misfit.')}.values(), key=lambda x: x.qual):
        q = f.qual
        own = f.cls is not None and f.cls.qual in mine
        ws = writes(f.node, own)
        if any(isinstance(n, ast.Attribute) and n.attr == 'theta' for n in ast.walk(f.node)) and (
                own or any(isinstance(n, ast.Attribute) and n.attr in PROFILES for n in ast.walk(f.node))):
            seen += 1
            key = 'profile_parameters:%s' % q[len('misfit.'):]
            if ws:
                for line, text in ws:
                    yield bad(key, '%s:%d' % (f.where, line),
                              'writes into the parameters of a profile, which are part of the model\'s parameter vector: %s' % text)
            else:
                yield ok(key, f.where)
