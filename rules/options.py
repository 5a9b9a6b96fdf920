"""The user's sampling options are used as given."""
import ast
from analysis.rulebase import rule, ok, bad, undecided

FREE = {'nCPUs'}          # filled in from the machine


def is_options(e, alias):
    return isinstance(e, ast.Attribute) and e.attr == 'mcmcOptions' or isinstance(e, ast.Name) and e.id in alias


def same(v, name, alias):
    while isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('int', 'float', 'str', 'bool') and len(v.args) == 1:
        v = v.args[0]
    return isinstance(v, ast.Attribute) and v.attr == name and is_options(v.value, alias)


@rule('C06 C08')
def sampling_options_kept(ctx, prop):
    """No function replaces a sampling option (steps, walkers, files, ...) of the fit it is given."""
    for f in ctx.prog.all_funcs():
        fn = f.node
        if fn.name in ('__init__', 'setAttr'):
            continue
        whole = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and n.attr == 'mcmcOptions']
        if not whole:
            continue
        alias = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                x = n.targets[0].id
                alias[x] = alias.get(x, True) and isinstance(n.value, ast.Attribute) and n.value.attr == 'mcmcOptions'
        alias = {x for x, v in alias.items() if v}
        key = '%s: the sampling options stay as the user set them' % f.qual.split('.', 1)[1]
        hits = []
        for n in ast.walk(fn):
            tg = []
            if isinstance(n, ast.Assign):
                tg = [(t, n.value) for t in n.targets]
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                tg = [(n.target, n.value if isinstance(n, ast.AnnAssign) else None)]
            elif isinstance(n, ast.Delete):
                tg = [(t, None) for t in n.targets]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setAttr' and is_options(n.func.value, alias):
                for k in n.keywords:
                    if k.arg is not None and k.arg not in FREE and not same(k.value, k.arg, alias):
                        hits.append((n, k.arg))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1 and \
                    is_options(n.args[0], alias) and isinstance(n.args[1], ast.Constant) and n.args[1].value not in FREE:
                if not (len(n.args) == 3 and same(n.args[2], n.args[1].value, alias)):
                    hits.append((n, n.args[1].value))
            flat = []
            for t, v in tg:
                if isinstance(t, (ast.Tuple, ast.List)):
                    flat += [(x, v.elts[i] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None)
                             for i, x in enumerate(t.elts)]
                else:
                    flat.append((t, v))
            for t, v in flat:
                if isinstance(t, ast.Attribute) and is_options(t.value, alias) and t.attr not in FREE and not (v is not None and same(v, t.attr, alias)):
                    hits.append((t, t.attr))
        if hits:
            n, a = hits[0]
            yield bad(key, '%s:%d (%s)' % (f.module.rel, n.lineno, fn.name), 'mcmcOptions.%s is replaced' % a)
        else:
            yield ok(key, f.where, '%d uses' % len(whole))
