"""C07: nothing removed while stripping the fit object is read on the prior, likelihood or sampling path."""
import ast

from analysis.rulebase import rule, ok, bad, undecided
from analysis.loader import PKG

START = ('fit.fit_core.lnprob',)
PRUNE = 'fit.fit_core.make_pruned_fitEmis2D_class'
# the classes of the objects the sampler works on (with their subclasses and bases)
SAMPLED = {'model.kin_model.KinModel2D': 'kinModel', 'model.aper_model.AperModel2D': 'aperModel',
           'model.kin_classes.KinProfile': 'kinProfile', 'model.kin_classes.ThetaPriorFlat': 'thetaPrior',
           'model.kin_classes.IntensityProfile': 'intensityProfile', 'model.kin_classes.VelProfile': 'velProfile',
           'model.kin_classes.DispProfile': 'dispProfile', 'instrument.PSFBase': 'PSF'}
FITS = {'fitEmis2D': 'fit', 'fitEmis2D_fit': 'fit'}


def last(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None


def aliases(fn):
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            tgts = n.targets
            pairs = []
            for t in tgts:
                if isinstance(t, ast.Name):
                    pairs.append((t, n.value))
                elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    pairs += [(a, b) for a, b in zip(t.elts, n.value.elts) if isinstance(a, ast.Name)]
            for t, v in pairs:
                out.setdefault(t.id, []).append(last(v) if isinstance(v, (ast.Name, ast.Attribute)) else None)
    return {k: v[0] for k, v in out.items() if len(set(v)) == 1 and v[0] and v[0] != k}


def owner(e, al, me):
    n = last(e)
    if isinstance(e, ast.Name):
        for i in range(4):
            if n in al:
                n = al[n]
        if n in me:
            return me[n]
    return FITS.get(n, n)


def constants(fn, e, depth=0):
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        v = [x.value for x in e.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)]
        return v if len(v) == len(e.elts) else None
    if isinstance(e, ast.Name) and depth < 3:
        ds = [n.value for n in ast.walk(fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return constants(fn, ds[0], depth + 1) if len(ds) == 1 else None
    return None


def removed(fn):
    """(owner, attribute) pairs a function deletes, and whether every deletion was understood"""
    al, out, full = aliases(fn), set(), True
    loops = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            loops[n.target.id] = constants(fn, n.iter)
    for n in ast.walk(fn):
        tg = []
        if isinstance(n, ast.Delete):
            tg = [(t, None) for t in n.targets]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'delattr' and len(n.args) == 2:
            tg = [(n.args[0], n.args[1])]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and n.args and \
                isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '__dict__':
            tg = [(n.func.value.value, n.args[0])]
        for t, key in tg:
            if key is None and isinstance(t, ast.Attribute):
                out.add((owner(t.value, al, {}), t.attr))
                continue
            if key is None and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == '__dict__':
                t, key = t.value.value, t.slice
            elif key is None:
                continue
            if isinstance(key, ast.Constant):
                ks = [key.value]
            elif isinstance(key, ast.Name):
                ks = loops.get(key.id)
            else:
                ks = None
            if ks is None:
                full = False
            else:
                out |= {(owner(t, al, {}), k) for k in ks}
    return out, full


def guarded(fn):
    """attribute names read only after asking, and nodes inside a try that handles their absence"""
    names, nodes = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr'):
            names |= {a.value for a in n.args if isinstance(a, ast.Constant)}
        elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            names.add(n.left.value)
        elif isinstance(n, ast.Try):
            if any(h.type is None or any(last(x) in ('AttributeError', 'Exception') for x in ast.walk(h.type)) for h in n.handlers):
                for st in n.body:
                    nodes |= set(map(id, ast.walk(st)))
    return names, nodes


def helpers(prog, fs):
    """the functions and the package functions they hand work to"""
    out, todo = {}, list(fs)
    while todo:
        f = todo.pop()
        if f.qual in out:
            continue
        out[f.qual] = f
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                g = prog.resolve(f.module.name, n.func.id)
                if g and g[0] == 'func':
                    todo.append(g[1])
    return out.values()


def dead(fn):
    out = set()

    def go(body):
        gone = False
        for st in body:
            if gone:
                out.update(map(id, ast.walk(st)))
                continue
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(st, f, None)
                if isinstance(b, list):
                    go(b)
            for h in getattr(st, 'handlers', ()):
                go(h.body)
            if isinstance(st, (ast.Raise, ast.Return, ast.Break, ast.Continue)):
                gone = True
    go(fn.body)
    return out


@rule('C07 C21')
def removed_never_read(ctx, prop):
    prog = ctx.prog
    try:
        prune = prog.func(PRUNE)
        starts = [prog.func(s) for s in START]
    except Exception:
        return [undecided('attributes removed from the sampled objects', '', 'no pruning function or likelihood found')]
    kinds = {}
    for q, k in SAMPLED.items():
        try:
            c = prog.cls(q)
        except Exception:
            continue
        for x in prog.subclasses(c) + prog.mro(c) + [c]:
            kinds.setdefault(x.qual, k)
    for q in ('fit.fit_core.FitEmissionLines2DBasic',):
        try:
            for x in prog.mro(prog.cls(q)):
                kinds.setdefault(x.qual, 'fit')
        except Exception:
            pass
    # what goes, in the pruning function and the functions it hands the work to
    gone, full = set(), True
    todo, seen = [prune], set()
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        r, fl = removed(f.node)
        gone |= r
        full = full and fl
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                g = prog.resolve(f.module.name, n.func.id)
                if g and g[0] == 'func':
                    todo.append(g[1])
    out = []
    if not full:
        out.append(undecided('attributes removed from the sampled objects', prune.module.rel + ':%d' % prune.node.lineno, 'some names are computed'))
    # what the stripped-down data carries
    carried = {}
    # generated spectra carry further values, read only where a model is generated
    mock = {n.attr if isinstance(n, ast.Attribute) else n.arg for m in prog.modules.values() if m.name.startswith(PKG + '.mock')
            for n in ast.walk(m.tree) if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)) or isinstance(n, ast.keyword)}
    for key, q in (('spec2D', 'galaxy.ObsSpectrum2DBasic'), ('galaxy', 'galaxy.GalaxyBasic')):
        try:
            c = prog.cls(q)
        except Exception:
            continue
        if any(last(n.func) == c.name for g in seen for n in ast.walk(prog.func(g).node) if isinstance(n, ast.Call)):
            s, dyn = set(), False
            for x in prog.mro(c):
                s |= set(x.methods) | set(x.attrs)
                for m in helpers(prog, x.methods.values()):
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                            s.add(n.attr)
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                            dyn = dyn or not isinstance(n.args[1], ast.Constant)
            for g in seen:
                for n in ast.walk(prog.func(g).node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        s.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        dyn = dyn or not isinstance(n.args[1], ast.Constant)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        s.add(n.value)
            if not dyn:
                carried[key] = s | mock | {'__dict__', 'copy'}
    # the sampling path
    by = {}
    for f in prog.all_funcs():
        if f.cls is not None and f.cls.qual not in kinds:
            continue
        by.setdefault(f.node.name, []).append(f)
    todo, reach = list(starts), {}
    while todo:
        f = todo.pop()
        if f.qual in reach:
            continue
        reach[f.qual] = f
        dd = dead(f.node)
        for n in ast.walk(f.node):
            if id(n) in dd:
                continue
            if isinstance(n, ast.Call):
                nm = last(n.func)
                if nm in ('setAttr', 'copy'):
                    continue
                for g in by.get(nm, ()):
                    if isinstance(n.func, ast.Name) == (g.cls is None) or g.cls is None:
                        todo.append(g)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                for g in by.get(n.attr, ()):
                    if g.cls is not None and 'property' in g.cls.decor.get(n.attr, []):
                        todo.append(g)
    stored = set()
    for f in reach.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                stored.add(n.attr)
    for q, f in sorted(reach.items()):
        if f.node.name in ('__init__', 'setAttr', 'copy'):
            continue
        al = aliases(f.node)
        me = {}
        if f.cls is not None and f.node.args.args:
            me[f.node.args.args[0].arg] = kinds.get(f.cls.qual)
        names, nodes = guarded(f.node)
        dd = dead(f.node)
        faults = []
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)) or id(n) in dd or n.attr in names or id(n) in nodes:
                continue
            o = owner(n.value, al, me)
            if (o, n.attr) in gone and n.attr not in stored:
                faults.append((n, 'reads %s.%s, which %s removes' % (o, n.attr, prune.node.name)))
            elif o in carried and n.attr not in carried[o] and n.attr not in stored:
                faults.append((n, 'reads %s.%s, which the stripped-down object does not carry' % (o, n.attr)))
        key = '%s reads only what the sampled object keeps' % q[len(PKG) + 1:]
        if not faults:
            out.append(ok(key, '%s:%d' % (f.module.rel, f.node.lineno)))
        for n, why in faults[:3]:
            out.append(bad(key, '%s:%d' % (f.module.rel, n.lineno), why))
    return out
