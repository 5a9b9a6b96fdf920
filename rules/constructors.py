"""C06: settings given to a constructor override every default.  C05: defaults are created per object."""
import ast
import builtins
from analysis.rulebase import rule, ok, bad, undecided
from analysis.loader import PKG
from analysis import selfflow


class Ev:
    """Event of a construction: store, override (settings applied), super (base constructor called), or call."""
    def __init__(self, kind, data, node, module, params, kw, level):
        self.kind, self.data, self.node, self.module, self.params, self.kw, self.level = kind, data, node, module, params, kw, level


def events(ctx, f, cls, s=None, kw=None, fn=None, module=None, level=0, depth=0, local=None):
    """Events of a constructor in program order; base constructors, helpers, methods and nested functions are expanded."""
    fn = fn or f.node
    module = module or f.module
    a = fn.args.posonlyargs + fn.args.args
    if s is None:
        s = {a[0].arg} if a else set()
        kw = {fn.args.kwarg.arg} if fn.args.kwarg else set()
    s = selfflow.aliases(fn, s)
    kw = selfflow.aliases(fn, kw) if kw else set()
    out = []
    params = {x.arg for x in a + fn.args.kwonlyargs} - s
    local = dict(local or {})
    local.update({n.name: n for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn})

    def kwval(v):
        """the settings, or a copy of them"""
        if isinstance(v, ast.Name):
            return v.id in kw
        if isinstance(v, ast.Call) and len(v.args) <= 1:
            ins = v.args[0] if v.args else v.func.value if isinstance(v.func, ast.Attribute) else None
            return ins is not None and kwval(ins)
        return isinstance(v, ast.Dict) and any(k is None and kwval(x) for k, x in zip(v.keys, v.values))

    def forwards(n):
        return any(k.arg is None and kwval(k.value) for k in n.keywords)

    def enter(g, gmod, n, bound, inherit):
        """events of a called function or method"""
        skip = 1 if bound else 0
        gs = set(s) if inherit else set()
        gk = set(kw) if inherit else set()
        pos = [x.arg for x in g.args.posonlyargs + g.args.args]
        if bound:
            gs = {pos[0]}
        gs |= set(selfflow.param_of(g, n, s, skip))
        for i, v in enumerate(n.args):
            if kwval(v) and i + skip < len(pos):
                gk.add(pos[i + skip])
        for k in n.keywords:
            if k.arg and kwval(k.value):
                gk.add(k.arg)
        if forwards(n) and g.args.kwarg:
            gk.add(g.args.kwarg.arg)
        if not gs:
            return []
        return events(ctx, f, cls, gs, gk, g, gmod, level, depth + 1, local if inherit else None)

    def scan(st):
        calls = [n for n in ast.walk(st) if isinstance(n, ast.Call)]
        for n in calls[::-1]:
            if isinstance(n.func, ast.Attribute):
                v = n.func.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' or (
                        isinstance(v, ast.Name) and v.id not in s and (ctx.prog.resolve(module.name, v.id) or ('',))[0] == 'class'
                        and n.func.attr == '__init__'):
                    mro = ctx.prog.mro(cls)
                    i = mro.index(f.cls) if f.cls in mro else 0
                    nxt = next((c.methods[n.func.attr] for c in mro[i + 1:] if n.func.attr in c.methods), None)
                    out.append(Ev('super', forwards(n), n, module, params, kw, level))
                    if nxt is not None and depth < 8:
                        sub = events(ctx, nxt, cls, level=level + 1, depth=depth + 1)
                        if not forwards(n):
                            for x in sub:
                                if x.kind == 'override':
                                    x.data = (False, x.data[1])
                        out.extend(sub)
                    continue
                if isinstance(v, ast.Name) and v.id in s:
                    if n.func.attr == 'setAttr':
                        out.append(Ev('override', (forwards(n), {k.arg for k in n.keywords if k.arg}), n, module, params, kw, level))
                    else:
                        g = ctx.prog.method(cls, n.func.attr)
                        out.append(Ev('call', n.func.attr, n, module, params, kw, level))
                        if g is not None and depth < 8 and 'staticmethod' not in g.cls.decor.get(g.node.name, ()) and (
                                n.func.attr.startswith('_') or forwards(n) or any(kwval(x) for x in n.args)):
                            out.extend(enter(g.node, g.module, n, True, False))
                    continue
                if isinstance(v, ast.Attribute) and v.attr == '__dict__' and isinstance(v.value, ast.Name) and v.value.id in s \
                        and n.func.attr == 'update':
                    out.append(Ev('override', (any(mentions(x, *kw) for x in n.args) or forwards(n), set()), n, module, params, kw, level))
                    continue
            if depth < 8:
                g = selfflow.callee(ctx.prog, module, fn, n.func)
                if isinstance(n.func, ast.Name) and n.func.id in local:
                    out.extend(enter(local[n.func.id], module, n, False, True))
                elif g is not None:
                    out.extend(enter(g.node, g.module, n, False, False))
        for n in ast.walk(st):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in s:
                out.append(Ev('store', n.attr, st, module, params, kw, level))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and isinstance(
                    n.args[0], ast.Name) and n.args[0].id in s:
                if isinstance(n.args[1], ast.Constant):
                    out.append(Ev('store', n.args[1].value, st, module, params, kw, level))
                elif mentions(n.args[2], *kw):
                    out.append(Ev('override', (True, set()), n, module, params, kw, level))

    def go(body):
        for st in body:
            if isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for fld in ('test', 'iter'):
                    if getattr(st, fld, None) is not None:
                        scan(getattr(st, fld))
                if isinstance(st, ast.For) and mentions(st.iter, *kw):
                    # for key in kwargs: ... applies the settings one by one
                    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' or
                           isinstance(x, ast.Attribute) and x.attr == '__dict__' for y in st.body for x in ast.walk(y)):
                        out.append(Ev('override', (True, set()), st, module, params, kw, level))
                for fld in ('body', 'orelse', 'finalbody'):
                    go(getattr(st, fld, []))
                for h in getattr(st, 'handlers', ()):
                    go(h.body)
            elif not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                scan(st)
    go(fn.body)
    return out


def mentions(node, *ns):
    return any(isinstance(n, ast.Name) and n.id in ns for n in ast.walk(node))


# attributes computed by the constructor from the settings, which no caller sets
COMPUTED = {}


@rule('C06')
def override_last(ctx, prop):
    """After the last default given to an attribute, the constructor applies the caller's settings."""
    for q, c in sorted(ctx.prog.classes.items()):
        if not q.startswith(PKG + '.') or ctx.prog.method(c, 'setAttr') is None:
            continue
        f = ctx.prog.method(c, '__init__')
        if f is None or f.node.args.kwarg is None:
            continue
        ev = events(ctx, f, c)
        last_store, last_over = {}, -1
        for i, e in enumerate(ev):
            if e.kind == 'store':
                v = e.node.value if isinstance(e.node, ast.Assign) else None
                derived = v is not None and any(isinstance(n, ast.Name) and not ctx.prog.resolve(e.module.name, n.id)
                                                and not hasattr(builtins, n.id) for n in ast.walk(v))
                last_store[e.data] = (i, e.node, derived)
            elif e.kind == 'override' and e.data[0]:
                last_over = i
        key = 'settings override the defaults of %s' % q
        where = '%s:%d (%s)' % (c.module.rel, f.node.lineno, c.name)
        if last_over < 0:
            if any(isinstance(n, ast.Name) and n.id == f.node.args.kwarg.arg and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node)) \
                    and not any(e.kind in ('override', 'super') for e in ev):
                yield undecided(key, where, 'the settings are handed on in a way the rule does not follow')
            else:
                yield bad(key, where, 'the constructor never applies the caller\'s settings')
            continue
        lost = [(a, n) for a, (i, n, derived) in last_store.items() if i > last_over and not derived
                and (c.name, a) not in COMPUTED and a in class_defaults(ctx, c)]
        for a, n in lost:
            yield bad('%s: %s' % (key, a), '%s:%d (%s)' % (c.module.rel, n.lineno, c.name),
                      'self.%s is set to its default after the caller\'s settings were applied' % a)
        if not lost:
            yield ok(key, where, '%d attributes' % len(last_store))


def class_defaults(ctx, c):
    out = set()
    for k in ctx.prog.mro(c):
        i = k.methods.get('__init__')
        if i is not None and selfflow.first_param(i.node):
            out |= {e.data for e in events(ctx, i, c) if e.kind == 'store'}
    return out


FRESH_CALLS = {'tuple', 'frozenset', 'str', 'int', 'float', 'bool'}


def mutable(ctx, m, e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name) and f.id in FRESH_CALLS:
            return False
        return True
    if isinstance(e, ast.Name):
        r = ctx.prog.resolve(m.name, e.id)
        if r and r[0] == 'assign':
            return any(v is not None and mutable(ctx, r[1], v) for v in r[2])
    return False


@rule('C05')
def shared_defaults(ctx, prop):
    """No parameter default is a mutable object created once at definition time (unless never stored or changed)."""
    for f in ctx.prog.all_funcs():
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        if not pairs:
            continue
        n = 0
        for x, d in pairs:
            if mutable(ctx, f.module, d):
                esc = escapes(f.node, x.arg)
                key = 'default of %s in %s' % (x.arg, f.qual)
                if esc:
                    yield bad(key, f.where, 'the default %s is one object shared by every call, and it is %s' % (ast.unparse(d), esc))
                    n += 1
        if not n:
            yield ok('defaults of %s' % f.qual, f.where, '%d defaults' % len(pairs))


def escapes(fn, name):
    """How a parameter's object outlives or changes within the call: stored, mutated or returned."""
    rebound_first = False
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and holds(n.value, name):
                    return 'stored in an attribute'
                if isinstance(t, ast.Subscript) and base_name(t) == name:
                    return 'changed in place'
                if isinstance(t, ast.Attribute) and base_name(t) == name:
                    return 'changed in place'
        elif isinstance(n, ast.AugAssign) and base_name(n.target) == name:
            return 'changed in place'
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'append', 'extend', 'update', 'insert', 'pop', 'remove', 'clear', 'setdefault', 'add', 'sort',
                    'setAttr', 'update_theta', 'set_conv_stamp') and base_name(n.func.value) == name:
                return 'changed in place'
            for v in list(n.args) + [k.value for k in n.keywords]:
                if isinstance(v, ast.Name) and v.id == name and not (isinstance(n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and n.func.value.id in ('np', 'copy', 'plt')) and not (
                        isinstance(n.func, ast.Name) and n.func.id in ('len', 'str', 'print', 'list', 'tuple', 'dict', 'sum', 'max', 'min', 'range', 'enumerate', 'zip')):
                    return 'handed on to %s' % ast.unparse(n.func)
        elif isinstance(n, ast.Return) and n.value is not None and holds(n.value, name):
            return 'returned'
    return None


def holds(e, name):
    if isinstance(e, ast.Name):
        return e.id == name
    if isinstance(e, ast.IfExp):
        return holds(e.body, name) or holds(e.orelse, name)
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(holds(x, name) for x in e.elts)
    return False


def base_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


@rule('C05')
def shared_class_state(ctx, prop):
    """No class attribute or module global holds a mutable object that methods change."""
    stored = set()
    for f in ctx.prog.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                stored.update((f.module.name, x) for x in n.names)
    for q, c in sorted(ctx.prog.classes.items()):
        if not q.startswith(PKG + '.'):
            continue
        badn = 0
        for a, v in c.attrs.items():
            if mutable(ctx, c.module, v):
                # shadowed by every constructor?
                f = ctx.prog.method(c, '__init__')
                own = f is not None and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == a
                                            for n in ast.walk(f.node))
                if not own:
                    badn += 1
                    yield bad('class attribute %s.%s' % (q, a), '%s:%d' % (c.module.rel, v.lineno),
                              'one mutable object shared by all %s objects' % c.name)
        if not badn:
            yield ok('class attributes of %s' % q, c.module.rel, '%d' % len(c.attrs))
    for m in [x for n, x in sorted(ctx.prog.modules.items()) if n == PKG or n.startswith(PKG + '.')]:
        changed = []
        for f in [g for g in ctx.prog.all_funcs() if g.module is m]:
            glob = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
            loc = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - glob
            loc |= {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}
            for n in ast.walk(f.node):
                tg = None
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, (ast.Subscript, ast.Attribute)) and base_name(t) in m.assigns and base_name(t) not in loc:
                            changed.append((base_name(t), f, n))
                        if isinstance(t, ast.Name) and t.id in glob:
                            changed.append((t.id, f, n))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'append', 'extend', 'update', 'insert', 'pop', 'remove', 'clear', 'setdefault', 'add'):
                    b = base_name(n.func.value)
                    if b in m.assigns and b not in loc:
                        changed.append((b, f, n))
        for b, f, n in changed:
            yield bad('module state %s.%s' % (m.name, b), '%s:%d (%s)' % (m.rel, n.lineno, f.node.name),
                      'the module global %r is changed by a call, so it links separate objects' % b)
        if not changed:
            yield ok('module state of %s' % m.name, m.rel, '%d globals' % len(m.assigns))


@rule('C06')
def settings_forwarded_to_base(ctx, prop):
    """A constructor that takes settings hands them to the base constructor."""
    for q, c in sorted(ctx.prog.classes.items()):
        f = c.methods.get('__init__')
        if not q.startswith(PKG + '.') or f is None or f.node.args.kwarg is None:
            continue
        n = 0
        for e in events(ctx, f, c):
            if e.kind == 'super' and e.level == 0:
                n += 1
                mro = ctx.prog.mro(c)
                nxt = next((x.methods[e.node.func.attr] for x in mro[1:] if e.node.func.attr in x.methods), None)
                if nxt is not None and nxt.node.args.kwarg is not None and not e.data:
                    yield bad('settings reach the base of %s' % q, f.where, 'super().%s is called without **%s' % (
                        e.node.func.attr, f.node.args.kwarg.arg))
        if n == 0 and ctx.prog.bases(c) and any('__init__' in b.methods for b in ctx.prog.mro(c)[1:]):
            yield bad('settings reach the base of %s' % q, f.where, 'the base constructor is never called')
        else:
            yield ok('settings reach the base of %s' % q, f.where, '%d super calls' % n)


# accepted and without effect today: alternative inputs, interface positions, or plot cosmetics (confirmed by reading)
UNUSED_OK = {
    ('general.galaxy_utils.mask_skylines_2D', 'weight'), ('general.galaxy_utils.mask_edges_1D', 'spec_err'),
    ('general.galaxy_utils.vert_position', 'band'), ('general.galaxy_utils.vert_position', 'wh_sky'),
    ('general.general_utils.x_proj_major', 'q'), ('general.general_utils.r_unproj_major', 'q'),
    ('general.general_utils.get_bestfit_values_linked', 'bins'),
    ('plot.plot_bestfit.plot_bestfit_model', 'usetex'), ('plot.plot_trace.plot_trace', 'usetex'),
    ('plot.plot_mcmc.plot_param_corner_specific_params', 'fitEmis2D'),
    ('plot.plot_mcmc.plot_param_corner_specific_params', 'param_names'),
    ('plot.plot_mcmc.plot_param_corner_specific_params', 'fileout'),
    ('plot.plot_mcmc.plot_param_corner_specific_params', 'verbose'),
    ('fit.fit1D.FitEmissionLines1D.fit', 'reload'),
    ('fit.fit1D.FitEmissionLines1D.save_mc_sim_matrix', 'line'), ('fit.fit1D.FitEmissionLines1D.load_mc_sim_matrix', 'line'),
    ('model.aper_model.AperModel1DRot.calc_aper_correction', 'recalc'),
    ('model.kin_classes.VelProfile.vel', 'z'), ('model.kin_classes.DispProfile.sigma', 'z'),
    ('model.kin_classes.VelArctanProfile.vel', 'z'), ('model.kin_classes.DispConstProfile.sigma', 'z'),
    ('model.kin_classes.IntensityProfile.__init__', 'galaxy'),
}


@rule('C06')
def parameters_used(ctx, prop):
    """Every parameter is read, and constructors store each under its own name."""
    for f in ctx.prog.all_funcs():
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if f.cls and ps and 'staticmethod' not in f.cls.decor.get(f.node.name, ()):
            ps = ps[1:]
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if all(isinstance(s, (ast.Pass, ast.Raise)) for s in body) or not ps or not any(
                isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) for s in body for n in ast.walk(s)):
            continue
        read = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        if not read & set(ps) and not any(
                isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant) or
                isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store)
                for s in body for n in ast.walk(s)):
            continue                              # a hook that subclasses define: produces nothing
        withdef = {x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):]} | {
            x.arg for x in a.kwonlyargs}
        # an option (a parameter with a default) or a constructor argument; plain array arguments may become redundant
        miss = [p for p in ps if p not in read and (p in withdef or f.node.name == '__init__')]
        key = 'parameters of %s' % f.qual
        for p in miss:
            if (f.qual[len(PKG) + 1:], p) in UNUSED_OK or p.startswith('_'):
                continue
            yield bad('%s: %s' % (key, p), f.where, 'the argument %r is accepted and ignored' % p)
        crossed = []
        if f.node.name == '__init__':
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in ps:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' \
                                and t.attr in ps and t.attr != n.value.id:
                            crossed.append((t.attr, n.value.id, n))
        for x, y, n in crossed:
            yield bad('%s: %s' % (key, x), '%s:%d' % (f.module.rel, n.lineno), 'self.%s receives the argument %r' % (x, y))
        if not miss and not crossed:
            yield ok(key, f.where, '%d parameters' % len(ps))
