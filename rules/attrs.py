"""C21 (and neighbours): attributes of the package's own objects, call shapes, dependency API, format strings."""
import ast, importlib.util, json, os, subprocess, sys
from analysis.rulebase import rule, ok, bad, undecided
from analysis.loader import PKG
from analysis import selfflow

_spec = importlib.util.spec_from_file_location('verif_rules_names', os.path.join(os.path.dirname(__file__), 'names.py'))
from analysis import rulebase as _rb
_keep = list(_rb._REG)
names = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(names)
_rb._REG[:] = _keep
own_modules, functions_of, walk_scope, all_args = names.own_modules, names.functions_of, names.walk_scope, names.all_args
live_walk = names.live_walk

# last name of an expression -> root classes of the objects it holds
TYPES = {
    'galaxy': ['galaxy.GalaxyBasic'], 'gal': ['galaxy.GalaxyBasic'],
    'spec2D': ['galaxy.Spectrum'], 'spec1D': ['galaxy.Spectrum'], 'pstamp': ['galaxy.Pstamp'],
    'instrument': ['instrument.Instrument'], 'instrument_img': ['instrument.Instrument'], 'inst': ['instrument.Instrument'],
    'PSF': ['instrument.PSFBase'],
    'kinModel': ['model.kin_model.KinModel2D', 'fit.fit_core.MCMCResults'],
    'aperModel': ['model.aper_model.AperModel2D'], 'aperModel1DDisp': ['model.aper_model.AperModel1DBase'],
    'kinProfile': ['model.kin_classes.KinProfile'],
    'intensityProfile': ['model.kin_classes.IntensityProfile'],
    'intProfile_r': ['model.kin_classes.IntProfileCompBase'], 'intProfile_z': ['model.kin_classes.IntProfileCompBase'],
    'velProfile': ['model.kin_classes.VelProfile'], 'dispProfile': ['model.kin_classes.DispProfile'],
    'thetaSettings': ['model.kin_classes.Theta2DSettings'], 'thetaPrior': ['model.kin_classes.ThetaPriorFlat'],
    'kinModelOptions': ['model.kin_model.KinModel2DOptions'], 'mcmcOptions': ['fit.fit_core.MCMC2DOptions'],
    'fitEmis2D': ['fit.fit2D.FitEmissionLines2D', 'fit.fit_core.FitEmissionLines2DResults', 'fit.fit_core.FitEmissionLines2DBasic'],
    'fitEmis2D_fit': ['fit.fit2D.FitEmissionLines2D', 'fit.fit_core.FitEmissionLines2DBasic'],
    'fitEmis2D_pruned': ['fit.fit_core.FitEmissionLines2DBasic'],
    'mcmc_results': ['fit.fit_core.MCMCResults'], 'bestfit': ['model.kin_model.KinModel2D'],
}
OBJ_ATTRS = set(dir(object)) | {'__dict__', '__class__', '__name__', '__module__'}


def class_info(ctx):
    """class qual -> (own attribute names, family names)"""
    if 'class_info' in ctx.cache:
        return ctx.cache['class_info']
    own, dynamic = {}, set()
    for q, c in ctx.prog.classes.items():
        if not q.startswith(PKG + '.'):
            continue
        s = set(c.methods) | set(c.attrs)
        for f in c.methods.values():
            if not selfflow.first_param(f.node):
                continue
            for pc in selfflow.pieces(ctx.prog, f.module, f.node):
                s |= selfflow.stores(pc)
                if selfflow.dynamic(pc):
                    dynamic.add(q)
        own[q] = s
    # attributes stored through other names
    ext = {}
    for m in own_modules(ctx):
        top = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef))]
        scopes = [(x, m.name) for x in top] + [(fn, qual) for qual, fn, cls, enc in functions_of(m)]
        for node, qual in scopes:
            al = local_aliases(node)
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    ln = last_name(n.value)
                    if isinstance(n.value, ast.Name):
                        for x in al.get(ln, ()):
                            ext.setdefault(x, set()).add(n.attr)
                        if ln in al:
                            continue
                    if ln and not (ln == 'self' and isinstance(n.value, ast.Name)):
                        ext.setdefault(ln, set()).add(n.attr)
                    elif not ln:
                        ext.setdefault('?', set()).add(n.attr)
    ctx.cache['class_info'] = own, dynamic, ext
    return ctx.cache['class_info']


def last_name(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return None


def local_aliases(fn):
    """local name -> last names of the objects it may hold, where it is bound to an attribute or another name"""
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            ln = last_name(n.value)
            for t in n.targets:
                if isinstance(t, ast.Name) and ln and ln != t.id:
                    out.setdefault(t.id, set()).add(ln)
    for i in range(3):
        for k, v in out.items():
            for x in list(v):
                v |= out.get(x, set()) - {k}
    return out


def untyped_stores(ctx):
    own, dynamic, ext = class_info(ctx)
    out = set()
    for ln, s in ext.items():
        if ln not in TYPES:
            out |= s
    return out


def related(ctx, cls):
    mro = ctx.prog.mro(cls)
    out = list(mro)
    for c in ctx.prog.subclasses(cls):
        for x in ctx.prog.mro(c):
            if x not in out:
                out.append(x)
    return out


def external_base(ctx, classes):
    for c in classes:
        n = len(ctx.prog.bases(c))
        decl = [b for b in c.node.bases if not (isinstance(b, ast.Name) and b.id == 'object')]
        if len(decl) != n:
            return True
    return False


def family(ctx, roots):
    out = []
    for r in roots:
        try:
            c = ctx.prog.cls(r)
        except Exception:
            return None
        for x in ctx.prog.subclasses(c) + ctx.prog.mro(c):
            if x not in out:
                out.append(x)
    return out


@rule('C21')
def self_attributes(ctx, prop):
    """Every attribute read through self is assigned by the class, its bases or subclasses, or from outside."""
    own, dynamic, ext = class_info(ctx)
    outside = {}
    for ln, s in ext.items():
        for r in TYPES.get(ln, []):
            for c in family(ctx, [r]) or []:
                outside.setdefault(c.qual, set()).update(s)
    untyped = untyped_stores(ctx)
    for q, c in sorted(ctx.prog.classes.items()):
        if not q.startswith(PKG + '.'):
            continue
        rel = related(ctx, c)
        if external_base(ctx, rel) or any(r.qual in dynamic for r in rel):
            yield undecided('attributes of %s' % q, c.module.rel, 'external base class or computed attribute names')
            continue
        have = set(OBJ_ATTRS)
        for r in rel:
            have |= own.get(r.qual, set()) | outside.get(r.qual, set())
        n, miss = 0, []
        for f in c.methods.values():
            guarded = guarded_attrs(f.node)
            a = f.node.args.posonlyargs + f.node.args.args
            if not a or 'staticmethod' in c.decor.get(f.node.name, ()):
                continue
            for st in live_walk(f.node.body):
                for x in own_exprs(st):
                    for e in ast.walk(x):
                        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and isinstance(
                                e.value, ast.Name) and e.value.id == a[0].arg and id(e) not in guarded and e.attr not in guarded:
                            n += 1
                            if e.attr not in have:
                                miss.append((f, e))
        for f, e in miss:
            k = 'attributes of %s: %s' % (q, e.attr)
            w = '%s:%d (%s.%s)' % (c.module.rel, e.lineno, c.name, f.node.name)
            if e.attr in untyped:
                yield undecided(k, w, 'stored through a name of unknown type')
            else:
                yield bad(k, w, 'self.%s is read, but no code assigns it to a %s' % (e.attr, c.name))
        if not miss:
            yield ok('attributes of %s' % q, c.module.rel, '%d reads' % n)


def own_exprs(st):
    """Expression children of a statement, without its nested statements."""
    for f in st._fields:
        if f in ('body', 'orelse', 'finalbody', 'handlers') and not isinstance(st, (ast.Lambda, ast.IfExp)):
            if isinstance(getattr(st, f), list) and getattr(st, f) and isinstance(getattr(st, f)[0], (ast.stmt, ast.ExceptHandler)):
                if isinstance(st, ast.FunctionDef):
                    yield from getattr(st, f)
                continue
        v = getattr(st, f)
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, ast.AST):
                yield x


def guarded_attrs(fn):
    """Reads inside try bodies, and names tested with hasattr/getattr or `in ...__dict__`."""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Try) and n.handlers:
            for b in n.body:
                out |= {id(e) for e in ast.walk(b) if isinstance(e, ast.Attribute)}
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(
                n.args) > 1 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
        elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            out.add(n.left.value)
    return out


@rule('C21')
def object_attributes(ctx, prop):
    """Attributes read on galaxy, instrument, model and fit objects elsewhere exist on their classes."""
    own, dynamic, ext = class_info(ctx)
    untyped = untyped_stores(ctx)
    have = {}
    for nm, roots in TYPES.items():
        fam = family(ctx, roots)
        if fam is None:
            continue
        s = set(OBJ_ATTRS)
        for c in fam:
            s |= own.get(c.qual, set())
        for n2, r2 in TYPES.items():
            if set(family(ctx, r2) or []) & set(fam):
                s |= ext.get(n2, set())
        have[nm] = s
    for m in own_modules(ctx):
        for qual, fn, cls, enc in functions_of(m):
            n, miss = 0, []
            guarded = guarded_attrs(fn)
            for st in live_walk(fn.body):
                for x in own_exprs(st):
                    for e in ast.walk(x):
                        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and id(e) not in guarded \
                                and e.attr not in guarded:
                            ln = last_name(e.value)
                            if ln in have and not (isinstance(e.value, ast.Name) and ln in m.imports):
                                n += 1
                                if e.attr not in have[ln]:
                                    miss.append((ln, e))
            for ln, e in miss:
                if e.attr in untyped:
                    yield undecided('objects in %s: %s.%s' % (qual, ln, e.attr), '%s:%d (%s)' % (m.rel, e.lineno, qual),
                                    'stored through a name of unknown type')
                    continue
                yield bad('objects in %s: %s.%s' % (qual, ln, e.attr), '%s:%d (%s)' % (m.rel, e.lineno, qual),
                          'the attribute %r is read on %r, but no code assigns it to such an object' % (e.attr, ln))
            if n and not miss:
                yield ok('objects in %s' % qual, '%s:%d' % (m.rel, fn.lineno), '%d reads' % n)


# ---------------------------------------------------------------- module attributes, call shapes, dependency API
def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return e, parts[::-1]
    return None, None


def local_imports(fn):
    out = {}
    for n in walk_scope(fn.body):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                out[a.asname or a.name] = ('obj', n.module, a.name)
    return out


def resolve_callee(ctx, m, fn, cls, e, bound, limp):
    """('func'|'class'|'ext'|'method'|None, ...) of a called or read expression."""
    p = ctx.prog
    base, parts = dotted(e)
    if base is None:
        return None
    if base.id in limp:
        r = p._resolve_import(m, limp[base.id], set())
    elif base.id in bound:
        r = None
    else:
        r = p.resolve(m.name, base.id)
    for i, a in enumerate(parts):
        if r is None:
            return None
        if r[0] == 'mod':
            nxt = p.resolve(r[1], a)
            if nxt is None:
                return ('missing', r[1], a)
            r = nxt
        elif r[0] == 'ext':
            r = ('ext', r[1] + '.' + a)
        else:
            return None
    return r


def call_shape(fnode, call, skip_self):
    """None if the call fits the signature, otherwise why not."""
    a = fnode.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip_self:
        pos = pos[1:]
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        return '%d positional arguments for %d parameters' % (npos, len(pos))
    kws = [k.arg for k in call.keywords if k.arg]
    allowed = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k not in allowed and not a.kwarg:
            return 'unexpected keyword %r' % k
        if k in pos[:npos]:
            return 'several values for %r' % k
    if not star:
        nd = len(a.defaults)
        required = pos[:len(pos) - nd] if nd else pos
        miss = [x for i, x in enumerate(required) if i >= npos and x not in kws]
        miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kws]
        if miss:
            return 'missing argument %s' % ', '.join(miss)
    return None


def calls_and_refs(ctx):
    """Resolved reads and calls of every function: (module, qual, cls, node, resolution, call or None)"""
    if 'refs' in ctx.cache:
        return ctx.cache['refs']
    out = []
    for m in own_modules(ctx):
        for qual, fn, cls, enc in functions_of(m):
            bound = set()
            limp = {}
            for e in enc + [fn]:
                limp.update(local_imports(e))
                bound |= names.bound_names(e)[0]
            seen = set()
            for st in live_walk(fn.body):
                for x in own_exprs(st):
                    for e in ast.walk(x):
                        if isinstance(e, ast.Call):
                            r = resolve_callee(ctx, m, fn, cls, e.func, bound, limp)
                            seen.add(id(e.func))
                            sub = e.func
                            while isinstance(sub, ast.Attribute):
                                sub = sub.value
                                seen.add(id(sub))
                            out.append((m, qual, cls, e.func, r, e))
                        elif isinstance(e, (ast.Attribute, ast.Name)) and id(e) not in seen and isinstance(e.ctx, ast.Load):
                            sub = e
                            while isinstance(sub, ast.Attribute):
                                sub = sub.value
                                seen.add(id(sub))
                            r = resolve_callee(ctx, m, fn, cls, e, bound, limp)
                            if r is not None:
                                out.append((m, qual, cls, e, r, None))
        # module level
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                exprs = list(st.decorator_list)
                for c in ([st] if isinstance(st, ast.FunctionDef) else [x for x in st.body if isinstance(x, ast.FunctionDef)]):
                    exprs += c.args.defaults + c.decorator_list
            else:
                exprs = [st]
            for x in exprs:
                for e in ast.walk(x):
                    if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
                        r = resolve_callee(ctx, m, None, None, e, set(), {})
                        if r is not None:
                            out.append((m, m.name + ' (module)', None, e, r, None))
    ctx.cache['refs'] = out
    return out


@rule('C21')
def module_attributes(ctx, prop):
    by = {}
    for m, qual, cls, node, r, call in calls_and_refs(ctx):
        if r is not None and r[0] == 'missing':
            yield bad('module attribute in %s: %s.%s' % (qual, r[1], r[2]), '%s:%d (%s)' % (m.rel, node.lineno, qual),
                      '%s has no %r' % (r[1], r[2]))
        elif r is not None and r[0] in ('func', 'class'):
            by.setdefault(m.name, []).append(1)
    for k, v in by.items():
        yield ok('module attributes of %s' % k, '', '%d references to package functions and classes' % len(v))
    # imported names of package modules exist
    for m in own_modules(ctx):
        n = 0
        for nm, imps in m.imports.items():
            for imp in imps:
                if imp[0] == 'obj' and imp[1] in ctx.prog.modules:
                    n += 1
                    if ctx.prog.resolve(imp[1], imp[2]) is None and imp[2] not in names.module_names(ctx, ctx.prog.modules[imp[1]]) \
                            and imp[1] + '.' + imp[2] not in ctx.prog.modules:
                        yield bad('import in %s: %s' % (m.name, nm), m.rel, '%s does not define %r' % (imp[1], imp[2]))
        if n:
            yield ok('imports of %s' % m.name, m.rel, '%d package imports' % n)


def ctor(ctx, cls):
    return ctx.prog.method(cls, '__init__')


@rule('C21')
def call_shapes(ctx, prop):
    """Calls of package functions, constructors and methods fit their signatures."""
    counts = {}
    for m, qual, cls, node, r, call in calls_and_refs(ctx):
        if call is None:
            continue
        why, name = None, None
        if r is not None and r[0] == 'func':
            why, name = call_shape(r[1].node, call, False), r[1].node.name
        elif r is not None and r[0] == 'class':
            f = ctor(ctx, r[1])
            if f is None or external_base(ctx, related(ctx, r[1])):
                continue
            why, name = call_shape(f.node, call, True), r[1].name
        elif isinstance(call.func, ast.Attribute):
            recv = call.func.value
            cands = []
            if isinstance(recv, ast.Name) and recv.id == 'self' and cls:
                c = ctx.prog.classes.get(m.name + '.' + cls)
                if c is not None:
                    cands = [x for x in ctx.prog.subclasses(c)] or [c]
            elif isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and recv.func.id == 'super' and cls:
                c = ctx.prog.classes.get(m.name + '.' + cls)
                cands = ctx.prog.bases(c) if c is not None else []
            else:
                ln = last_name(recv)
                if ln in TYPES and not (isinstance(recv, ast.Name) and ln in m.imports):
                    cands = family(ctx, TYPES[ln]) or []
            fs = {}
            for c in cands:
                f = ctx.prog.method(c, call.func.attr)
                if f is not None and 'staticmethod' not in f.cls.decor.get(f.node.name, ()):
                    fs[f.qual] = f
            if not fs:
                continue
            whys = [call_shape(f.node, call, True) for f in fs.values()]
            if all(whys):
                why = whys[0]
            name = call.func.attr
        else:
            continue
        counts[qual] = counts.get(qual, 0) + 1
        if why:
            yield bad('call of %s in %s' % (name, qual), '%s:%d (%s)' % (m.rel, call.lineno, qual), why)
    for q, n in counts.items():
        yield ok('calls in %s' % q, '', '%d calls of package functions' % n)


# settings no code of the package reads
NO_EFFECT = {('ObsSpectrum2D', 'line_primary')}


@rule('C06 C21')
def constructor_settings(ctx, prop):
    """A setting given to a **kwargs constructor must be an attribute of the class, or setAttr drops it silently."""
    own, dynamic, ext = class_info(ctx)
    for m, qual, cls, node, r, call in calls_and_refs(ctx):
        if call is None or r is None or r[0] != 'class':
            continue
        f = ctor(ctx, r[1])
        if f is None or not f.node.args.kwarg:
            continue
        chain = ctx.prog.mro(r[1])
        have = set()
        for c in chain:
            have |= own.get(c.qual, set())
            i = c.methods.get('__init__')
            if i is not None:
                have |= set(all_args(i.node.args))
            # keys popped or fetched from kwargs by name
            for g in c.methods.values():
                for pc in (selfflow.pieces(ctx.prog, g.module, g.node) if selfflow.first_param(g.node) else ()):
                    for n in ast.walk(pc.node):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str):
                            have.add(n.value)
        if external_base(ctx, chain):
            continue
        # what the constructor hands on to other constructors
        for pc, n in [(pc, x) for c in chain for g in c.methods.values() if selfflow.first_param(g.node) and (
                g.node.name == '__init__' or g.node.name.startswith('_'))
                for pc in selfflow.pieces(ctx.prog, g.module, g.node) for x in ast.walk(pc.node)]:
            if isinstance(n, ast.Call) and any(k.arg is None for k in n.keywords):
                fn_ = resolve_callee(ctx, pc.module, None, None, n.func, set(), {})
                if fn_ and fn_[0] == 'func' and fn_[1].node.args.kwarg is None:
                    have |= set(all_args(fn_[1].node.args))
                if fn_ and fn_[0] == 'class':
                    for c in ctx.prog.mro(fn_[1]):
                        have |= own.get(c.qual, set())
                        i = c.methods.get('__init__')
                        if i is not None:
                            have |= set(all_args(i.node.args))
        lost = [k.arg for k in call.keywords if k.arg and k.arg not in have and (r[1].name, k.arg) not in NO_EFFECT]
        k = 'settings given to %s in %s' % (r[1].name, qual)
        if lost:
            yield bad(k, '%s:%d (%s)' % (m.rel, call.lineno, qual),
                      '%s has no attribute %s: the setting is silently dropped' % (r[1].name, ', '.join(lost)))
        else:
            yield ok(k, '%s:%d' % (m.rel, call.lineno), '%d settings' % len(call.keywords))


PROBE = r'''
import sys, json, importlib, inspect, warnings, os
os.environ['MPLBACKEND'] = 'Agg'
warnings.simplefilter('ignore')
req = json.load(sys.stdin)
out = {}
for d in req:
    parts = d.split('.')
    obj, n = None, 0
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:i])); n = i
            break
        except Exception as e:
            obj = None
    if obj is None:
        out[d] = ['noroot', parts[0]]
        continue
    okk = True
    for q in parts[n:]:
        try:
            obj = getattr(obj, q)
        except AttributeError:
            okk = False
            break
        except Exception:
            break
    if not okk:
        out[d] = ['missing', q]
        continue
    try:
        s = inspect.signature(obj)
        out[d] = ['sig', [[p.name, str(p.kind).split('.')[-1] if '.' in str(p.kind) else p.kind.name, p.default is p.empty] for p in s.parameters.values()]]
    except Exception:
        out[d] = ['nosig']
json.dump(out, sys.stdout)
'''
PYTHONS = ['/opt/venv/bin/python', '/opt/venv/bin/python3']


def probe(ctx, want):
    if 'probe' not in ctx.cache:
        py = next((x for x in PYTHONS if os.path.exists(x)), None)
        if py is None:
            return None
        try:
            r = subprocess.run([py, '-c', PROBE], input=json.dumps(sorted(want)), capture_output=True, text=True, timeout=300,
                               cwd='/', env={k: v for k, v in os.environ.items() if not k.startswith('PYTHON')})
            ctx.cache['probe'] = json.loads(r.stdout[r.stdout.index('{'):])
        except Exception:
            ctx.cache['probe'] = None
    return ctx.cache['probe']


@rule('C21')
def dependency_api(ctx, prop):
    """Functions taken from dependencies exist in the installed version and accept the arguments passed.
    Only the interface of the dependency is looked up; nothing of the package is run."""
    refs = [(m, qual, node, r[1], call) for m, qual, cls, node, r, call in calls_and_refs(ctx) if r is not None and r[0] == 'ext']
    optional = set()
    for m in own_modules(ctx):
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try):
                for n in t.body + [x for h in t.handlers for x in h.body]:
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for a in n.names:
                            optional.add(((n.module + '.') if isinstance(n, ast.ImportFrom) and n.module else '') + a.name)
                for n in t.body:
                    for e in ast.walk(n):
                        if isinstance(e, (ast.Attribute, ast.Call)):
                            optional.add(id(e))
    imps = []
    for m in own_modules(ctx):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split('.')[0] != PKG:
                for a in n.names:
                    if a.name != '*' and not (m.name.startswith(PKG + '.') and m.name.rsplit('.', 1)[0] + '.' + n.module in ctx.prog.modules):
                        imps.append((m, n, n.module + '.' + a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] != PKG and m.name.rsplit('.', 1)[0] + '.' + a.name not in ctx.prog.modules:
                        imps.append((m, n, a.name))
    want = {d for _, _, _, d, _ in refs} | {d for _, _, d in imps}
    res = probe(ctx, want)
    if res is None:
        yield undecided('dependency API', '', 'the interpreter with the dependencies is not available')
        return
    cnt = {}
    for m, n, d in imps:
        r = res.get(d)
        if r and r[0] == 'missing' and d not in optional:
            yield bad('import %s in %s' % (d, m.name), '%s:%d' % (m.rel, n.lineno), '%s does not exist in the installed version' % d)
    for m, qual, node, d, call in refs:
        r = res.get(d)
        if r is None or r[0] == 'noroot':
            continue
        if id(node) in optional or (call is not None and id(call) in optional):
            continue
        if versioned(ctx, m, node):
            continue
        key = '%s in %s' % (d, qual)
        where = '%s:%d (%s)' % (m.rel, node.lineno, qual)
        if r[0] == 'missing':
            yield bad(key, where, '%s does not exist in the installed version' % d)
            continue
        if r[0] == 'sig' and call is not None:
            why = ext_shape(r[1], call)
            if why:
                yield bad(key, where, why)
                continue
        cnt[m.name] = cnt.get(m.name, 0) + 1
    for k, v in cnt.items():
        yield ok('dependency API in %s' % k, '', '%d uses' % v)


def versioned(ctx, m, node):
    """Inside a function for one particular version of a dependency (its name ends in the version number)."""
    for qual, fn, cls, enc in functions_of(m):
        if fn.name.endswith('_221') and fn.lineno <= node.lineno <= (fn.end_lineno or 0):
            return True
    return False


def ext_shape(params, call):
    pos = [p for p in params if p[1] in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD')]
    var = any(p[1] == 'VAR_POSITIONAL' for p in params)
    kwv = any(p[1] == 'VAR_KEYWORD' for p in params)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    star = any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords)
    if npos > len(pos) and not var:
        return '%d positional arguments, at most %d accepted' % (npos, len(pos))
    names_ = {p[0] for p in params if p[1] in ('POSITIONAL_OR_KEYWORD', 'KEYWORD_ONLY')}
    kws = [k.arg for k in call.keywords if k.arg]
    for k in kws:
        if k not in names_ and not kwv:
            return 'unexpected keyword %r' % k
        if k in [p[0] for p in pos[:npos] if p[1] == 'POSITIONAL_OR_KEYWORD']:
            return 'several values for %r' % k
    if not star:
        miss = [p[0] for i, p in enumerate(params) if p[2] and p[1] in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD')
                and i >= npos and p[0] not in kws]
        miss += [p[0] for p in params if p[2] and p[1] == 'KEYWORD_ONLY' and p[0] not in kws]
        if miss:
            return 'missing argument %s' % ', '.join(miss)
    return None


@rule('C21')
def format_strings(ctx, prop):
    import re, string
    for m in own_modules(ctx):
        n = 0
        for e in ast.walk(m.tree):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(
                    e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                    continue
                try:
                    fields = [f for _, f, _, _ in string.Formatter().parse(e.func.value.value) if f is not None]
                except ValueError as x:
                    yield bad('format string in %s' % m.name, '%s:%d' % (m.rel, e.lineno), str(x))
                    continue
                n += 1
                auto = 0
                for f in fields:
                    head = re.split(r'[.\[]', f)[0]
                    if head == '':
                        idx, auto = auto, auto + 1
                    elif head.isdigit():
                        idx = int(head)
                    else:
                        if head not in [k.arg for k in e.keywords]:
                            yield bad('format string in %s' % m.name, '%s:%d' % (m.rel, e.lineno), 'no argument named %r' % head)
                        continue
                    if idx >= len(e.args):
                        yield bad('format string in %s' % m.name, '%s:%d' % (m.rel, e.lineno),
                                  'field %d, but %d arguments' % (idx, len(e.args)))
            elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(
                    e.left.value, str) and isinstance(e.right, ast.Tuple):
                n += 1
                nspec = len(re.findall(r'%(?!%)[-+ #0-9.*]*[hlL]?[diouxXeEfFgGcrsa]', e.left.value.replace('%%', '')))
                if nspec != len(e.right.elts):
                    yield bad('format string in %s' % m.name, '%s:%d' % (m.rel, e.lineno),
                              '%d fields, %d values' % (nspec, len(e.right.elts)))
        if n:
            yield ok('format strings of %s' % m.name, m.rel, '%d' % n)


# ---------------------------------------------------------------- attributes set up by the constructor
def init_attrs(ctx, cls, seen=None):
    """Attributes the construction of a class assigns (constructors, and the methods and functions they call)."""
    ck = ctx.cache.setdefault('init_attrs', {})
    if cls.qual in ck:
        return ck[cls.qual]
    out, todo, done = set(), ['__init__'], set()
    while todo:
        nm = todo.pop()
        for c in ctx.prog.mro(cls):
            f = c.methods.get(nm)
            if f is None or f.qual in done:
                continue
            done.add(f.qual)
            if not selfflow.first_param(f.node):
                continue
            calls_super = False
            for pc in selfflow.pieces(ctx.prog, f.module, f.node):
                out |= selfflow.stores(pc)
                for n in ast.walk(pc.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        v = n.func.value
                        if isinstance(v, ast.Name) and v.id in pc.names:
                            todo.append(n.func.attr)
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                            calls_super = True
                            todo.append(n.func.attr)
                        elif isinstance(v, ast.Name):
                            r = ctx.prog.resolve(pc.module.name, v.id)
                            if r and r[0] == 'class':
                                calls_super = True
                                todo.append(n.func.attr)
            if not calls_super:
                break                       # the overriding method hides the inherited one
    ck[cls.qual] = out
    return out


def stored_by(ctx, c, f):
    """Attributes a method stores on its object, itself or through the functions and methods it calls."""
    ck = ctx.cache.setdefault('stored_by', {})
    if (c.qual, f.qual) in ck:
        return ck[c.qual, f.qual]
    out = ck[c.qual, f.qual] = set()
    if selfflow.first_param(f.node):
        for pc in selfflow.pieces(ctx.prog, f.module, f.node):
            out |= selfflow.stores(pc)
            for n in ast.walk(pc.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in pc.names:
                    g = ctx.prog.method(c, n.func.attr)
                    if g is not None and g is not f and n.func.attr.startswith('_'):
                        out |= stored_by(ctx, c, g)
    return out


def method_callers(ctx, c):
    """method name -> methods of the class (and its bases) that call it on the object"""
    out = {}
    for k in ctx.prog.mro(c) + [x for x in ctx.prog.subclasses(c)]:
        for f in k.methods.values():
            if not selfflow.first_param(f.node):
                continue
            for pc in selfflow.pieces(ctx.prog, f.module, f.node):
                for n in ast.walk(pc.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in pc.names:
                        out.setdefault(n.func.attr, []).append(f)
    return out


def set_by_callers(ctx, c, f, attr, callers, seen):
    """Every caller of a private method stores the attribute."""
    if not f.node.name.startswith('_') or f.node.name in seen:
        return False
    cs = callers.get(f.node.name, [])
    return bool(cs) and all(attr in stored_by(ctx, c, g) or set_by_callers(ctx, c, g, attr, callers, seen + (f.node.name,)) for g in cs)


@rule('C21')
def constructed_attributes(ctx, prop):
    """An attribute read by a method is set by the constructor, by that method, or is one of the listed late ones."""
    own, dynamic, ext = class_info(ctx)
    for q, c in sorted(ctx.prog.classes.items()):
        if not q.startswith(PKG + '.') or not ctx.prog.method(c, '__init__'):
            continue
        if external_base(ctx, ctx.prog.mro(c)):
            continue
        init = init_attrs(ctx, c)
        for k in ctx.prog.mro(c):
            init |= set(k.methods) | set(k.attrs)
        init |= OBJ_ATTRS
        n = 0
        subs = [x for x in ctx.prog.subclasses(c) if x is not c]
        for f in c.methods.values():
            a = f.node.args.posonlyargs + f.node.args.args
            if not a:
                continue
            guarded = guarded_attrs(f.node)
            stored = stored_by(ctx, c, f)
            for st in live_walk(f.node.body):
                for x in own_exprs(st):
                    for e in ast.walk(x):
                        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and isinstance(
                                e.value, ast.Name) and e.value.id == a[0].arg and id(e) not in guarded and e.attr not in guarded:
                            n += 1
                            if e.attr in init or e.attr in stored:
                                continue
                            if subs and all(e.attr in init_attrs(ctx, s) or e.attr in s.methods for s in subs):
                                continue
                            k2 = ctx.cache.setdefault('callers', {})
                            if c.qual not in k2:
                                k2[c.qual] = method_callers(ctx, c)
                            if f.node.name != '__init__' and set_by_callers(ctx, c, f, e.attr, k2[c.qual], ()):
                                continue
                            yield bad('construction of %s: %s' % (q, e.attr), '%s:%d (%s.%s)' % (
                                c.module.rel, e.lineno, c.name, f.node.name),
                                'self.%s is read, but constructing a %s does not set it' % (e.attr, c.name))
        yield ok('construction of %s' % q, c.module.rel, '%d reads' % n)
