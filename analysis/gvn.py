"""Gated value numbering of functions: a syntax-directed dataflow walk that gives every
local, attribute and return value a canonical term.  Branches are joined with gates (no path
enumeration), loops become fixpoint terms, local calls are expanded through the call graph.
"""
import ast
from fractions import Fraction
from . import terms as t
from .terms import mk, T, NONE, TRUE, FALSE, ZERO, ONE
from .loader import Func, Class, AnalysisBroken

# parameter / attribute name -> class used to resolve methods on it
DEFAULT_HINTS = {
    'galaxy': 'galaxy.Galaxy', 'spec2D': 'galaxy.ObsSpectrum2D', 'spec1D': 'galaxy.ObsSpectrum1D',
    'kinModel': 'model.kin_model.KinModel2D', 'aperModel': 'model.aper_model.AperModel2D',
    'fitEmis2D': 'fit.fit2D.FitEmissionLines2D',
}

NP_SIG = {
    'sum': ['a', 'axis'], 'mean': ['a', 'axis'], 'average': ['a', 'axis', 'weights'], 'median': ['a', 'axis'],
    'std': ['a', 'axis'], 'max': ['a', 'axis'], 'min': ['a', 'axis'], 'all': ['a', 'axis'], 'any': ['a', 'axis'],
    'linspace': ['start', 'stop', 'num'], 'tile': ['A', 'reps'], 'repeat': ['a', 'repeats', 'axis'],
    'percentile': ['a', 'q', 'axis'], 'append': ['arr', 'values', 'axis'], 'concatenate': ['arrays', 'axis'],
    'zeros': ['shape'], 'ones': ['shape'], 'argmin': ['a', 'axis'], 'argmax': ['a', 'axis'],
    'argsort': ['a', 'axis'], 'cumsum': ['a', 'axis'], 'histogram': ['a', 'bins'], 'interp': ['x', 'xp', 'fp'],
    'reshape': ['a', 'newshape'], 'dot': ['a', 'b'], 'polyfit': ['x', 'y', 'deg'], 'var': ['a', 'axis'],
    'unique': ['a'], 'sort': ['a', 'axis'], 'diff': ['a', 'n', 'axis'], 'where': ['condition', 'x', 'y'],
    'vstack': ['tup'], 'hstack': ['tup'], 'full': ['shape', 'fill_value'],
}
NP_ALIAS = {'amax': 'max', 'amin': 'min', 'absolute': 'abs', 'fabs': 'abs', 'float_power': 'power',
            'round_': 'round', 'around': 'round', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan',
            'isneginf': 'isneginf', 'product': 'prod', 'alltrue': 'all', 'sometrue': 'any', 'asarray': 'array',
            'ascontiguousarray': 'array', 'asanyarray': 'array', 'nonzero': 'where', 'row_stack': 'vstack'}
METH2NP = {'sum': 'sum', 'mean': 'mean', 'max': 'max', 'min': 'min', 'std': 'std', 'all': 'all', 'any': 'any',
           'argmin': 'argmin', 'argmax': 'argmax', 'argsort': 'argsort', 'repeat': 'repeat', 'cumsum': 'cumsum',
           'reshape': 'reshape', 'dot': 'dot', 'nonzero': 'where', 'var': 'var', 'round': 'round',
           'transpose': 'transpose', 'flatten': 'ravel', 'ravel': 'ravel', 'prod': 'prod'}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
LOGISH = ('print',)


def shadow(env):
    """What the caller sees of each argument: follows mutations, not rebinding."""
    for n, v in list(env.loc.items()):
        if v.op == 'sym' and not v.args[0].startswith('*'):
            env.loc['@arg:' + v.args[0]] = v


class Env:
    __slots__ = ('loc', 'heap', 'tok')

    def __init__(self, loc=None, heap=None, tok=None):
        self.loc = dict(loc or {})
        self.heap = dict(heap or {})
        self.tok = dict(tok or {})      # local name -> object token (None: whatever its value denotes)

    def copy(self):
        return Env(self.loc, self.heap, self.tok)


class Event:
    __slots__ = ('kind', 'pc', 'name', 'args', 'node', 'func', 'depth')

    def __init__(self, kind, pc, name, args, node, func, depth):
        self.kind, self.pc, self.name, self.args = kind, pc, name, args
        self.node, self.func, self.depth = node, func, depth

    def __repr__(self):
        return '<%s %s %s %s>' % (self.kind, self.name, [t.show(a, 3) for a in self.args], [t.show(c, 3) for c in self.pc])

    @property
    def where(self):
        return '%s:%d' % (self.func.module.rel, getattr(self.node, 'lineno', 0))


class Closure:
    def __init__(self, node, env, func, frame):
        self.node, self.env, self.func, self.frame = node, env, func, frame


class Frame:
    def __init__(self, func, selfcls, parent=None):
        self.func = func
        self.selfcls = selfcls
        self.returns = []      # (pc, value, heap)
        self.parent = parent
        self.breaks = []
        self.continues = []
        self.globals = set()
        self.ndef = 0


class Result:
    def __init__(self, ret, heap, events, params, env):
        self.ret, self.heap, self.events, self.params, self.env = ret, heap, events, params, env

    def attr(self, base, path):
        """Final value of base.path (dotted)."""
        b = base
        for p in path.split('.'):
            b = self.look(b, p)
        return settled(b)

    def look(self, b, p):
        v = self.heap.get((b, p))
        if v is not None:
            return v
        if b.op == 'ite':
            return t.ite(b.args[0], self.look(b.args[1], p), self.look(b.args[2], p))
        if b.op == 'new' and p in dict(b.args[2]):
            return dict(b.args[2])[p]       # constructors keep their settings (judged on its own)
        return t.mkattr(b, p)

    def self_attr(self, path):
        return self.attr(t.sym('self'), path)


def settled(v):
    """A setting read back from the object just made with it (that constructors keep their settings is judged on its own)."""
    m = {s: dict(s.args[0].args[2])[s.args[1]] for s in t.subterms(v)
         if s.op == 'attr' and s.args[0].op == 'new' and s.args[1] in dict(s.args[0].args[2])}
    return t.subst(v, m) if m else v


def copied(kind, v):
    """The copy of a value: of each alternative; a fresh object need not be copied."""
    if v.op == 'ite':
        return t.ite(v.args[0], copied(kind, v.args[1]), copied(kind, v.args[2]))
    if v.op in ('copyof', 'new', 'num', 'const', 'bool'):
        return v
    return mk('copyof', kind, v)


class Engine:
    MAXDEPTH = 14

    def __init__(self, prog, opaque=None, inline=None, hints=None, nan_strict=False, init_new=False,
                 inline_known=False, known=None, seq_bool=True):
        """opaque: predicate(Func)->bool, true when a call to it stays a symbol."""
        self.p = prog
        self.opaque = opaque or (lambda f: False)
        self.hints = dict(DEFAULT_HINTS)
        self.hints.update(hints or {})
        self.nan_strict = nan_strict
        self.init_new = init_new
        self.events = []
        self.pc = []
        self.stack = []
        self.loopdepth = 0
        self.uid = 0
        self.modcache = {}
        self.closures = {}
        self.typeof = {}
        self.newcount = 0
        self.analysed = set()
        self.steps = 0
        self.ntok = 0
        self.htok = {}        # heap key -> object token
        self.rettoks = {}     # call node -> token of the returned object
        self.quietset = 0
        self.elemtoks = {}    # token of a tuple -> tokens of its elements
        self.pendtok = (None, {})
        self.paramtoks = {}

    # ------------------------------------------------------------ entry
    def run(self, func, selfcls=None, args=None, self_term=None, heap=None):
        """Number a whole function with symbolic parameters."""
        selfcls = selfcls or func.cls
        env = Env(heap=heap or {})
        a = func.node.args
        params = []
        names = [x.arg for x in a.posonlyargs + a.args]
        isstatic = func.cls and 'staticmethod' in func.cls.decor.get(func.node.name, [])
        for i, n in enumerate(names):
            if func.cls and i == 0 and not isstatic:
                v = self_term if self_term is not None else t.sym('self')
                self.typeof[v] = selfcls
            else:
                v = (args or {}).get(n)
                if v is None:
                    v = t.sym(n)
            env.loc[n] = v
            params.append(n)
        if a.vararg:
            env.loc[a.vararg.arg] = getattr(self, 'varargs', None) or t.sym('*args')
        for k in a.kwonlyargs:
            env.loc[k.arg] = (args or {}).get(k.arg) or t.sym(k.arg)
        if a.kwarg:
            env.loc[a.kwarg.arg] = (args or {}).get('**') or t.sym('**kwargs')
        shadow(env)
        fr = Frame(func, selfcls)
        ret, heap = self.exec_func(fr, func.node, env)
        return Result(ret, heap, self.events, params, env)

    def exec_func(self, fr, node, env):
        self.analysed.add(fr.func.qual if not isinstance(node, ast.Lambda) else fr.func.qual)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env, fr), env.heap
        savepc, self.pc = self.pc, list(self.pc)
        base = len(self.pc)
        end = self.block(node.body, env, fr)
        rets = fr.returns
        self.pc = savepc
        if end is not None:
            rets = rets + [((), NONE, end.heap, end.loc)]
        if not rets:
            return NONE, env.heap
        pcs = [r[0] for r in rets]
        ret, heap = rets[-1][1], dict(rets[-1][2])
        floc = dict(rets[-1][3])
        for pc, v, h, lo in reversed(rets[:-1]):
            c = t.and_(*pc) if pc else TRUE
            ret = t.ite(c, v, ret)
            heap = self.joinheap(c, h, heap)
        env.loc.update(floc)
        return ret, heap

    def joinheap(self, c, h1, h2):
        out = {}
        for k in set(h1) | set(h2):
            a = h1.get(k)
            b = h2.get(k)
            if a is None:
                a = self.heapdefault(k)
            if b is None:
                b = self.heapdefault(k)
            out[k] = a if a is b else t.ite(c, a, b)
        return out

    def heapdefault(self, k):
        if k[1] == '@del':
            return FALSE
        if k[1].startswith('@'):
            return mk('nostate')
        return t.mkattr(k[0], k[1])

    def join(self, c, e1, e2):
        if e1 is None:
            return e2
        if e2 is None:
            return e1
        loc = {}
        for k in set(e1.loc) | set(e2.loc):
            a, b = e1.loc.get(k), e2.loc.get(k)
            if a is None or b is None:
                a = a if a is not None else mk('unbound')
                b = b if b is not None else mk('unbound')
            loc[k] = a if a is b else t.ite(c, a, b)
        tok = {}
        for k in set(e1.tok) | set(e2.tok):
            a, b = e1.tok.get(k), e2.tok.get(k)
            if k not in e1.loc or k not in e2.loc:
                a = b = a if k in e1.loc else b
            tok[k] = a if a == b else (self.newtok() if a is not None and b is not None else None)
        return Env(loc, self.joinheap(c, e1.heap, e2.heap), tok)

    # ------------------------------------------------------------ object identity
    def newtok(self):
        self.ntok += 1
        return self.ntok

    VIEWS = {'asarray', 'asanyarray', 'ravel', 'reshape', 'squeeze', 'transpose', 'atleast_1d', 'atleast_2d', 'swapaxes',
             'rollaxis', 'moveaxis', 'broadcast_to', 'broadcast_arrays', 'expand_dims', 'flip', 'fliplr', 'flipud', 'rot90'}
    FRESHMETH = {'copy', 'astype', 'tolist', 'flatten', 'sum', 'mean', 'max', 'min', 'std', 'cumsum', 'repeat', 'clip',
                 'split', 'strip', 'format', 'join', 'lower', 'upper'}

    def token(self, node, env, fr):
        """Token of the object an expression evaluates to; a number for an object nothing else holds."""
        if isinstance(node, ast.Name):
            return env.tok.get(node.id)
        if isinstance(node, ast.Attribute):
            k = self.heapkey(node, env, fr)
            return self.htok.get(k) if k else None
        if isinstance(node, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp, ast.BinOp,
                             ast.UnaryOp, ast.Compare, ast.JoinedStr, ast.GeneratorExp)):
            return self.newtok()
        if isinstance(node, ast.IfExp):
            a, b = self.token(node.body, env, fr), self.token(node.orelse, env, fr)
            return None if a is None or b is None else self.newtok()
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and isinstance(node.slice, ast.Constant) \
                and isinstance(node.slice.value, int):
            parts = self.elemtoks.get(env.tok.get(node.value.id))
            if parts is not None and -len(parts) <= node.slice.value < len(parts):
                r = parts[node.slice.value]
                return r if not isinstance(r, list) else None
            return None
        if isinstance(node, ast.Call):
            if node in self.rettoks:
                return self.rettoks[node]
            f = node.func
            if isinstance(f, ast.Attribute):
                root = f
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and root.id not in env.loc:
                    v = self.ev(f, env, fr)
                    if v.op == 'ext':
                        d = v.args[0]
                        if d.startswith(('numpy.', 'scipy.')) or d in ('copy.deepcopy', 'copy.copy'):
                            return None if d.rsplit('.', 1)[1] in self.VIEWS else self.newtok()
                    return None
                if f.attr in self.FRESHMETH and not (f.attr == 'copy' and node.args):
                    return self.newtok()
                return None
            if isinstance(f, ast.Name) and f.id not in env.loc:
                v = self.ev(f, env, fr)
                if v.op == 'fn' and v.args[0] in ('list', 'dict', 'tuple', 'set', 'sorted', 'range', 'zip', 'map', 'str',
                                                  'int', 'float', 'abs', 'max', 'min', 'sum'):
                    return self.newtok()
                if v.op == 'ext' and (v.args[0].startswith('numpy.') or v.args[0] in ('copy.deepcopy', 'copy.copy')):
                    return None if v.args[0].rsplit('.', 1)[1] in self.VIEWS else self.newtok()
                if v.op == 'cls':
                    return self.newtok()
        return None

    def tokens(self, node, env, fr):
        if isinstance(node, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in node.elts):
            return [self.tokens(x, env, fr) for x in node.elts]
        return self.token(node, env, fr)

    def heapkey(self, node, env, fr):
        b = node.value
        while isinstance(b, ast.Attribute):
            b = b.value
        if not isinstance(b, ast.Name):
            return None
        return (self.ev(node.value, env, fr), node.attr)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env, fr):
        """Returns the environment at the end, or None when control never gets there."""
        for i, st in enumerate(stmts):
            env = self.stmt(st, env, fr)
            if env is None:
                return None
        return env

    def relpc(self, fr):
        return tuple(self.pc[fr.pcbase:]) if hasattr(fr, 'pcbase') else tuple(self.pc)

    def event(self, kind, name, args, node, fr):
        self.events.append(Event(kind, tuple(self.pc), name, tuple(args), node, fr.func, len(self.stack)))

    def stmt(self, st, env, fr):
        self.steps += 1
        if self.steps > 400000:
            raise t.LimitHit('step budget')
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            return env
        return m(st, env, fr)

    def s_Pass(self, st, env, fr):
        return env
    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Assert = s_Pass

    def s_Expr(self, st, env, fr):
        if isinstance(st.value, ast.Constant):
            return env
        if isinstance(st.value, ast.Call):
            self.ev_call(st.value, env, fr, statement=True)
        else:
            self.ev(st.value, env, fr)
        return env

    def s_FunctionDef(self, st, env, fr):
        env.loc[st.name] = self.closure(st, env, fr)
        return env

    def s_Assign(self, st, env, fr):
        v = self.ev(st.value, env, fr)
        tk = self.tokens(st.value, env, fr)
        if isinstance(tk, list) and any(not isinstance(tg, (ast.Tuple, ast.List)) for tg in st.targets):
            parts, tk = tk, self.newtok()
            if v.op == 'tuple':
                self.elemtoks[tk] = parts
        for tg in st.targets:
            self.assign(tg, v, env, fr, st, tk)
        return env

    def s_AnnAssign(self, st, env, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, fr), env, fr, st, self.token(st.value, env, fr))
        return env

    def s_AugAssign(self, st, env, fr):
        tg = st.target
        load = _as_load(tg)
        old = self.ev(load, env, fr)
        v = self.binop(st.op, old, self.ev(st.value, env, fr))
        self.inplace(tg, old, v, type(st.op).__name__, env, fr, st)
        return env

    def inplace(self, tg, old, v, how, env, fr, st):
        """The object at tg (which held old) now holds v."""
        if not isinstance(tg, ast.Subscript):
            self.event('inplace', how, (old, v), st, fr)
        tk = self.token(tg, env, fr) if not isinstance(tg, ast.Subscript) else None
        if isinstance(tg, ast.Name) and tk is None and (
                old.op == 'attr' and old.args[1] in self.arrayattrs() or
                old.op == 'sym' and '@arg:' + old.args[0] in env.loc and old.args[0] in self.arrayattrs()):
            # in-place update of an array that is also an attribute
            self.mutate(old, v, env, tg, fr)
            return
        self.assign(tg, v, env, fr, st, tk)

    def arrayattrs(self):
        """Attribute names the package indexes with slices: arrays."""
        r = getattr(self.p, '_arrayattrs', None)
        if r is None:
            r = set()
            for m in self.p.modules.values():
                if m.name.startswith('spec'):
                    continue
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and \
                            isinstance(n.slice, (ast.Slice, ast.Tuple)):
                        r.add(n.value.attr)
            r |= {'flux', 'flux_err', 'spec_mask', 'spec_weight', 'mask_sky', 'mask_low_snr', 'flux_w_cont', 'wave', 'obswave',
                  'err', 'mask', 'spec', 'spec_err', 'mask_calc', 'mask2D', 'mask1D', 'model', 'samples', 'err_spec'}
            self.p._arrayattrs = r
        return r

    def assign(self, tg, v, env, fr, st, tk=None):
        if isinstance(tg, ast.Name):
            env.loc[tg.id] = v
            env.tok[tg.id] = tk if not isinstance(tk, list) else self.newtok()
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, e in enumerate(tg.elts):
                ti = tk[i] if isinstance(tk, list) and i < len(tk) else None
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk('rest', v, i), env, fr, st)
                else:
                    self.assign(e, self.unpack(v, i), env, fr, st, ti)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env, fr)
            self.setattr(b, tg.attr, v, env, fr, st)
            self.htok[(b, tg.attr)] = tk if not isinstance(tk, list) else self.newtok()
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env, fr)
            i = self.ev(tg.slice, env, fr)
            owner = _dictowner(b)
            if owner is not None and i.op == 'const' and isinstance(i.args[0], str):
                self.setattr(owner, i.args[0], v, env, fr, st)
                return
            if b.op == 'attr' and b.args[1] == '__dict__':
                if i.op == 'const' and isinstance(i.args[0], str):
                    self.setattr(b.args[0], i.args[0], v, env, fr, st)
                else:
                    self.event('setdict', '__dict__', (b.args[0], i, v), st, fr)
                    self.override(b.args[0], i, v, env)
                return
            self.mutate(b, self.store(b, i, v), env, tg.value, fr)
            self.event('store', 'setitem', (b, i, v), st, fr)

    def override(self, base, key, v, env):
        """base.__dict__[key] = v for a non-constant key coming from a mapping."""
        src = None
        for s in t.subterms(key):
            if s.op == 'sym' and s.args[0].startswith('**'):
                src = s
        for s in t.subterms(v):
            if s.op == 'sym' and s.args[0].startswith('**'):
                src = s
        src = src or mk('keys', key, v)
        # names the path rules out are left alone
        spared = set()
        for c in self.pc:
            for x in (c.args if c.op == 'and' else (c,)):
                if x.op == 'not' and x.args[0].op == 'eq' and key in x.args[0].args:
                    spared |= {y.args[0] for y in x.args[0].args if y.op == 'const'}
        self.apply_override(base, src, env, spared)

    def apply_override(self, base, src, env, spared=()):
        if src.op == 'sym' and src.args[0].startswith('**') and not self.quietset:
            pc = tuple(c for c in self.pc if c.op != 'inloop' and not any(x.op in ('iv', 'key', 'keys') for x in t.subterms(c)))
            self.events.append(Event('call', pc, 'settings', (base, src), None, None, len(self.stack)))
        for k in list(env.heap):
            if k[0] is base and not k[1].startswith('@') and k[1] not in spared:
                o = env.heap[k]
                if not (o.op == 'override' and o.args[0] is src):
                    env.heap[k] = mk('override', src, k[1], o)
        old = env.heap.get((base, '@override'))
        env.heap[(base, '@override')] = src

    def setattr(self, b, name, v, env, fr, st):
        if b.op == 'ite':
            # conditional target: update both gated
            for br, cond in ((b.args[1], b.args[0]), (b.args[2], t.not_(b.args[0]))):
                old = self.getattr(br, name, env, fr)
                self.setattr(br, name, t.ite(cond, v, old), env, fr, st)
            return
        env.heap[(b, name)] = v
        self.event('setattr', name, (b, v), st, fr)

    def store(self, b, i, v):
        if i.op == 'wh':
            i = i.args[0]
        if b.op == 'store' and b.args[1] is i:
            b = b.args[0]
        if b.op == 'dict' and i.op == 'const':
            return mk('dict', tuple(sorted([(k, x) for k, x in b.args[0] if k is not i] + [(i, v)], key=lambda kv: kv[0].dg)))
        return t.store(b, i, v)

    def mutate(self, old, new, env, node, fr):
        """The object valued `old` now holds `new`: rebind every name and attribute aliasing it."""
        hit = False
        key = None
        if isinstance(node, ast.Name):
            tk = env.tok.get(node.id)
        elif isinstance(node, ast.Attribute):
            key = self.heapkey(node, env, fr) or (self.ev(node.value, env, fr), node.attr)
            tk = self.htok.get(key)
        else:
            tk = None
        if old.op not in ('num', 'const', 'bool'):
            for k, v in list(env.loc.items()):
                if v is old and env.tok.get(k) == tk:
                    env.loc[k] = new
                    hit = True
            for k, v in list(env.heap.items()):
                if v is old and self.htok.get(k) == tk:
                    env.heap[k] = new
                    hit = True
        if old.op == 'attr' and isinstance(old.args[1], str) and tk is None:
            env.heap[(old.args[0], old.args[1])] = new
            hit = True
        if isinstance(node, ast.Name):
            env.loc[node.id] = new
        elif isinstance(node, ast.Attribute):
            env.heap[key] = new
        elif isinstance(node, ast.Subscript):
            c = self.ev(node.value, env, fr)
            i = self.ev(node.slice, env, fr)
            if i.op not in ('wh', 'cmp', 'and', 'or', 'not'):
                self.mutate(c, self.store(c, i, new), env, node.value, fr)
            return
        if old.op == 'item' and tk is None:
            b, i = old.args
            cur = env.heap.get((b.args[0], b.args[1]), b) if b.op == 'attr' else b
            if not hit or (i.op == 'const' and isinstance(i.args[0], str)):
                if cur is b or _derived(cur, b):
                    self.mutate(cur, self.store(cur, i, new), env, None, fr)

    def unpack(self, v, i):
        if v.op in ('tuple', 'list') and i < len(v.args):
            return v.args[i]
        if v.op == 'ite':
            return t.ite(v.args[0], self.unpack(v.args[1], i), self.unpack(v.args[2], i))
        return t.item(v, t.num(i))

    def s_Delete(self, st, env, fr):
        for tg in st.targets:
            if isinstance(tg, ast.Attribute):
                b = self.ev(tg.value, env, fr)
                self.event('delattr', tg.attr, (b,), st, fr)
                for obj, c in _cases(b):
                    old = env.heap.get((obj, tg.attr), t.mkattr(obj, tg.attr))
                    env.heap[(obj, tg.attr)] = t.ite(c, mk('deleted'), old)
            elif isinstance(tg, ast.Subscript):
                b = self.ev(tg.value, env, fr)
                i = self.ev(tg.slice, env, fr)
                if b.op == 'attr' and b.args[1] == '__dict__':
                    self.event('delattr', i.args[0] if i.op == 'const' else '?', (b.args[0], i), st, fr)
                    if i.op == 'const':
                        env.heap[(b.args[0], i.args[0])] = mk('deleted')
                else:
                    self.event('delitem', '', (b, i), st, fr)
                    self.mutate(b, mk('without', b, i), env, tg.value, fr)
        return env

    def s_Return(self, st, env, fr):
        v = self.ev(st.value, env, fr) if st.value is not None else NONE
        fr.returns.append((self.relpc(fr), v, dict(env.heap), dict(env.loc)))
        if st.value is not None:
            fr.rettoks = getattr(fr, 'rettoks', []) + [self.tokens(st.value, env, fr)]
        return None

    def s_Raise(self, st, env, fr):
        n = '?'
        if st.exc is not None:
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            n = ast.unparse(e)
        self.event('raise', n, (), st, fr)
        return None

    def s_Break(self, st, env, fr):
        fr.breaks[-1].append((tuple(self.pc), env))
        return None

    def s_Continue(self, st, env, fr):
        fr.continues[-1].append((tuple(self.pc), env))
        return None

    def s_If(self, st, env, fr):
        c = self.cond(st.test, env, fr)
        if c is TRUE:
            return self.block(st.body, env, fr)
        if c is FALSE:
            return self.block(st.orelse, env, fr)
        n = len(self.pc)
        e1, e2 = env.copy(), env.copy()
        self.pc.append(c)
        r1 = self.block(st.body, e1, fr)
        x1 = self.pc[n + 1:]
        del self.pc[n:]
        self.pc.append(t.not_(c))
        r2 = self.block(st.orelse, e2, fr)
        x2 = self.pc[n + 1:]
        del self.pc[n:]
        if r1 is None and r2 is None:
            return None
        if r1 is None or r2 is None:
            # the surviving branch continues under its condition (needed by later returns)
            r = r2 if r1 is None else r1
            self.pc.append(t.not_(c) if r1 is None else c)
            self.pc.extend(x2 if r1 is None else x1)
            return r
        if x1 or x2:
            # some path ended inside a branch
            self.pc.append(t.or_(t.and_(c, *x1), t.and_(t.not_(c), *x2)))
        return self.join(c, r1, r2)

    def s_With(self, st, env, fr):
        for it in st.items:
            v = self.ev(it.context_expr, env, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk('enter', v), env, fr, st)
        return self.block(st.body, env, fr)

    def s_Try(self, st, env, fr):
        n = len(self.pc)
        pre = env.copy()
        r = self.block(st.body, env, fr)
        post = len(self.pc)
        extra = self.pc[n:]
        if r is not None and st.orelse:
            r = self.block(st.orelse, r, fr)
        del self.pc[n:]
        kinds = []
        out = r
        for h in st.handlers:
            kind = ast.unparse(h.type) if h.type is not None else ''
            kinds.append(kind)
            e = pre.copy()
            if h.name:
                e.loc[h.name] = t.sym('exc')
            cnd = mk('exc', kind, self.tryid(st, fr))
            self.pc.append(cnd)
            rh = self.block(h.body, e, fr)
            del self.pc[n:]
            if rh is not None:
                out = rh if out is None else self.join(cnd, rh, out)
        if st.finalbody:
            tgt = out if out is not None else pre
            r3 = self.block(st.finalbody, tgt, fr)
            if out is not None:
                out = r3
        if out is r and r is not None:
            self.pc.extend(extra)
        return out

    def tryid(self, st, fr):
        ids = getattr(fr, 'tryids', None)
        if ids is None:
            fr.tryids = ids = {}
        return ids.setdefault(id(st), len(ids))

    # ------------------------------------------------------------ loops
    def loopdomain(self, it, env, fr):
        """-> (domain term, element builder(iv term))"""
        return self.domain_of(self.ev(it, env, fr))

    def domain_of(self, v):
        if v.op == 'range':
            a, b, s = v.args
            if s is ONE:
                return t.sub(b, a), (lambda iv: t.add(a, iv))
            return mk('steps', a, b, s), (lambda iv: t.add(a, t.mul(s, iv)))
        if v.op == 'call' and v.args[0] == 'numpy.arange' and len(v.args[1]) == 1 and not v.args[2]:
            return v.args[1][0], (lambda iv: iv)
        if v.op == 'enumerate':
            d, f = self.domain_of(v.args[0])
            return d, (lambda iv: mk('tuple', t.add(v.args[1], iv), f(iv)))
        if v.op == 'zip':
            ds = [self.domain_of(x) for x in v.args]
            return ds[0][0], (lambda iv: mk('tuple', *[f(iv) for d, f in ds]))
        if v.op == 'reversed':
            d, f = self.domain_of(v.args[0])
            return d, (lambda iv: f(t.sub(t.sub(d, ONE), iv)))
        if v.op == 'keys':
            return mk('len', v), (lambda iv: mk('key', v.args[0], iv))
        if v.op == 'items':
            return mk('len', mk('keys', v.args[0])), (lambda iv: mk('tuple', mk('key', v.args[0], iv),
                                                     t.item(v.args[0], mk('key', v.args[0], iv))))
        if v.op == 'attr' and v.args[1] == '__dict__' or v.op == 'dict' or \
                (v.op == 'sym' and v.args[0].startswith('**')):
            return mk('len', mk('keys', v)), (lambda iv: mk('key', v, iv))
        if v.op == 'wh':
            pass
        return t.length(v), (lambda iv: t.item(v, iv))

    def s_For(self, st, env, fr):
        itv = self.ev(st.iter, env, fr)
        if itv.op == 'range' and all(x.op == 'num' and x.args[0] == int(x.args[0]) for x in itv.args) and itv.args[2] is not ZERO:
            r = range(*[int(x.args[0]) for x in itv.args])
            if 0 < len(r) <= 8:
                itv = mk('list', *[t.num(i) for i in r])
        known = None if _has_jump(st.body) else _elements(itv)
        if known is not None:
            itv = mk('list', *known)
        # small constant sequences of strings/tuples are unrolled (option tables, attribute lists)
        if itv.op in ('list', 'tuple') and 0 < len(itv.args) <= 96 and all(
                _literal(x) for x in itv.args) and not _has_jump(st.body):
            for x in itv.args:
                self.assign(st.target, x, env, fr, st)
                env2 = self.block(st.body, env, fr)
                if env2 is None:
                    return None
                env = env2
            return env
        if isinstance(st.iter, (ast.Tuple, ast.List)) and _steady(st.iter.elts, st.body):
            # the same as the body written out once for each of the objects named
            for x in st.iter.elts:
                a = ast.copy_location(ast.Assign(targets=[st.target], value=x), st)
                env = self.block([a] + st.body, env, fr)
                if env is None:
                    return None
            return env
        if itv.op in ('list', 'tuple') and 0 < len(itv.args) <= 8 and all(x.op in ('attr', 'sym') for x in itv.args) and \
                not _has_jump(st.body) and _onlymethods(st.target, st.body):
            for x in itv.args:
                self.assign(st.target, x, env, fr, st)
                env = self.block(st.body, env, fr)
                if env is None:
                    return None
            return env
        dom, elem = self.domain_of(itv)
        return self.loop(st, env, fr, dom, lambda e, iv: self.assign(st.target, elem(iv), e, fr, st), None)

    def s_While(self, st, env, fr):
        if not st.orelse and not _has_jump(st.body) and _plaintest(st.test):
            # a counter running over a small known range
            e, ev0, n = env.copy(), len(self.events), 0
            while n <= 8 and e is not None:
                c = self.cond(st.test, e, fr)
                if c is FALSE and n:
                    return e
                if c is not TRUE:
                    break
                e = self.block(st.body, e, fr)
                n += 1
            del self.events[ev0:]
        return self.loop(st, env, fr, None, None, st.test)

    def loop(self, st, env, fr, dom, bind, test):
        lv = self.loopdepth
        self.loopdepth += 1
        self.uid += 1
        uid = self.uid
        iv = mk('iv', lv)
        n = len(self.pc)
        ev0 = len(self.events)
        fr.inloop = getattr(fr, 'inloop', 0) + 1
        try:
            return self._loop(st, env, fr, dom, bind, test, lv, uid, iv, n, ev0)
        finally:
            fr.inloop -= 1

    def _loop(self, st, env, fr, dom, bind, test, lv, uid, iv, n, ev0):
        ret0 = len(fr.returns)
        changed = []          # keys: ('l', name) or ('h', key)
        apart = set()         # keys that do not stay the same object over the loop
        rep = {}
        self.loopreps = getattr(self, 'loopreps', {})
        self.loopreps[uid] = rep

        def ident(k, en):
            if k[0] == 'l':
                return en.loc.get(k[1]), en.tok.get(k[1])
            v = en.heap.get(k[1])
            return (self.heapdefault(k[1]) if v is None else v), self.htok.get(k[1])
        try:
            for attempt in range(12):
                del self.events[ev0:]
                rets0 = len(fr.returns)
                e = env.copy()
                rep.clear()
                first = {}
                for k in changed:
                    v, tk = ident(k, env)
                    if k not in apart and v is not None and v.op not in ('num', 'const', 'bool') and not (
                            k[0] == 'h' and k[1][1].startswith('@')):
                        rep[k] = first.setdefault((v, tk), k)
                    else:
                        rep[k] = k
                for k in changed:
                    ph = mk('acc', uid, _kname(rep[k]))
                    if k[0] == 'l':
                        e.loc[k[1]] = ph
                    else:
                        e.heap[k[1]] = ph
                cond = TRUE
                if test is not None:
                    cond = self.cond(test, e, fr)
                    cnt = self.counter(cond, e, env, changed, uid) if changed else None
                fr.breaks.append([])
                fr.continues.append([])
                self.pc.append(mk('inloop', uid, dom if dom is not None else cond))
                if bind is not None:
                    bind(e, iv)
                base_pc = len(self.pc)
                end = self.block(st.body, e, fr)
                del self.pc[n:]
                conts, brks = fr.continues.pop(), fr.breaks.pop()
                for pc, ce in reversed(conts):
                    c = t.and_(*pc[base_pc:])
                    end = self.join(c, ce, end) if end is not None else ce
                brk = FALSE
                if end is None and brks:
                    end = brks[-1][1]
                for pc, be in reversed(brks):
                    c = t.and_(*pc[base_pc:])
                    brk = t.or_(brk, c)
                    end = self.join(c, be, end)
                if end is None:
                    end = e
                new = []
                for k in end.loc:
                    if ('l', k) not in changed and env.loc.get(k) is not end.loc[k]:
                        new.append(('l', k))
                for k in end.heap:
                    if ('h', k) not in changed and env.heap.get(k) is not end.heap[k]:
                        new.append(('h', k))
                split = [k for k in changed if rep[k] != k and ident(k, end)[0] is not ident(rep[k], end)[0]]
                if not new and not split:
                    break
                apart.update(split)
                apart.update(rep[k] for k in split)
                changed.extend(new)
                if attempt < 11:
                    del fr.returns[rets0:]
        finally:
            self.loopdepth -= 1
        # while loop with a unit counter is a for loop
        if test is not None:
            simple = self.as_for(cond, changed, env, end, uid, iv, brk)
            if simple is not None:
                dom, subs, ck, final = simple
                subs[mk('inloop', uid, cond)] = mk('inloop', uid, dom)
                for k in changed:
                    if k[0] == 'l':
                        end.loc[k[1]] = t.subst(end.loc[k[1]], subs)
                    elif k[1] in end.heap:
                        end.heap[k[1]] = t.subst(end.heap[k[1]], subs)
                brk = t.subst(brk, subs)
                for ev in self.events[ev0:]:
                    ev.args = tuple(t.subst(a, subs) for a in ev.args)
                    ev.pc = tuple(t.subst(a, subs) for a in ev.pc)
                fr.returns[ret0:] = [(tuple(t.subst(c, subs) for c in r[0]), t.subst(r[1], subs), r[2], r[3]) for r in fr.returns[ret0:]]
                self.finish(env, end, changed, uid, lv, dom, TRUE, brk, st, skip={ck: final}, fr=fr, ret0=ret0)
                self.canon_events(ev0, uid, lv, dom)
                if brk is FALSE and st.orelse:
                    return self.block(st.orelse, env, fr)
                return env
        self.finish(env, end, changed, uid, lv, dom, cond, brk, st, fr=fr, ret0=ret0)
        self.canon_events(ev0, uid, lv, dom)
        if st.orelse and brk is FALSE:
            return self.block(st.orelse, env, fr)
        return env

    def canon_events(self, ev0, uid, lv, dom):
        for ev in self.events[ev0:]:
            m = {}
            for a in ev.args + ev.pc:
                for s in t.subterms(a):
                    if s.op == 'inloop' and s.args[0] == uid:
                        m[s] = mk('inloop', lv, s.args[1])
                    elif s.op == 'acc' and s.args[0] == uid:
                        m[s] = mk('accv', lv)
            if m:
                ev.args = tuple(t.subst(a, m) for a in ev.args)
                ev.pc = tuple(t.subst(a, m) for a in ev.pc)

    def counter(self, *a):
        return None

    def as_for(self, cond, changed, env, end, uid, iv, brk):
        for k in changed:
            if k[0] != 'l' or k[1] not in env.loc:
                continue
            ph = mk('acc', uid, _kname(self.loopreps[uid].get(k, k)))
            if end.loc[k[1]] is t.add(ph, ONE):
                a = env.loc[k[1]]
                sub = t.subst(cond, {ph: t.add(a, iv)})
                # cond is pos(b - acc): acc < b
                if cond.op == 'pos':
                    b = t.add(cond.args[0], ph)
                    if not any(s.op == 'acc' and s.args[0] == uid for s in t.subterms(b)):
                        dom = t.sub(b, a)
                        return dom, {ph: t.add(a, iv)}, k, b
                if cond.op == 'not' and cond.args[0].op == 'pos':   # acc <= b
                    b = t.sub(ph, cond.args[0].args[0])
                    if not any(s.op == 'acc' and s.args[0] == uid for s in t.subterms(b)):
                        dom = t.add(t.sub(b, a), ONE)
                        return dom, {ph: t.add(a, iv)}, k, t.add(b, ONE)
        return None

    def finish(self, env, end, changed, uid, lv, dom, cond, brk, st, skip=None, fr=None, ret0=0):
        skip = skip or {}
        vals, inits = {}, {}
        env0 = env.copy()
        rep = self.loopreps.get(uid, {})
        for k in changed:
            ph = mk('acc', uid, _kname(rep.get(k, k)))
            if rep.get(k, k) != k:
                continue
            if k[0] == 'l':
                vals[ph] = end.loc.get(k[1], ph)
                inits[ph] = env.loc.get(k[1], mk('unbound'))
            else:
                vals[ph] = end.heap.get(k[1], ph)
                i = env.heap.get(k[1])
                inits[ph] = i if i is not None else self.heapdefault(k[1])
        D = dom if dom is not None else mk('while', cond)
        res = {}
        if fr is not None and len(fr.returns) > ret0:
            self.loopreturns(fr, ret0, vals, inits, D, lv, uid, brk, env0)
        for k in changed:
            ph = mk('acc', uid, _kname(rep.get(k, k)))
            if k in skip:
                res[k] = skip[k]
                continue
            res[k] = self.summarise(ph, vals, inits, D, lv, uid, brk)
        for k, v in res.items():
            if k[0] == 'l':
                a, b = env.tok.get(k[1]), end.tok.get(k[1])
                if k[1] not in env.loc:
                    a = b
                env.tok[k[1]] = a if a == b else (self.newtok() if a is not None and b is not None else None)
                env.loc[k[1]] = v
            else:
                env.heap[k[1]] = v

    def loopreturns(self, fr, ret0, vals, inits, D, lv, uid, brk, env0):
        """`return v` inside a loop, v not varying over it: returned when the condition holds in some round."""
        out = []
        for pc, v, h, lo in fr.returns[ret0:]:
            at = [i for i, c in enumerate(pc) if c.op == 'inloop' and c.args[0] == uid]
            varies = any((s.op == 'acc' and s.args[0] == uid) or (s.op == 'iv' and s.args[0] == lv) for s in t.subterms(v))
            if not at or varies:
                out.append((pc, v, h, lo))
                continue
            c = t.and_(*pc[at[0] + 1:])
            ph = mk('acc', uid, '@ret%d' % len(out))
            vals[ph] = t.or_(ph, c)
            inits[ph] = FALSE
            e = self.summarise(ph, vals, inits, D, lv, uid, brk)
            out.append((pc[:at[0]] + (e,), v, env0.heap, env0.loc))
        fr.returns[ret0:] = out

    def foldcanon(self, ph, body, init):
        """Boolean folds: and/or accumulation written with gates."""
        if body.op == 'ite' and init.op == 'bool':
            c, a, b = body.args
            if init is TRUE:
                if b is ph and a.op in ('and', 'bool'):
                    return t.and_(ph, t.or_(t.not_(c), t.and_(*[x for x in a.args if x is not ph])))if a.op == 'and' and ph in a.args else (t.and_(ph, t.not_(c)) if a is FALSE else body)
                if a is ph and b.op in ('and', 'bool'):
                    return self.foldcanon(ph, t.ite(t.not_(c), b, a), init) if t.ite(t.not_(c), b, a).args[1] is not ph else \
                        (t.and_(ph, t.or_(c, t.and_(*[x for x in b.args if x is not ph]))) if b.op == 'and' and ph in b.args else (t.and_(ph, c) if b is FALSE else body))
            else:
                if b is ph and a is TRUE:
                    return t.or_(ph, c)
                if a is ph and b is TRUE:
                    return t.or_(ph, t.not_(c))
                if b is ph and a.op == 'or' and ph in a.args:
                    return t.or_(ph, t.and_(c, t.or_(*[x for x in a.args if x is not ph])))
                if a is ph and b.op == 'or' and ph in b.args:
                    return t.or_(ph, t.and_(t.not_(c), t.or_(*[x for x in b.args if x is not ph])))
        return body

    def foldlist(self, a, kind):
        """all(list built in a loop) as the same fold over the loop."""
        init, unit, join = (TRUE, FALSE, t.and_) if kind == 'all' else (FALSE, TRUE, t.or_)
        if a.op in ('listmap', 'listfilter'):
            lv = a.args[1]
            mu = mk('mu', lv, 0)
            v = a.args[2]
            if a.op == 'listfilter':
                v = t.or_(t.not_(a.args[2]), a.args[3]) if kind == 'all' else t.and_(a.args[2], a.args[3])
            return self.mkfold(a.args[0], lv, FALSE, ((init, join(mu, v)),))
        if a.op == 'loop':
            D, lv, brk, comps = a.args
            mu = mk('mu', lv, 0)
            i0, body = comps[0]
            if _isempty(i0):
                b = body
                c = None
                if b.op == 'ite' and b.args[2] is mu:
                    c, b = b.args[0], b.args[1]
                elif b.op == 'ite' and b.args[1] is mu:
                    c, b = t.not_(b.args[0]), b.args[2]
                if b.op == 'append' and b.args[0] is mu and not t.contains(b.args[1], mu) and not (c is not None and t.contains(c, mu)) \
                        and not any(t.contains(x[1], mu) for x in comps[1:]) and not t.contains(D, mu) and not t.contains(brk, mu):
                    v = b.args[1]
                    if c is not None:
                        v = t.or_(t.not_(c), v) if kind == 'all' else t.and_(c, v)
                    return self.mkfold(D, lv, brk, ((init, join(mu, v)),) + comps[1:])
        return None

    def mkfold(self, D, lv, brk, comps):
        """Existential folds are the negation of universal ones."""
        init, body = comps[0]
        mu = mk('mu', lv, 0)
        if init is FALSE and body.op == 'or' and mu in body.args and not any(t.contains(x[1], mu) for x in comps[1:]):
            rest = t.or_(*[x for x in body.args if x is not mu])
            if not t.contains(rest, mu):
                return t.not_(self.mkfold(D, lv, brk, ((TRUE, t.and_(mu, t.not_(rest))),) + comps[1:]))
        if init is TRUE and body.op == 'and' and mu in body.args and brk is not FALSE:
            rest = t.and_(*[x for x in body.args if x is not mu])
            if brk is t.not_(rest) or (brk.op == 'and' and set(t.not_(rest).args if t.not_(rest).op == 'and' else (t.not_(rest),)) <= set(brk.args) and set(brk.args) - set(t.not_(rest).args if t.not_(rest).op == 'and' else (t.not_(rest),)) <= {mu}):
                # once false, a universal fold stays false: the other values then no longer matter
                nb = t.not_(rest)
                comps = (comps[0],) + tuple((i0, t.subst(b0, {nb: FALSE, rest: TRUE, brk: FALSE})) for i0, b0 in comps[1:])
                brk = FALSE
        return self.renumber(mk('loop', D, lv, brk, comps), lv)

    def renumber(self, lp, lv):
        """Components in order of discovery, unused ones dropped."""
        D, lv, brk, comps = lp.args
        order = [mk('mu', lv, 0)]
        def visit(term):
            for x in _ordered_sub(term):
                if x.op == 'mu' and x.args[0] == lv and x not in order:
                    order.append(x)
        visit(D)
        visit(brk)
        i = 0
        while i < len(order):
            visit(comps[order[i].args[1]][1])
            i += 1
        ren = {x: mk('mu', lv, j) for j, x in enumerate(order)}
        return mk('loop', t.subst(D, ren), lv, t.subst(brk, ren),
                  tuple((comps[x.args[1]][0], t.subst(comps[x.args[1]][1], ren)) for x in order))

    def summarise(self, ph, vals, inits, D, lv, uid, brk):
        body, init = vals[ph], inits[ph]
        if init.op == 'bool':
            body = self.foldcanon(ph, body, init)
            vals = dict(vals)
            vals[ph] = body
        if body is ph:
            return init
        iv = mk('iv', lv)
        mine = lambda x: x.op == 'acc' and x.args[0] == uid
        deps = [x for x in t.subterms(body) if mine(x)]
        dd = [x for x in t.subterms(D) if mine(x)] + [x for x in t.subterms(brk) if mine(x)]
        simple = brk is FALSE and not dd
        if simple and not deps:
            if init.op == 'unbound' or True:
                return mk('last', D, lv, body, init) if init.op != 'unbound' else mk('last', D, lv, body)
        # substitute counters incremented by one unconditionally
        if simple:
            subs = {}
            for d in deps:
                if d is not ph and vals[d] is t.add(d, ONE):
                    subs[d] = t.add(inits[d], iv)
            for d in deps:
                if d in subs:
                    continue
                c, v = TRUE, vals[d]
                if v.op == 'ite' and v.args[2] is d:
                    c, v = v.args[0], v.args[1]
                elif v.op == 'ite' and v.args[1] is d:
                    c, v = t.not_(v.args[0]), v.args[2]
                # items kept so far: the number of earlier iterations that passed the condition
                if any(mine(x) or x.op in ('loop', 'listmap', 'listfilter', 'sumloop', 'last', 'flatmap', 'closure', 'bv', 'mu', 'rank')
                       or (x.op == 'iv' and x is not iv) for x in t.subterms(c)) or not isinstance(lv, int):
                    continue
                rank = iv if c is TRUE else mk('rank', iv, t.subst(c, {iv: mk('iv', lv + 1000)}))
                if v is t.add(d, ONE) and c is not TRUE:
                    subs[d] = t.add(inits[d], rank)
                elif v.op == 'append' and v.args[0] is d and t.is_seq(inits[d]):
                    subs[mk('len', d)] = t.add(t.length(inits[d]), rank)
            subs.pop(ph, None)
            if subs:
                body = t.subst(body, subs)
                deps = [x for x in t.subterms(body) if mine(x)]
            if deps == [ph]:
                if body.op == 'append' and body.args[0] is ph and not t.contains(body.args[1], ph):
                    m = mk('listmap', D, lv, body.args[1])
                    return m if _isempty(init) else t.add(init, m)
                if body.op == 'append' and body.args[1] is ph and not t.contains(body.args[0], ph) and _isempty(init) \
                        and not t.is_seq(body.args[0]):
                    return mk('backwards', mk('listmap', D, lv, body.args[0]))
                if body.op == 'ite':
                    c, a, b = body.args
                    if b is ph and a.op == 'append' and a.args[0] is ph and not t.contains(c, ph) and not t.contains(a.args[1], ph):
                        m = mk('listfilter', D, lv, c, a.args[1])
                        return m if _isempty(init) else t.add(init, m)
                    if a is ph and b.op == 'append' and b.args[0] is ph and not t.contains(c, ph) and not t.contains(b.args[1], ph):
                        m = mk('listfilter', D, lv, t.not_(c), b.args[1])
                        return m if _isempty(init) else t.add(init, m)
                if body.op == 'store' and body.args[0] is ph and body.args[1] is iv and not t.contains(body.args[2], ph):
                    ln = t.length(init)
                    if _isfill(init) and (ln is D or self.filllen(init) is D):
                        return mk('listmap', D, lv, body.args[2])
                diff = t.sub(body, ph)
                if not t.contains(diff, ph) and not t.is_seq(init):
                    return t.add(init, mk('sumloop', D, lv, diff))
        # general system, placeholders renamed in order of discovery
        order, todo = [ph], [ph]
        allv = {ph: body}
        extra = [D, brk]
        def visit(term):
            for x in _ordered_sub(term):
                if mine(x) and x not in order:
                    order.append(x)
        i = 0
        visit(D)
        visit(brk)
        while i < len(order):
            b = body if order[i] is ph else vals.get(order[i], order[i])
            allv[order[i]] = b
            visit(b)
            i += 1
        ren = {x: mk('mu', lv, j) for j, x in enumerate(order)}
        comps = tuple((inits.get(x, mk('unbound')), t.subst(allv[x], ren)) for x in order)
        if comps[0][0].op == 'bool':
            return self.mkfold(t.subst(D, ren), lv, t.subst(brk, ren), comps)
        return mk('loop', t.subst(D, ren), lv, t.subst(brk, ren), comps)

    def filllen(self, init):
        if init.op == 'call' and init.args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'):
            kw = dict(init.args[2])
            return kw.get('shape')
        if init.op == 'seqmul':
            for a in init.args:
                if a.op not in ('list',):
                    return a
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return mk('opaque', type(e).__name__, ast.dump(e))
        return m(e, env, fr)

    def cond(self, e, env, fr):
        return self.truth(self.ev(e, env, fr))

    def truth(self, v):
        if v.op == 'num':
            return t.const(bool(v.args[0]))
        if v.op == 'const':
            return t.const(bool(v.args[0])) if not isinstance(v.args[0], str) or v.args[0] not in ('nan', 'inf') else TRUE
        if v.op in ('list', 'tuple'):
            return t.const(bool(v.args))
        return v

    def e_Constant(self, e, env, fr):
        return t.const(e.value)

    def e_Name(self, e, env, fr):
        return self.name(e.id, env, fr)

    def name(self, n, env, fr):
        if n in env.loc:
            return env.loc[n]
        f = fr
        while f is not None:
            if getattr(f, 'cenv', None) is not None and n in f.cenv.loc:
                return f.cenv.loc[n]
            f = f.parent
        return self.globalname(fr.func.module.name, n)

    def globalname(self, mod, n):
        r = self.p.resolve(mod, n)
        if r is None:
            if n in BUILTINS:
                return mk('fn', n)
            return mk('undef', n)
        if r[0] == 'func':
            return mk('fn', r[1].qual)
        if r[0] == 'class':
            return mk('cls', r[1].qual)
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'ext':
            return self.ext(r[1])
        if r[0] == 'assign':
            m, vals = r[1], r[2]
            key = (m.name, n)
            if key in self.modcache:
                return self.modcache[key] if self.modcache[key] is not None else mk('glob', m.name + '.' + n)
            self.modcache[key] = None
            if len(vals) == 1 and vals[0] is not None:
                dummy = Func(m, ast.parse('def _m(): pass').body[0])
                v = self.ev(vals[0], Env(), Frame(dummy, None))
            else:
                v = mk('glob', m.name + '.' + n)
            self.modcache[key] = v
            return v

    def ext(self, d):
        d = 'numpy' + d[2:] if d == 'np' or d.startswith('np.') else d
        if d in ('numpy.pi', 'math.pi', 'numpy.core.pi'):
            return t.PI
        if d in ('numpy.inf', 'numpy.Inf', 'math.inf', 'numpy.infty', 'numpy.PINF'):
            return t.INF
        if d in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
            return t.NAN
        if d in ('numpy.newaxis',):
            return NONE
        if d.startswith('math.'):
            d = 'numpy.' + d[5:]
        if d.startswith('numpy.') and d[6:] in NP_ALIAS:
            d = 'numpy.' + NP_ALIAS[d[6:]]
        return mk('ext', d)

    CONSTS = {'astropy.constants.c.cgs.value': Fraction(29979245800),
              'astropy.constants.c.si.value': Fraction(299792458),
              'astropy.constants.c.value': Fraction(299792458),
              'scipy.constants.c': Fraction(299792458),
              'scipy.constants.speed_of_light': Fraction(299792458)}

    def e_Attribute(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        return self.getattr(b, e.attr, env, fr)

    def getattr(self, b, name, env, fr):
        if b.op == 'mod':
            r = self.p.resolve(b.args[0], name)
            if r:
                return self.globalname(b.args[0], name)
            return mk('undef', b.args[0] + '.' + name)
        if b.op == 'ext':
            d = b.args[0] + '.' + name
            if d in self.CONSTS:
                return t.num(self.CONSTS[d])
            return self.ext(d)
        if b.op == 'ite':
            x, y = self.getattr(b.args[1], name, env, fr), self.getattr(b.args[2], name, env, fr)
            return t.ite(b.args[0], x, y)
        v = env.heap.get((b, name))
        if v is not None:
            return v
        if name == 'T':
            return self.transpose(b)
        cls = self.classof(b)
        if cls is not None:
            f = self.p.method(cls, name)
            if f is not None:
                if 'property' in f.cls.decor.get(name, []):
                    return self.call_func(f, [b], {}, None, None, env, fr, None, selfcls=cls)
                return mk('bound', b, f.qual)
            for c in self.p.mro(cls):
                if name in c.attrs and b.op == 'new':
                    return self.ev(c.attrs[name], Env(), Frame(Func(c.module, ast.parse('def _m(): pass').body[0]), None))
        ov = env.heap.get((b, '@override'))
        r = t.mkattr(b, name)
        if ov is not None and ov.op == 'keys':
            return mk('dynattr', ov, r)       # possibly one of the attributes stored by computed names
        st = env.heap.get((b, '@state'))
        if st is not None and st.op != 'nostate':
            return t.mk('attr', mk('after', b, st), name)
        return r

    def transpose(self, b):
        if b.op == 'T':
            return b.args[0]
        if b.op == 'cols':
            return mk('rows', *b.args)
        if b.op == 'rows':
            return mk('cols', *b.args)
        return mk('T', b)

    def classof(self, v):
        c = self.typeof.get(v)
        if c is not None:
            return c
        if v.op == 'new':
            try:
                return self.p.cls(v.args[0])
            except AnalysisBroken:
                return None
        h = None
        if v.op == 'attr':
            h = v.args[1]
        elif v.op == 'sym':
            h = v.args[0]
        if h in self.hints and self.hints[h]:
            try:
                return self.p.cls(self.hints[h])
            except AnalysisBroken:
                return None
        if v.op == 'override':
            return self.classof(v.args[2])
        return None

    def e_Subscript(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        i = self.ev(e.slice, env, fr)
        owner = _dictowner(b)
        if owner is not None and i.op == 'const' and isinstance(i.args[0], str):
            return self.getattr(owner, i.args[0], env, fr)
        return t.item(b, i)

    def e_Slice(self, e, env, fr):
        def g(x):
            return self.ev(x, env, fr) if x is not None else NONE
        lo, hi, stp = g(e.lower), g(e.upper), g(e.step)
        if lo is ZERO:
            lo = NONE
        if stp is ONE:
            stp = NONE
        return mk('slice', lo, hi, stp)

    def e_Index(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def e_Tuple(self, e, env, fr):
        return mk('tuple', *[self.ev(x, env, fr) for x in e.elts])

    def e_List(self, e, env, fr):
        return mk('list', *[self.ev(x, env, fr) for x in e.elts])

    def e_Set(self, e, env, fr):
        return mk('set', *sorted([self.ev(x, env, fr) for x in e.elts], key=lambda x: x.dg))

    def e_Dict(self, e, env, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, fr)
            if k is None:
                return mk('dictmerge', *[self.ev(x, env, fr) for x in e.values])
            items.append((self.ev(k, env, fr), vv))
        return mk('dict', tuple(sorted(items, key=lambda kv: kv[0].dg)))

    def e_UnaryOp(self, e, env, fr):
        v = self.ev(e.operand, env, fr)
        if isinstance(e.op, ast.USub):
            return t.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return t.not_(v)      # not / ~

    def e_BinOp(self, e, env, fr):
        return self.binop(e.op, self.ev(e.left, env, fr), self.ev(e.right, env, fr))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            return t.add(a, b)
        if isinstance(op, ast.Sub):
            return t.sub(a, b)
        if isinstance(op, ast.Mult):
            return t.mul(a, b)
        if isinstance(op, ast.Div):
            return t.div(a, b)
        if isinstance(op, ast.Pow):
            return t.power(a, b)
        if isinstance(op, ast.Mod):
            if a.op == 'const' and isinstance(a.args[0], str):
                return strfold(a, b)
            return mk('mod', a, b)
        if isinstance(op, ast.FloorDiv):
            return mk('floordiv', a, b)
        if isinstance(op, ast.BitAnd):
            return t.and_(a, b)
        if isinstance(op, ast.BitOr):
            return t.or_(a, b)
        if isinstance(op, ast.MatMult):
            return mk('call', 'numpy.dot', (), (('a', a), ('b', b)))
        return mk('binop', type(op).__name__, a, b)

    def e_BoolOp(self, e, env, fr):
        vs = []
        n = len(self.pc)
        for x in e.values:
            v = self.ev(x, env, fr)
            v = self.truth(v) if v.op in ('num', 'list', 'tuple') else v
            vs.append(v)
            self.pc.append(v if isinstance(e.op, ast.And) else t.not_(v))
        del self.pc[n:]
        return t.and_(*vs) if isinstance(e.op, ast.And) else t.or_(*vs)

    def e_Compare(self, e, env, fr):
        l = self.ev(e.left, env, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, env, fr)
            out.append(self.compare(op, l, rv, env))
            l = rv
        return t.and_(*out)

    def compare(self, op, a, b, env):
        s = self.nan_strict
        if isinstance(op, ast.Lt):
            return t.lt(a, b)
        if isinstance(op, ast.Gt):
            return t.lt(b, a)
        if isinstance(op, ast.LtE):
            return t.le(a, b, s)
        if isinstance(op, ast.GtE):
            return t.le(b, a, s)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = t.eq(a, b) if not (a.op == 'const' and b.op == 'const') else t.const(a is b)
            return r if isinstance(op, ast.Eq) else t.not_(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else t.not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.in_(a, b)
            return r if isinstance(op, ast.In) else t.not_(r)
        return mk('cmp', type(op).__name__, a, b)

    NOTNONE = ('num', 'poly', 'list', 'tuple', 'dict', 'new', 'listmap', 'listfilter', 'bool', 'fn', 'cls',
               'closure', 'store', 'sumloop', 'concat', 'strfmt')

    def is_(self, a, b):
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            if x is NONE:
                return TRUE
            if x.op in self.NOTNONE or (x.op == 'const'):
                return FALSE
            if x.op == 'call' and x.args[0].startswith('numpy.'):
                return FALSE
            if x.op == 'ite':
                return t.ite(x.args[0], self.is_(x.args[1], NONE), self.is_(x.args[2], NONE))
            if x.op == 'and' or x.op == 'or':
                return FALSE
            return mk('isnone', x)
        if a.op in ('bool', 'const') or b.op in ('bool', 'const'):
            return t.eq(a, b)
        return t.eq(a, b)

    def in_(self, a, b):
        if b.op == 'keys':
            b = b.args[0]
        if b.op in ('list', 'tuple', 'set'):
            return t.or_(*[t.eq(a, x) for x in b.args])
        if b.op == 'dict' and a.op == 'const':
            return t.const(any(k is a for k, v in b.args[0]))
        return mk('in', a, b)

    def e_IfExp(self, e, env, fr):
        c = self.cond(e.test, env, fr)
        if c is TRUE or c is FALSE:
            return self.ev(e.body if c is TRUE else e.orelse, env, fr)
        e1, e2 = env.copy(), env.copy()
        a = self.under(c, e.body, e1, fr)
        b = self.under(t.not_(c), e.orelse, e2, fr)
        if any(x.heap.get(k) is not v for x, y in ((e1, e2), (e2, e1)) for k, v in y.heap.items()) or \
                any(x.loc.get(k) is not v for x, y in ((e1, e2), (e2, e1)) for k, v in y.loc.items()):
            j = self.join(c, e1, e2)
            env.loc, env.heap, env.tok = j.loc, j.heap, j.tok
        return t.ite(c, a, b)

    def under(self, c, node, env, fr):
        """Value of an expression that is only evaluated when c holds."""
        n = len(self.pc)
        self.pc.append(c)
        v = self.ev(node, env, fr)
        del self.pc[n:]
        return v

    def e_Starred(self, e, env, fr):
        return mk('star', self.ev(e.value, env, fr))

    def e_JoinedStr(self, e, env, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(t.const(v.value))
            else:
                parts.append(mk('strfmt', t.const('{}'), self.ev(v.value, env, fr)))
        return mk('fstr', *parts)

    def e_Lambda(self, e, env, fr):
        return self.closure(e, env, fr)

    def e_NamedExpr(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        env.loc[e.target.id] = v
        return v

    def closure(self, node, env, fr):
        c = Closure(node, env.copy(), fr.func, fr)
        # canonical body with bound variables
        names = [a.arg for a in node.args.args]
        e2 = env.copy()
        lvl = getattr(self, 'lamdepth', 0)
        self.lamdepth = lvl + 1
        for i, n in enumerate(names):
            e2.loc[n] = mk('bv', lvl, i)
        f2 = Frame(fr.func, fr.selfcls, fr)
        f2.cenv = env
        f2.pcbase = len(self.pc)
        ev0 = len(self.events)
        ret, heap = self.exec_func(f2, node, e2)
        effects = ret is NONE or any(x.kind not in ('call', 'enter') for x in self.events[ev0:])
        del self.events[ev0:]
        self.lamdepth = lvl
        # one that does something is not known by the value it returns
        ct = mk('closure', len(names), ret, ast.dump(node)) if effects else mk('closure', len(names), ret)
        self.closures[ct] = c
        return ct

    def e_ListComp(self, e, env, fr):
        return self.comp(e.generators, lambda en: self.ev(e.elt, en, fr), env.copy(), fr)
    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, env, fr):
        v = self.comp(e.generators, lambda en: mk('tuple', self.ev(e.key, en, fr), self.ev(e.value, en, fr)), env.copy(), fr)
        return mk('dictof', v)

    def comp(self, gens, elt, env, fr):
        g, rest = gens[0], gens[1:]
        itv = self.ev(g.iter, env, fr)
        if itv.op == 'range' and all(x.op == 'num' for x in itv.args) and not g.ifs and not rest:
            r = range(*[int(x.args[0]) for x in itv.args])
            if len(r) <= 8:
                itv = mk('list', *[t.num(i) for i in r])
        if itv.op in ('list', 'tuple') and not g.ifs and not rest and len(itv.args) <= 96:
            out = []
            for x in itv.args:
                self.assign(g.target, x, env, fr, g.target)
                out.append(elt(env))
            return mk('list', *out)
        dom, elem = self.domain_of(itv)
        lv = self.loopdepth
        self.loopdepth += 1
        self.assign(g.target, elem(mk('iv', lv)), env, fr, g.target)
        conds = [self.cond(c, env, fr) for c in g.ifs]
        if rest:
            v = self.comp(rest, elt, env, fr)
            r = mk('flatmap', dom, lv, t.and_(*conds), v)
        else:
            v = elt(env)
            if conds and t.and_(*conds) is not TRUE:
                r = mk('listfilter', dom, lv, t.and_(*conds), v)
            else:
                r = mk('listmap', dom, lv, v)
                # identity copy
                if v is t.item(itv, mk('iv', lv)):
                    r = itv
        self.loopdepth -= 1
        return r

    def e_Await(self, e, env, fr):
        return self.ev(e.value, env, fr)
    e_Yield = e_Await

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env, fr):
        return self.ev_call(e, env, fr)

    def ev_call(self, e, env, fr, statement=False):
        f = e.func
        outs = [k for k in e.keywords if k.arg == 'out']
        if outs and isinstance(outs[0].value, (ast.Name, ast.Attribute, ast.Subscript)):
            # the result goes to an array that is there already
            tg = outs[0].value
            v = self.ev_call(ast.copy_location(ast.Call(f, e.args, [k for k in e.keywords if k is not outs[0]]), e), env, fr)
            self.inplace(tg, self.ev(_as_load(tg), env, fr), v, 'out', env, fr, e)
            return v
        if isinstance(f, ast.Attribute) and (f.attr == 'fill' or isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy')):
            done = self.filling(f, e, env, fr)
            if done:
                return t.NONE
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            return self.call_super(f, e, env, fr)
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, env, fr)
            pos, kw, star, dstar = self.args(e, env, fr)
            self.notetoks(e, env, fr)
            return self.call_method(recv, f.attr, pos, kw, star, dstar, e, env, fr, statement, f.value)
        fv = self.ev(f, env, fr)
        pos, kw, star, dstar = self.args(e, env, fr)
        self.notetoks(e, env, fr)
        return self.call_value(fv, pos, kw, star, dstar, e, env, fr, statement)

    def filling(self, f, e, env, fr):
        """Calls that put values into an array that is there already, as the assignment they stand for."""
        kw = {k.arg: k.value for k in e.keywords}
        a = list(e.args)
        loc = lambda n: ast.copy_location(n, e)
        whole = loc(ast.Slice(None, None, None))
        if f.attr == 'fill' and isinstance(f.value, (ast.Name, ast.Attribute)) and len(a) == 1 and not kw:
            tg, idx, v = f.value, whole, a[0]
        elif f.attr in ('putmask', 'place', 'put') and len(a) == 3 and not kw:
            tg, idx, v = a
            if f.attr == 'putmask' and not isinstance(v, ast.Constant):
                v = loc(ast.Subscript(v, idx, ast.Load()))
        elif f.attr == 'copyto' and len(a) == 2 and set(kw) <= {'where'}:
            tg, v = a
            idx = kw.get('where', whole)
            if 'where' in kw and not isinstance(v, ast.Constant):
                v = loc(ast.Subscript(v, idx, ast.Load()))
        else:
            return False
        if not isinstance(tg, (ast.Name, ast.Attribute, ast.Subscript)):
            return False
        st = loc(ast.Assign([loc(ast.Subscript(tg, idx, ast.Store()))], v))
        ast.fix_missing_locations(st)
        self.assign(st.targets[0], self.ev(v, env, fr), env, fr, st)
        return True

    def notetoks(self, e, env, fr):
        """Object tokens of the arguments, by position and keyword."""
        if any(isinstance(a, ast.Starred) for a in e.args):
            self.pendtok = (e, {})
            return
        d = {i: self.token(a, env, fr) for i, a in enumerate(e.args)}
        d.update({k.arg: self.token(k.value, env, fr) for k in e.keywords if k.arg})
        if isinstance(e.func, ast.Attribute):
            d['@recv'] = self.token(e.func.value, env, fr)
        self.pendtok = (e, d)

    def args(self, e, env, fr):
        pos, star, kw, dstar = [], None, {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, fr)
                if v.op in ('list', 'tuple') and star is None:
                    pos.extend(v.args)
                else:
                    star = v
            else:
                pos.append(self.ev(a, env, fr))
        for k in e.keywords:
            v = self.ev(k.value, env, fr)
            if k.arg is None:
                if v.op == 'dict' and all(kk.op == 'const' for kk, _ in v.args[0]):
                    for kk, vv in v.args[0]:
                        kw[kk.args[0]] = vv
                else:
                    dstar = v
            else:
                kw[k.arg] = v
        return pos, kw, star, dstar

    def call_super(self, f, e, env, fr):
        pos, kw, star, dstar = self.args(e, env, fr)
        cls = fr.func.cls
        selfn = fr.func.node.args.args[0].arg
        me = env.loc.get(selfn)
        mro = self.p.mro(fr.selfcls) if fr.selfcls else []
        nxt = mro[mro.index(cls) + 1:] if cls in mro else self.p.mro(cls)[1:]
        for c in nxt:
            if f.attr in c.methods:
                return self.call_func(c.methods[f.attr], [me] + pos, kw, star, dstar, env, fr, e, selfcls=fr.selfcls)
        return NONE

    def call_value(self, fv, pos, kw, star, dstar, e, env, fr, statement=False):
        if fv.op == 'ite' and _callable(fv):
            # one function or the other
            c, out, envs = fv.args[0], [], []
            for cc, g in ((c, fv.args[1]), (t.not_(c), fv.args[2])):
                n, ei = len(self.pc), env.copy()
                self.pc.append(cc)
                out.append(self.call_value(g, pos, kw, star, dstar, e, ei, fr, statement))
                del self.pc[n:]
                envs.append(ei)
            j = self.join(c, *envs)
            env.loc, env.heap, env.tok = j.loc, j.heap, j.tok
            return t.ite(c, *out)
        if fv.op == 'fn':
            name = fv.args[0]
            if name in self.p.funcs:
                return self.call_func(self.p.funcs[name], pos, kw, star, dstar, env, fr, e)
            return self.builtin(name, pos, kw, star, dstar, e, env, fr, statement)
        if fv.op == 'bound':
            cls = self.classof(fv.args[0])
            m = self.p.method(cls, fv.args[1].rsplit('.', 1)[1]) if cls else None
            if m:
                return self.call_func(m, [fv.args[0]] + pos, kw, star, dstar, env, fr, e, selfcls=cls)
        if fv.op == 'cls':
            return self.construct(fv.args[0], pos, kw, star, dstar, e, env, fr)
        if fv.op == 'ext':
            return self.external(fv.args[0], pos, kw, star, dstar, e, env, fr, statement)
        if fv.op == 'closure' and fv in self.closures and len(self.stack) < self.MAXDEPTH:
            c = self.closures[fv]
            e2 = c.env.copy()
            e2.heap = env.heap
            # late-binding of enclosing locals: use current values of the defining frame if same
            shared = c.frame is fr
            if shared:
                e2.loc.update(env.loc)
                e2.tok.update(env.tok)
            names = [a.arg for a in c.node.args.args]
            defs = c.node.args.defaults
            for i, n in enumerate(names):
                if i < len(pos):
                    e2.loc[n] = pos[i]
                elif n in kw:
                    e2.loc[n] = kw[n]
                elif i >= len(names) - len(defs):
                    e2.loc[n] = self.ev(defs[i - (len(names) - len(defs))], c.env, c.frame)
            f2 = Frame(c.func, c.frame.selfcls, c.frame)
            f2.cenv = c.env
            f2.pcbase = len(self.pc)
            self.stack.append(fv)
            ret, heap = self.exec_func(f2, c.node, e2)
            self.stack.pop()
            self.notereturn(e, f2)
            env.heap = dict(heap)
            if shared and not isinstance(c.node, ast.Lambda):
                # objects of the enclosing function changed in place (or rebound through nonlocal)
                own = set(names) | {x.id for x in ast.walk(c.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                own -= {y for x in ast.walk(c.node) if isinstance(x, ast.Nonlocal) for y in x.names}
                for k in list(env.loc):
                    if k not in own and k in e2.loc:
                        env.loc[k] = e2.loc[k]
            return ret
        r = mk('apply', fv, tuple(pos), tuple(sorted(kw.items())), star or NONE, dstar or NONE)
        if statement:
            self.event('call', 'apply', (r,), e, fr)
        return r

    def bind(self, func, pos, kw, star, dstar, env, fr, skip_self=False):
        """-> dict name->term for every parameter, or None."""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        for i, v in enumerate(pos):
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        kwextra = {}
        knames = set(names) | {k.arg for k in a.kwonlyargs}
        for k, v in kw.items():
            if k in knames:
                out[k] = v
            else:
                kwextra[k] = v
        defs = a.defaults
        off = len(names) - len(defs)
        cenv, cfr = Env(), Frame(func, None)
        for i, n in enumerate(names):
            if n not in out:
                if dstar is not None and i >= off:
                    dv = self.ev(defs[i - off], cenv, cfr)
                    out[n] = mk('override', dstar, n, dv)
                elif star is not None and i >= len(pos):
                    out[n] = t.item(star, t.num(i - len(pos)))
                elif i >= off:
                    out[n] = self.ev(defs[i - off], cenv, cfr)
                elif dstar is not None:
                    out[n] = t.item(dstar, t.const(n))
                else:
                    out[n] = mk('missing', n)
        for i, k in enumerate(a.kwonlyargs):
            if k.arg not in out:
                d = a.kw_defaults[i]
                out[k.arg] = self.ev(d, cenv, cfr) if d is not None else mk('missing', k.arg)
        return out, extra, kwextra

    def call_func(self, func, pos, kw, star, dstar, env, fr, e, selfcls=None):
        static = func.cls and 'staticmethod' in func.cls.decor.get(func.node.name, [])
        if static and pos:
            pos = pos[1:]
        bound, extra, kwextra = self.bind(func, pos, kw, star, dstar, env, fr)
        a = func.node.args
        self.paramtoks = {}
        if isinstance(e, ast.Call) and self.pendtok[0] is e and self.pendtok[1]:
            d, names = self.pendtok[1], [x.arg for x in a.posonlyargs + a.args]
            off = len(pos) - len(e.args)
            if off in (0, 1):
                for k, tk in d.items():
                    n = k if isinstance(k, str) else names[k + off] if k + off < len(names) else None
                    if k == '@recv':
                        n = names[0] if off == 1 and names else None
                    if n is not None and tk is not None:
                        self.paramtoks[n] = tk
        if func.node.name == 'setAttr' or self.is_setattr(func):
            me = pos[0]
            if dstar is not None:
                self.apply_override(me, dstar, env)
            for k, v in kwextra.items():
                env.heap[(me, k)] = v
                self.event('setattr', k, (me, v), e, fr)
            if func.node.name == 'setAttr' and len(func.node.body) <= 2 and self.only_dict_update(func):
                return NONE
            # setAttr with further effects (e.g. recomputing): fall through with kwargs applied
            self.quietset += 1
            try:
                return self.inline(func, bound, extra, kwextra, dstar, env, fr, e, selfcls, skip_update=True)
            finally:
                self.quietset -= 1
        key = func.qual
        if self.opaque(func) or key in self.stack or len(self.stack) >= self.MAXDEPTH or _isgen(func.node):
            al = tuple(bound.get(x.arg, NONE) for x in a.posonlyargs + a.args)
            if func.cls and not static:
                al = al[:1] + tuple(self.asleft(x, env) for x in al[1:])
            else:
                al = tuple(self.asleft(x, env) for x in al)
            snap = self.snapshot(func, al, env)
            if func.cls and not static:
                # receiver state
                st = env.heap.get((al[0], '@state')) if al else None
                r = mk('mcall', al[0] if st is None else mk('after', al[0], st), func.node.name, al[1:] + tuple(extra),
                       tuple(sorted(kwextra.items())) + snap + ((('**', dstar),) if dstar is not None else ()))
            else:
                r = mk('call', func.qual, al + tuple(extra),
                       tuple(sorted(kwextra.items())) + snap + ((('**', dstar),) if dstar is not None else ()))
            more = tuple(extra)
            if kwextra or dstar is not None:
                more += (mk('keywords', tuple(sorted(kwextra.items())), *([dstar] if dstar is not None else [])),)
            self.event('call', func.qual, al + more, e, fr)
            names = [x.arg for x in a.posonlyargs + a.args]
            for n, path, attr in sorted(self.argwrites(func)):
                if n == names[0] and func.cls and not static and not path:
                    continue
                o = bound.get(n)
                for x in path:
                    o = self.getattr(o, x, env, fr) if o is not None else None
                if o is not None and o.op in ('sym', 'attr', 'new', 'call', 'mcall'):
                    env.heap[(o, attr)] = mk('attr', mk('after', o, r), attr)
            if func.cls and not static and al:
                pure = self.is_pure(func)
                if not pure:
                    st = env.heap.get((al[0], '@state'), mk('nostate'))
                    env.heap[(al[0], '@state')] = mk('st', st, func.node.name, al[1:] + tuple(extra), tuple(sorted(kwextra.items())))
                    for k in list(env.heap):
                        if k[0] is al[0] and not k[1].startswith('@') and self.writes(func, k[1]):
                            env.heap[k] = mk('attr', mk('after', al[0], env.heap[(al[0], '@state')]), k[1])
            return r
        more = tuple(extra)
        if kwextra or dstar is not None:
            more += (mk('keywords', tuple(sorted(kwextra.items())), *([dstar] if dstar is not None else [])),)
        self.event('enter', func.qual, tuple(bound.get(x.arg, NONE) for x in a.posonlyargs + a.args) + more, e, fr)
        return self.inline(func, bound, extra, kwextra, dstar, env, fr, e, selfcls)

    def inline(self, func, bound, extra, kwextra, dstar, env, fr, e, selfcls, skip_update=False):
        a = func.node.args
        e2 = Env(bound, env.heap)
        ptok = self.paramtoks
        self.paramtoks = {}
        for n, v in bound.items():
            if ptok.get(n) is not None:
                e2.tok[n] = ptok[n]
        tok0 = dict(e2.tok)
        for n in list(bound):
            # the caller's object: follows changes in place, not rebinding of the parameter
            e2.loc['@p:' + n] = bound[n]
            e2.tok['@p:' + n] = e2.tok.get(n)
        if a.vararg:
            e2.loc[a.vararg.arg] = mk('list', *extra)
        if a.kwarg:
            if dstar is not None:
                kv = dstar
            else:
                kv = mk('dict', tuple(sorted(((t.const(k), v) for k, v in kwextra.items()), key=lambda x: x[0].dg)))
            e2.loc[a.kwarg.arg] = kv
        if func.cls and (selfcls is None):
            sc = self.classof(bound.get(a.args[0].arg)) if a.args else None
            selfcls = sc or func.cls
        f2 = Frame(func, selfcls)
        f2.pcbase = len(self.pc)
        f2.skip_update = skip_update
        self.stack.append(func.qual)
        ret, heap = self.exec_func(f2, func.node, e2)
        self.stack.pop()
        self.notereturn(e, f2)
        # the caller's own names aliasing mutated arguments
        env.heap = dict(heap)
        for n, old in bound.items():
            new = e2.loc.get('@p:' + n)
            if new is not None and new is not old:
                for k, v in list(env.loc.items()):
                    if v is old and old.op not in ('num', 'const', 'bool') and env.tok.get(k) == tok0.get(n):
                        env.loc[k] = new
        return ret

    def notereturn(self, e, f2):
        rts = getattr(f2, 'rettoks', [])
        if rts:
            def comb(xs):
                if all(isinstance(x, list) for x in xs) and len({len(x) for x in xs}) == 1:
                    return [comb([x[i] for x in xs]) for i in range(len(xs[0]))]
                if any(x is None for x in xs):
                    return None
                return xs[0] if len(xs) == 1 and not isinstance(xs[0], list) else self.newtok()
            self.rettoks[e] = comb(rts)

    def snapshot(self, func, args, env):
        """What the called function finds in its arguments' attributes where these were changed before."""
        reads = self.readset(func)
        roots = set(args)
        live = [(k, v) for k, v in env.heap.items() if not k[1].startswith('@') and v is not t.mkattr(*k)]
        work = True
        while work:
            work = False
            for (o, a), v in live:
                b = o
                while b not in roots and b.op == 'attr':
                    b = b.args[0]
                if b in roots and v not in roots and v.op in ('new', 'attr', 'sym', 'call', 'mcall'):
                    roots.add(v)
                    work = True
        out = []
        for (o, a), v in live:
            if a not in reads:
                continue
            b = o
            while b not in roots and b.op == 'attr':
                b = b.args[0]
            if b in roots:
                out.append(mk('holds', o, a, v))
        return (('@heap', mk('tuple', *sorted(out, key=lambda x: x.dg))),) if out else ()

    def readset(self, func, seen=None):
        """Attribute names a function loads, with the functions it calls."""
        key = ('reads', func.qual)
        if key in self.p.memo:
            return self.p.memo[key]
        top = seen is None
        seen = seen if seen is not None else set()
        if func.qual in seen:
            return set()
        seen.add(func.qual)
        out = set()
        for n in ast.walk(func.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm in ('copy', 'setAttr', None):
                    continue
                for f in self.byname().get(nm, ()):
                    out |= self.readset(f, seen)
        if top:
            self.p.memo[key] = out
        return out

    def argwrites(self, func, depth=0):
        """(parameter, attribute path, attribute) the function sets on its arguments' own attributes."""
        key = ('argwrites', func.qual)
        if key in self.p.memo:
            return self.p.memo[key]
        self.p.memo[key] = set()
        a = func.node.args
        alias = {x.arg: (x.arg,) for x in a.posonlyargs + a.args + a.kwonlyargs}

        def chain(n):
            if isinstance(n, ast.Name):
                return alias.get(n.id)
            if isinstance(n, ast.Attribute):
                c = chain(n.value)
                return c + (n.attr,) if c else None
            return None
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                c = chain(n.value)
                x = n.targets[0].id
                if c and len(c) > 1 and x not in alias:
                    alias[x] = c
        out = set()

        def store(n):
            if isinstance(n, (ast.Tuple, ast.List)):
                for x in n.elts:
                    store(x)
                return
            while isinstance(n, (ast.Subscript, ast.Starred)):
                n = n.value
            if isinstance(n, ast.Attribute):
                c = chain(n)
                if c and len(c) > 1:
                    out.add((c[0], c[1:-1], c[-1]))
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign):
                for x in n.targets:
                    store(x)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                store(n.target)
            elif isinstance(n, ast.Call) and depth < 6:
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                fs = self.byname().get(nm, ())
                if nm in ('copy', 'setAttr') or len(fs) != 1 or fs[0].node.name == '__init__':
                    continue
                f = fs[0]
                w = self.argwrites(f, depth + 1)
                if not w:
                    continue
                ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                given = list(n.args)
                if f.cls and isinstance(n.func, ast.Attribute):
                    given = [n.func.value] + given
                m = dict(zip(ps, given))
                m.update({k.arg: k.value for k in n.keywords if k.arg})
                for pn, path, attr in w:
                    c = chain(m[pn]) if pn in m else None
                    if c:
                        out.add((c[0], c[1:] + path, attr))
        self.p.memo[key] = out
        return out

    def byname(self):
        d = self.p.memo.get('byname')
        if d is None:
            d = self.p.memo['byname'] = {}
            for f in self.p.all_funcs():
                d.setdefault(f.node.name, []).append(f)
                if f.node.name == '__init__' and f.cls:
                    d.setdefault(f.cls.name, []).append(f)
        return d

    def is_setattr(self, func):
        return False

    def only_dict_update(self, func):
        body = [s for s in func.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return len(body) == 1

    def is_pure(self, func):
        """Does the method leave its receiver's attributes alone? (syntactic, transitive on self calls)"""
        return not self.writeset(func)

    def writes(self, func, attr):
        w = self.writeset(func)
        return '*' in w or attr in w

    def writeset(self, func, seen=None):
        key = func.qual
        c = self.p.memo.get(('writes', key))
        if c is not None:
            return c
        seen = seen or set()
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        selfn = func.node.args.args[0].arg if func.cls and func.node.args.args else None
        for n in ast.walk(func.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name) and n.value.id == selfn:
                    out.add(n.attr)
                elif isinstance(n.value, ast.Attribute):
                    out.add('.' + n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute):
                    out.add(b.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if isinstance(n.func.value, ast.Name) and n.func.value.id == selfn and func.cls:
                    m = self.p.method(func.cls, n.func.attr)
                    if m:
                        out |= self.writeset(m, seen)
                elif n.func.attr in ('update', 'setAttr') and selfn in ast.unparse(n.func):
                    out.add('*')
                elif n.func.attr.startswith(('set_', 'update_')):
                    out.add('.' + n.func.attr)
        self.p.memo[('writes', key)] = out
        return out

    def construct(self, qual, pos, kw, star, dstar, e, env, fr):
        cls = self.p.classes[qual]
        init = self.p.method(cls, '__init__')
        if init is None:
            return mk('new', qual, (), ())
        if self.init_new and not (callable(self.init_new) and not self.init_new(cls)) and len(self.stack) < self.MAXDEPTH:
            self.newcount += 1
            me = mk('new', qual, ('#', self.newcount), ())
            self.typeof[me] = cls
            self.event('new', qual, (me,), e, fr)
            self.call_func(init, [me] + pos, kw, star, dstar, env, fr, e, selfcls=cls)
            return me
        bound, extra, kwextra = self.bind(init, [NONE] + pos, kw, star, dstar, env, fr)
        names = [x.arg for x in init.node.args.args][1:]
        binds = tuple(sorted([(n, bound[n]) for n in names] + list(kwextra.items()) +
                             ([('**', dstar)] if dstar is not None else [])))
        r = mk('new', qual, (), binds)
        self.event('new', qual, (r,), e, fr)
        return r

    # ---- builtins and externals
    def builtin(self, name, pos, kw, star, dstar, e, env, fr, statement):
        if name == 'len' and len(pos) == 1:
            return t.length(pos[0])
        if name == 'range':
            if len(pos) == 1:
                return mk('range', ZERO, pos[0], ONE)
            if len(pos) == 2:
                return mk('range', pos[0], pos[1], ONE)
            return mk('range', *pos) if len(pos) == 3 else mk('opaque', 'range')
        if name == 'enumerate':
            return mk('enumerate', pos[0], pos[1] if len(pos) > 1 else kw.get('start', ZERO))
        if name == 'zip':
            if star is not None and not pos:
                return mk('ziptr', star)
            return mk('zip', *pos)
        if name == 'reversed' and len(pos) == 1:
            return mk('reversed', pos[0])
        if name == 'abs':
            return t.absv(pos[0])
        if name in ('list', 'tuple') and len(pos) == 1:
            v = pos[0]
            if v.op in ('range', 'zip', 'enumerate', 'map'):
                d, f = self.domain_of(v) if v.op != 'map' else (None, None)
                if d is not None:
                    lv = self.loopdepth
                    return mk('listmap', d, lv, f(mk('iv', lv)))
            return v
        if name in ('list', 'tuple') and not pos:
            return mk('list')
        if name == 'map' and len(pos) == 2:
            d, f = self.domain_of(pos[1])
            lv = self.loopdepth
            self.loopdepth += 1
            v = self.call_value(pos[0], [f(mk('iv', lv))], {}, None, None, e, env, fr)
            self.loopdepth -= 1
            return mk('listmap', d, lv, v)
        if name == 'dict':
            if not pos and dstar is None:
                return mk('dict', tuple(sorted(((t.const(k), v) for k, v in kw.items()), key=lambda x: x[0].dg)))
            if len(pos) == 1 and not kw:
                return pos[0] if pos[0].op in ('dict', 'sym') else mk('dictof', pos[0])
        if name == 'float' and len(pos) == 1:
            return pos[0] if not (pos[0].op == 'const') else mk('call', 'float', tuple(pos), ())
        if name == 'bool' and len(pos) == 1:
            return pos[0]
        if name in ('max', 'min') and not kw:
            if len(pos) == 1:
                return self.npcall(name, {'a': pos[0]}, [])
            return mk('call', 'builtins.' + name, tuple(sorted(pos, key=lambda x: x.dg)), ())
        if name == 'sum' and len(pos) == 1:
            return self.npcall('sum', {'a': pos[0]}, [])
        if name in ('any', 'all') and len(pos) == 1:
            return self.npcall(name, {'a': pos[0]}, [])
        if name == 'round':
            return mk('call', 'numpy.round', tuple(pos), ())
        if name == 'eval' and pos and pos[0].op == 'const' and isinstance(pos[0].args[0], str):
            try:
                return self.ev(ast.parse(pos[0].args[0].strip(), mode='eval').body, env, fr)
            except SyntaxError:
                pass
        if name == 'pow' and len(pos) == 2:
            return t.power(*pos)
        if name == 'getattr' and len(pos) >= 2 and pos[1].op == 'const':
            if len(pos) == 2:
                return self.getattr(pos[0], pos[1].args[0], env, fr)
        if name == 'setattr' and len(pos) == 3:
            if pos[1].op == 'const':
                self.setattr(pos[0], pos[1].args[0], pos[2], env, fr, e)
            else:
                self.event('setdict', 'setattr', (pos[0], pos[1], pos[2]), e, fr)
                self.override(pos[0], pos[1], pos[2], env)
            return NONE
        if name == 'hasattr' and len(pos) == 2:
            return mk('in', pos[1], mk('attr', pos[0], '__dict__'))
        if name == 'vars' and len(pos) == 1:
            return mk('attr', pos[0], '__dict__')
        if name == 'slice':
            a = [NONE if x is ZERO and i == 0 else x for i, x in enumerate(pos)]
            if len(a) == 1:
                return mk('slice', NONE, a[0], NONE)
            return mk('slice', *(a + [NONE] * (3 - len(a))))
        if name == 'isinstance':
            return mk('isinstance', *pos)
        if name == 'print':
            return NONE
        if name == 'delattr' and len(pos) == 2:
            self.event('delattr', pos[1].args[0] if pos[1].op == 'const' else '?', (pos[0], pos[1]), e, fr)
            if pos[1].op == 'const':
                env.heap[(pos[0], pos[1].args[0])] = mk('deleted')
            return NONE
        if name == 'str' and len(pos) == 1:
            return mk('strfmt', t.const('{}'), pos[0])
        r = mk('call', 'builtins.' + name, tuple(pos), tuple(sorted(kw.items())))
        self.event('call', name, tuple(pos), e, fr)
        return r

    def npcall(self, name, bound, extra):
        kw = tuple(sorted((k, v) for k, v in bound.items() if v is not None and not (k == 'axis' and v is NONE)))
        if name == 'sum' and len(kw) == 1:
            a = bound['a']
            if a.op == 'listmap':
                return mk('sumloop', a.args[0], a.args[1], a.args[2])
            if a.op in ('not', 'and', 'or', 'pos', 'zero', 'eq', 'nonneg'):
                return mk('count', a)
            if a.op in ('list', 'tuple'):
                return t.add(*a.args) if a.args else ZERO
        if name in ('all', 'any') and len(kw) == 1 and bound['a'].op in ('loop', 'listmap', 'listfilter'):
            f = self.foldlist(bound['a'], name)
            if f is not None:
                return f
        if name in ('all', 'any') and len(kw) == 1 and bound['a'].op in ('list', 'tuple'):
            return (t.and_ if name == 'all' else t.or_)(*bound['a'].args)
        if name == 'tile' and set(bound) == {'A', 'reps'} and bound['reps'].op in ('tuple', 'list') and len(bound['reps'].args) == 2:
            n, m = bound['reps'].args
            col = _column(bound['A'])
            if n is ONE and col is not None:
                return mk('cols', col, m)
            if m is ONE and bound['A'].op != 'T':
                return mk('rows', bound['A'], n)
        if name == 'reshape' and set(bound) == {'a', 'newshape'} and bound['newshape'].op in ('tuple', 'list') and len(bound['newshape'].args) == 2:
            a, (n, m) = bound['a'], bound['newshape'].args
            if a.op == 'call' and a.args[0] == 'numpy.repeat' and len(a.args[2]) == 2:
                d = dict(a.args[2])
                if t.length(d['a']) is n and d['repeats'] is m:
                    return mk('cols', d['a'], m)
                if t.length(d['a']) is m and d['repeats'] is n and n is not m:
                    return mk('scrambled', d['a'], n)     # neither constant along rows nor along columns
        if name == 'dot':
            return mk('call', 'numpy.dot', (), kw)
        if name == 'full' and set(bound) == {'shape', 'fill_value'}:
            c = bound['fill_value']
            if c.op == 'bool':
                c = ONE if c is TRUE else ZERO
            if c.op == 'num':
                if c is ZERO:
                    return mk('call', 'numpy.zeros', (), (('shape', bound['shape']),))
                return t.mul(c, mk('call', 'numpy.ones', (), (('shape', bound['shape']),)))
        if name == 'where' and len(kw) == 3:
            return mk('select', bound['condition'], bound['x'], bound['y'])
        if name == 'where':
            return mk('call', 'numpy.where', (bound['condition'],), ())
        if name == 'append' and 'axis' not in bound:
            return self.append(bound['arr'], bound['values'])
        return mk('call', 'numpy.' + name, (), kw)

    def append(self, a, v):
        if a.op in ('list', 'tuple'):
            if v.op in ('list', 'tuple'):
                return mk('list', *(a.args + v.args))
            return mk('list', *(a.args + (v,)))
        if a.op == 'listmap' and v.op in ('list', 'tuple'):
            return mk('list', a, *v.args)
        return mk('append', a, v)

    def external(self, d, pos, kw, star, dstar, e, env, fr, statement):
        if d in ('copy.deepcopy', 'copy.copy') and len(pos) == 1:
            self.event('copy', d, tuple(pos), e, fr)
            return copied(d.rsplit('.', 1)[1].replace('array', 'copy'), pos[0]) if self.keep_copies else self.plain(pos[0])
        if d == 'os.path.join' and pos and star is None and not kw:
            if pos[0].op == 'call' and pos[0].args[0] == 'os.path.join' and not pos[0].args[2]:
                pos = list(pos[0].args[1]) + list(pos[1:])
            return mk('call', d, tuple(pos), ())
        if d.startswith('numpy.'):
            n = d[6:]
            if n in ('array', 'asarray') and pos and 'dtype' in kw and (kw['dtype'] is mk('fn', 'int') or
                    kw['dtype'].op == 'ext' and kw['dtype'].args[0].startswith('numpy.int')):
                return mk('call', 'builtins.int', (pos[0],), ())
            kw = {k: v for k, v in kw.items() if k not in ('dtype', 'copy', 'order')}
            if n in ('array', 'copy', 'float64', 'float', 'float32', 'bool_', 'bool', 'atleast_1d', 'double'):
                if len(pos) >= 1:
                    return self.plain(pos[0])
                if 'object' in kw:
                    return kw['object']
            if n in ('int', 'int64', 'int32', 'int_'):
                return mk('call', 'builtins.int', tuple(pos), ())
            if n == 'sqrt' and len(pos) == 1:
                return t._ipow(pos[0], Fraction(1, 2))
            if n == 'square' and len(pos) == 1:
                return t._ipow(pos[0], Fraction(2))
            if n in ('power', 'pow') and len(pos) == 2:
                return t.power(*pos)
            if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'negative', 'hypot') and pos and not kw:
                if n == 'add': return t.add(*pos)
                if n == 'subtract': return t.sub(*pos)
                if n == 'multiply': return t.mul(*pos)
                if n in ('divide', 'true_divide'): return t.div(*pos)
                if n == 'negative': return t.neg(*pos)
                if n == 'hypot':
                    return t._ipow(t.add(t.mul(pos[0], pos[0]), t.mul(pos[1], pos[1])), Fraction(1, 2))
            if n in ('deg2rad', 'radians') and len(pos) == 1:
                return t.mul(pos[0], t.PI, t.num(Fraction(1, 180)))
            if n in ('rad2deg', 'degrees') and len(pos) == 1:
                return t.div(t.mul(pos[0], t.num(180)), t.PI)
            if n in ('logical_and', 'bitwise_and') and len(pos) == 2:
                return t.and_(*pos)
            if n in ('logical_or', 'bitwise_or') and len(pos) == 2:
                return t.or_(*pos)
            if n in ('logical_not', 'invert') and len(pos) == 1:
                return t.not_(pos[0])
            if n == 'flatnonzero' and len(pos) == 1:
                return mk('wh', pos[0])
            if n == 'count_nonzero' and len(pos) == 1:
                return mk('count', pos[0])
            if n in ('less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal') and len(pos) == 2:
                op = {'less': ast.Lt, 'greater': ast.Gt, 'less_equal': ast.LtE, 'greater_equal': ast.GtE,
                      'equal': ast.Eq, 'not_equal': ast.NotEq}[n]()
                return self.compare(op, pos[0], pos[1], env)
            if n == 'isinf' and len(pos) == 1 and not kw:
                return t.and_(t.not_(mk('call', 'numpy.isfinite', tuple(pos), ())), t.not_(mk('call', 'numpy.isnan', tuple(pos), ())))
            if n in ('random.random', 'random.sample', 'random.ranf'):
                n, d = 'random.random_sample', 'numpy.random.random_sample'
            if n == 'random.rand' and not kw:
                n, d = 'random.random_sample', 'numpy.random.random_sample'
                pos = [mk('tuple', *pos)] if len(pos) > 1 else pos
            if n == 'random.random_sample' and 'size' in kw and not pos:
                pos, kw = [kw['size']], {}
            if n == 'random.standard_normal' and len(pos) == 1:
                n, d = 'random.randn', 'numpy.random.randn'
            if n == 'exp' and len(pos) == 1 and not kw:
                return mk('call', 'numpy.exp', tuple(pos), ())
            if n == 'meshgrid' and len(pos) == 2 and not kw:
                return mk('tuple', mk('rows', pos[0], t.length(pos[1])), mk('cols', pos[1], t.length(pos[0])))
            if n == 'outer' and len(pos) == 2 and not kw:
                for u, v, f in ((pos[0], pos[1], 'cols'), (pos[1], pos[0], 'rows')):
                    if v.op == 'call' and v.args[0] == 'numpy.ones':
                        k = dict(v.args[2]).get('shape')
                        if k is not None and k.op not in ('tuple', 'list'):
                            return mk(f, u, k)
            if n == 'transpose' and len(pos) == 1:
                return self.transpose(pos[0])
            if n in ('zeros_like', 'ones_like') and len(pos) == 1:
                return mk('call', 'numpy.' + n, tuple(pos), ())
            if n == 'size' and len(pos) == 1:
                return mk('attr', pos[0], 'size')
            if n == 'shape' and len(pos) == 1:
                return mk('attr', pos[0], 'shape')
            if n == 'delete' and False:
                pass
            sig = NP_SIG.get(n)
            if sig and star is None and dstar is None:
                b = dict(zip(sig, pos))
                b.update(kw)
                if len(pos) <= len(sig):
                    return self.npcall(n, b, [])
            r = t.call(d, pos, tuple(kw.items())) if star is None else mk('call', d, tuple(pos) + (mk('star', star),), tuple(sorted(kw.items())))
            if statement:
                self.event('call', d, tuple(pos), e, fr)
            return r
        args = tuple(self.asleft(x, env) for x in pos) + ((mk('star', star),) if star is not None else ())
        kws = tuple((k, self.asleft(v, env)) for k, v in sorted(kw.items())) + ((('**', dstar),) if dstar is not None else ())
        r = mk('call', d, args, kws)
        if (r, '@state') in env.heap and d.split('.')[-1][:1].isupper():
            env.heap[(r, '@state')] = mk('nostate')     # a new object each time
        self.event('call', d, (r,), e, fr)
        return r

    def asleft(self, x, env):
        """An object made outside the package, as the calls made on it so far have left it."""
        if x.op in ('call', 'mcall') and (x, '@state') in env.heap:
            st = env.heap[(x, '@state')]
            if st.op != 'nostate':
                return mk('after', x, st)
        return x

    keep_copies = False

    def plain(self, v):
        if self.keep_copies:
            return copied('copy', v)
        return v

    def call_method(self, recv, name, pos, kw, star, dstar, e, env, fr, statement, recvnode):
        if recv.op == 'mod':
            return self.call_value(self.getattr(recv, name, env, fr), pos, kw, star, dstar, e, env, fr, statement)
        if recv.op == 'ext':
            return self.call_value(self.getattr(recv, name, env, fr), pos, kw, star, dstar, e, env, fr, statement)
        if recv.op == 'cls':
            cls = self.p.classes[recv.args[0]]
            m = self.p.method(cls, name)
            if m:
                sc = self.classof(pos[0]) if pos else None
                return self.call_func(m, pos, kw, star, dstar, env, fr, e, selfcls=sc or cls)
        # __dict__ manipulation
        if recv.op == 'attr' and recv.args[1] == '__dict__':
            base = recv.args[0]
            if name == 'update':
                src = None
                for v in pos + list(kw.values()) + ([dstar] if dstar is not None else []):
                    for s in t.subterms(v):
                        if s.op == 'sym' and s.args[0].startswith('**'):
                            src = s
                        elif s.op == 'dict' and src is None:
                            src = s
                if getattr(fr, 'skip_update', False):
                    return NONE
                if len(pos) == 1 and not kw and dstar is None and pos[0].op == 'attr' and pos[0].args[1] == '__dict__':
                    # X.__dict__.update(Y.__dict__): one store per key of Y
                    d, f = self.domain_of(pos[0])
                    k = f(mk('iv', self.loopdepth))
                    v = t.item(pos[0], k)
                    self.pc.append(mk('inloop', self.loopdepth, d))
                    self.event('setdict', '__dict__', (base, k, v), e, fr)
                    self.pc.pop()
                    self.override(base, k, v, env)
                    return NONE
                if src is None or src.op != 'dict':
                    self.pc.append(mk('foreign', *pos))
                    self.event('setdict', '__dict__', (base, src or NONE, src or NONE), e, fr)
                    self.pc.pop()
                if src is not None and src.op == 'dict':
                    for k, v in src.args[0]:
                        if k.op == 'const':
                            self.setattr(base, k.args[0], v, env, fr, e)
                else:
                    self.apply_override(base, src or (pos[0] if pos else NONE), env)
                return NONE
            if name == 'keys':
                return mk('keys', recv)
            if name == 'items':
                return mk('items', recv)
        v = env.heap.get((recv, name))
        if v is not None and v.op in ('closure', 'fn', 'bound'):
            return self.call_value(v, pos, kw, star, dstar, e, env, fr, statement)
        if name == 'copy' and not pos and not kw and self.classof(recv) is None:
            self.event('copy', 'copy', (recv,), e, fr)
            return copied('copy', recv) if self.keep_copies else recv
        cls = self.classof(recv)
        if cls is not None:
            m = self.p.method(cls, name)
            if m is not None:
                if name == 'copy' and not self.keep_copies:
                    return recv
                return self.call_func(m, [recv] + pos, kw, star, dstar, env, fr, e, selfcls=cls)
        if recv.op == 'ite' and any(self.classof(x) for x in recv.args[1:]):
            pass
        if name == 'keys' and not pos:
            return mk('keys', recv)
        if name == 'items' and not pos:
            return mk('items', recv)
        if name == 'values' and not pos:
            lv = self.loopdepth
            return mk('values', recv)
        if name == 'get' and len(pos) in (1, 2) and not kw:
            if len(pos) == 1 and recv.op == 'sym' and recv.args[0].startswith('**'):
                return t.item(recv, pos[0])
            if len(pos) == 1:
                return mk('dictget', recv, pos[0], NONE)
            return mk('dictget', recv, pos[0], pos[1])
        if name in ('lower', 'upper', 'strip', 'title') and not pos and not kw and recv.op == 'const' and \
                isinstance(recv.args[0], str):
            return t.const(getattr(recv.args[0], name)())
        if name == 'astype':
            if pos and (pos[0].op == 'fn' and pos[0].args[0] == 'int'):
                return mk('call', 'builtins.int', (recv,), ())
            return recv
        if name == 'tolist' and not pos:
            return recv
        if name == 'join' and recv.op == 'const' and len(pos) == 1 and pos[0].op in ('list', 'tuple') and \
                all(x.op == 'const' and isinstance(x.args[0], str) for x in pos[0].args):
            return t.const(recv.args[0].join(x.args[0] for x in pos[0].args))
        if name == 'format' and recv.op == 'const' and isinstance(recv.args[0], str) and not kw and pos and all(_strval(x) is not None for x in pos):
            try:
                return t.const(recv.args[0].format(*[_strval(x) for x in pos]))
            except Exception:
                pass
        if name == 'format' and recv.op == 'const':
            return mk('strfmt', recv, tuple(pos), tuple(sorted(kw.items())))
        if name == 'append' and len(pos) == 1:
            self.mutate(recv, self.append_obj(recv, pos[0]), env, recvnode, fr)
            self.event('mut', 'append', (recv, pos[0]), e, fr)
            return NONE
        if name == 'extend' and len(pos) == 1:
            self.mutate(recv, t.add(recv, pos[0]) if t.is_seq(recv) or t.is_seq(pos[0]) else mk('extend', recv, pos[0]), env, recvnode, fr)
            return NONE
        if name in METH2NP and not (recv.op in ('mod',)):
            n = METH2NP[name]
            if name == 'transpose' and not pos:
                return self.transpose(recv)
            sig = NP_SIG.get(n, ['a', 'axis'])
            if n == 'reshape':
                shp = pos[0] if len(pos) == 1 else mk('tuple', *pos)
                return self.npcall('reshape', {'a': recv, 'newshape': shp}, [])
            if n == 'where':
                return mk('call', 'numpy.where', (recv,), ())
            b = dict(zip(sig, [recv] + pos))
            b.update({k: v for k, v in kw.items() if k != 'dtype'})
            if len(pos) < len(sig):
                return self.npcall(n, b, [])
        if name == 'conj' and False:
            pass
        st = env.heap.get((recv, '@state'))
        if st is not None and st.op == 'nostate':
            st = None
        rv = recv if st is None else mk('after', recv, st)
        pp = tuple(self.asleft(x, env) for x in pos) + ((mk('star', star),) if star is not None else ())
        kws = tuple((k, self.asleft(v, env)) for k, v in sorted(kw.items())) + ((('**', dstar),) if dstar is not None else ())
        r = mk('mcall', rv, name, pp, kws)
        self.event('call', '.' + name, (recv,) + pp + tuple(v for k, v in sorted(kw.items())), e, fr)
        if statement or name.startswith(('set', 'update', 'reset')):
            old = st if st is not None else mk('nostate')
            if name not in ('write', 'flush'):
                env.heap[(recv, '@state')] = mk('st', old, name, pp, kws)
        return r

    def append_obj(self, a, v):
        if a.op == 'list':
            return mk('list', *(a.args + (v,)))
        return mk('append', a, v)


# ------------------------------------------------------------------ helpers
def _kname(k):
    if k[0] == 'l':
        return k[1]
    return '%s.%s' % (k[1][0].dg, k[1][1])


def _as_load(tg):
    import copy as _c
    n = _c.copy(tg)
    n.ctx = ast.Load()
    return n


def _column(a):
    """y for a term that is the column vector of y."""
    if a.op == 'T' and a.args[0].op == 'list' and len(a.args[0].args) == 1:
        return a.args[0].args[0]
    if a.op == 'T' and a.args[0].op == 'call' and a.args[0].args[0] == 'numpy.atleast_2d' and len(a.args[0].args[1]) == 1:
        return a.args[0].args[1][0]
    if a.op == 'item' and a.args[1].op == 'tuple' and len(a.args[1].args) == 2 and a.args[1].args[1] is NONE \
            and a.args[1].args[0] is t.FULL:
        return a.args[0]
    if a.op == 'call' and a.args[0] == 'numpy.reshape':
        d = dict(a.args[2])
        if 'newshape' in d and d['newshape'] is mk('tuple', t.num(-1), ONE):
            return d['a']
    return None


def _strval(x):
    if x.op == 'const' and isinstance(x.args[0], str):
        return x.args[0]
    if x.op == 'num' and x.args[0].denominator == 1:
        return int(x.args[0])
    return None


def strfold(a, b):
    vs = b.args if b.op == 'tuple' else (b,)
    if a.op == 'const' and vs and all(_strval(v) is not None for v in vs):
        try:
            return t.const(a.args[0] % tuple(_strval(v) for v in vs))
        except Exception:
            pass
    return mk('strfmt', a, b)


def _literal(x):
    return x.op in ('const', 'num', 'bool') or (x.op in ('tuple', 'list') and all(_literal(y) or y.op in ('attr', 'sym') for y in x.args))


def _elements(v):
    """The elements of an iterable over known literals (enumerate, zip, reversed of short literal sequences)."""
    if v.op in ('list', 'tuple'):
        return v.args if v.args and all(_literal(x) for x in v.args) else None
    if v.op == 'enumerate' and v.args[1].op == 'num':
        d = _elements(v.args[0])
        return None if d is None else [mk('tuple', t.add(v.args[1], t.num(i)), x) for i, x in enumerate(d)]
    if v.op == 'zip' and v.args:
        ds = [_elements(x) for x in v.args]
        return None if None in ds else [mk('tuple', *x) for x in zip(*ds)]
    if v.op == 'reversed':
        d = _elements(v.args[0])
        return None if d is None else list(reversed(d))
    return None


def _steady(elts, body):
    """Named objects that the body of the loop does not rebind."""
    if not 0 < len(elts) <= 8 or _has_jump(body):
        return False
    names, attrs = set(), set()
    for x in elts:
        for n in ast.walk(x):
            if isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.Attribute):
                attrs.add(n.attr)
            elif not isinstance(n, (ast.Constant, ast.Tuple, ast.expr_context)):
                return False
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id in names:
                return False
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and n.attr in attrs:
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr'):
                return False
    return True


def _onlymethods(target, body):
    """The loop variable is never written into or rebound."""
    names = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id in names and not isinstance(n.ctx, ast.Load):
                return False
            if isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(n.ctx, ast.Load):
                r = n.value
                while isinstance(r, (ast.Subscript, ast.Attribute)):
                    r = r.value
                if isinstance(r, ast.Name) and r.id in names:
                    return False
    return True


def _callable(f):
    return f.op in ('fn', 'cls', 'ext', 'bound', 'closure') or f.op == 'ite' and _callable(f.args[1]) and _callable(f.args[2])


def _plaintest(e):
    return isinstance(e, ast.Compare) and all(
        isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.expr_context, ast.cmpop, ast.BinOp, ast.operator)) or
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' for n in ast.walk(e))


def _has_jump(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
                return True
    return False


def _isempty(x):
    return x.op == 'list' and not x.args


def _isfill(x):
    return (x.op == 'call' and x.args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full')) or x.op == 'seqmul'


def _isgen(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _cases(b, c=TRUE):
    if b.op == 'ite':
        return _cases(b.args[1], t.and_(c, b.args[0])) + _cases(b.args[2], t.and_(c, t.not_(b.args[0])))
    return [(b, c)]


def _dictowner(b):
    """The object whose __dict__ a (possibly gated) term is."""
    if b.op == 'attr' and b.args[1] == '__dict__':
        return b.args[0]
    if b.op == 'ite':
        x, y = _dictowner(b.args[1]), _dictowner(b.args[2])
        if x is not None and y is not None:
            return t.ite(b.args[0], x, y)
    return None


def _derived(new, old):
    n = new
    for _ in range(50):
        if n is old:
            return True
        if n.op in ('store', 'append', 'mutated', 'without'):
            n = n.args[0]
        elif n.op == 'ite':
            return _derived(n.args[1], old) or _derived(n.args[2], old)
        elif n.op == 'loop':
            n = n.args[3][0][0]
        else:
            return False
    return False


def _ordered_sub(term):
    """Subterms in a name-independent order (children order is structural)."""
    seen = set()
    st = [term]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(reversed(list(t.children(x))))
