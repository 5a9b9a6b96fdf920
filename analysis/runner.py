"""Decide specification obligations: a repository function against its reference equations.

A reference is a function in /verif/spec carrying `@spec('module.function', 'C01 C02', ...)`.  Neither
side is executed: both are numbered by the same gated value numbering and the normal forms compared.
"""
import ast, glob, os, time
from . import terms as t
from .gvn import Engine, _derived
from .loader import Program, AnalysisBroken, PKG
from .compare import compare, Verdict, equal, atoms_of, vocab

EXTERNAL_CALLS = {'add', 'lmfit.minimize', 'open', 'pickle.dump', 'pickle.load', 'settings'}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_program(root=None, sources=None, trees=None):
    extra = {}
    for p in sorted(glob.glob(os.path.join(HERE, 'spec', '*.py'))):
        extra['spec.' + os.path.basename(p)[:-3]] = p
    return Program(root, extra, sources, trees)


def loopcond(c):
    """The loops a call sits in."""
    return t.mk('tuple', *sorted({s for s in t.subterms(c) if s.op == 'inloop'}, key=lambda s: s.dg))


def _guards(sites):
    return {s for c, a in sites for s in t.subterms(c) if s.op in ('in', 'foreign')}


class Spec:
    def __init__(self, func, target, props, opts):
        self.func, self.target, self.props, self.opts = func, target, props, opts
        self.name = func.qual

    def __repr__(self):
        return '<Spec %s -> %s>' % (self.name, self.target)


def load_specs(prog):
    out = []
    for mod in sorted(prog.modules):
        if not mod.startswith('spec.'):
            continue
        m = prog.modules[mod]
        for st in m.tree.body:
            if not isinstance(st, ast.FunctionDef):
                continue
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'spec':
                    a = [ast.literal_eval(x) for x in d.args]
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    s = Spec(prog.funcs[mod + '.' + st.name], a[0], a[1].split(), kw)
                    out.append(s)
    return out


class Outcome:
    """One decided obligation."""
    def __init__(self, key, status, where='', detail='', observable='', witness=''):
        self.key, self.status, self.where, self.detail = key, status, where, detail
        self.observable, self.witness = observable, witness

    def __repr__(self):
        return '%-9s %s %s %s' % (self.status, self.key, self.where, self.detail)


def outside(x):
    """An object built by a class from outside the package."""
    return x.op == 'call' and isinstance(x.args[0], str) and x.args[0].split('.')[-1][:1].isupper()


def mktuple(v):
    if isinstance(v, (list, tuple)):
        return t.mk('tuple', *[mktuple(x) for x in v])
    return t.sym(v) if isinstance(v, str) else t.num(v)


def _heapattrs(res, base):
    return {k[1] for k in res.heap if k[0] is base and not k[1].startswith('@')}


class Runner:
    def __init__(self, prog, tier='quick'):
        self.p = prog
        self.tier = tier
        self.specs = load_specs(prog)
        self.opaque_names = set()
        self.missing = []
        self.alts = {}
        for s in self.specs:
            if s.opts.get('alt'):
                self.alts.setdefault(s.target, []).append(s)
        self.specs = [s for s in self.specs if not s.opts.get('alt')]
        for s in self.specs:
            if s.opts.get('opaque', True):
                try:
                    f = prog.func(s.target)
                    self.opaque_names.add(f.qual)
                except AnalysisBroken:
                    pass
        self.functions = set()
        self.extra_functions = set()
        self.cache = {}
        self.inlined = frozenset()

    # -- numbering -----------------------------------------------------
    def engine(self, spec, target, mode):
        inl = spec.opts.get('inline', ())
        names = self.opaque_names
        extra_opaque = set(spec.opts.get('opaque_also', ()))

        def opaque(f):
            if f.module.name.startswith('spec'):
                return False
            q = f.qual
            short = q[len(PKG) + 1:]
            if q in self.inlined or f.node.name in self.inlined:
                return False
            if short in extra_opaque:
                return True
            if f.node.name == '__init__':
                return False
            if mode == 'B':
                return False
            if inl == '*' or short in inl or any(short.endswith('.' + x) for x in inl) or f is target:
                return False
            return q in names
        e = Engine(self.p, opaque=opaque, hints=spec.opts.get('hints'),
                   nan_strict=spec.opts.get('nan_strict', False),
                   init_new=spec.opts.get('init_new', False))
        e.keep_copies = spec.opts.get('keep_copies', False)
        return e

    def number(self, spec, mode):
        target = self.p.func(spec.target)
        cls = target.cls
        if spec.opts.get('cls'):
            cls = self.p.cls(spec.opts['cls'])
        sn = [x.arg for x in spec.func.node.args.posonlyargs + spec.func.node.args.args]
        tn = [x.arg for x in target.node.args.posonlyargs + target.node.args.args]
        args = {}
        # parameters correspond by name, else by position
        free = [n for n in sn if n not in tn]
        for i, n in enumerate(tn):
            if n not in sn and i < len(sn) and sn[i] in free:
                args[n] = t.sym(sn[i])
        fixed = {k: t.const(v) for k, v in spec.opts.get('fix', {}).items()}
        args.update(fixed)
        pre, va = {}, None
        for k, v in spec.opts.get('pre', {}).items():
            tv = mktuple(v)
            if k.startswith('*'):
                va = tv
            else:
                b, at = k.rsplit('.', 1)
                pre[(self.path(b), at)] = tv
        e1 = self.engine(spec, target, mode)
        e1.varargs = va
        selfsym = t.sym('self')
        r1 = e1.run(target, selfcls=cls, args=args, self_term=selfsym if cls else None, heap=dict(pre))
        e2 = self.engine(spec, target, mode)
        if cls:
            e2.typeof[selfsym] = cls
        a2 = {sn[0]: selfsym} if cls and sn else {}
        a2.update(fixed)
        r2 = self._runspec(e2, spec.func, cls, a2, dict(pre), va)
        self.functions |= {q for q in e1.analysed if q.startswith(PKG)}
        return r1, r2, target, selfsym

    def _runspec(self, e, func, cls, args, pre=None, va=None):
        from .gvn import Env, Frame, Result, shadow
        a = func.node.args
        env = Env(heap=pre)
        for x in a.posonlyargs + a.args:
            env.loc[x.arg] = args.get(x.arg) or t.sym(x.arg)
        if a.vararg:
            env.loc[a.vararg.arg] = va or t.sym('*args')
        if a.kwarg:
            env.loc[a.kwarg.arg] = t.sym('**kwargs')
        shadow(env)
        fr = Frame(func, cls)
        ret, heap = e.exec_func(fr, func.node, env)
        return Result(ret, heap, e.events, [x.arg for x in a.args], env)

    # -- observables -----------------------------------------------------
    def observables(self, spec, r1, r2, selfsym):
        """[(label, actual term, reference term)]"""
        obs = spec.opts.get('obs', 'auto')
        if obs == 'auto':
            obs = []
            if not (r2.ret is t.NONE):
                obs.append('return')
            if _heapattrs(r2, selfsym):
                obs.append('self')
            obs.append('raises')
        out = []
        norm = self.axioms(spec)
        self.refvocab = set()
        for v in [r2.ret] + list(r2.heap.values()) + [a for e in r2.events for a in e.args]:
            if isinstance(v, t.T):
                self.refvocab |= vocab(v)
        for o in obs:
            if o == 'return':
                out.append(('return value', r1.ret, r2.ret))
            elif o == 'self':
                skip = set(spec.opts.get('skip', ()))
                for at in sorted(_heapattrs(r2, selfsym) - skip):
                    out.append(('self.' + at, r1.attr(selfsym, at), r2.attr(selfsym, at)))
                if spec.opts.get('frame', True):
                    known = self.attrvocab()
                    for at in sorted(_heapattrs(r1, selfsym) - _heapattrs(r2, selfsym) - skip):
                        if at in known:
                            out.append(('self.' + at + ' (unchanged)', r1.attr(selfsym, at), t.mkattr(selfsym, at)))
            elif o.startswith('self.'):
                out.append((o, r1.self_attr(o[5:]), r2.self_attr(o[5:])))
            elif '.' in o and ':' not in o:
                b, at = o.split('.', 1)
                out.append((o, r1.attr(t.sym(b), at), r2.attr(t.sym(b), at)))
            elif o.startswith('arg:'):
                n = o[4:]
                out.append(('argument ' + n, self.argval(r1, n), self.argval(r2, n)))
            elif o == 'heap':
                keys = {k for k in r2.heap if not k[1].startswith('@') and k[0] is not selfsym}
                for k in sorted(keys, key=lambda k: (k[0].dg, k[1])):
                    out.append(('%s.%s' % (t.show(k[0], 3), k[1]), r1.heap.get(k, t.mkattr(*k)), r2.heap[k]))
            elif o == 'raises':
                a, b = self.raisecond(r1), self.raisecond(r2)
                if not (a is b is t.FALSE):
                    out.append(('raised errors', a, b))
            elif o.startswith('order:'):
                ns = o[6:].split(',')
                out.append(('order of ' + ', '.join(ns),) + self.sites(self.orderterm(r1, ns), self.orderterm(r2, ns)))
            elif o.startswith('call:'):
                n = o[5:]
                if n not in EXTERNAL_CALLS and not self.defined(n.split('.')[-1]):
                    continue        # the function is gone: what it did is judged where it went
                out.append(('calls of ' + n,) + self.sites(self.callterm(r1, n), self.callterm(r2, n)))
            elif o == 'attrstores':
                x, y = self.dictstores(r1), self.dictstores(r2)
                if _guards(x) == _guards(y):
                    out.append(('attributes stored by name',) + self.sites(x, y))
                else:
                    # the keys are chosen another way (a filter on one of the two dictionaries)
                    out.append(('attributes stored by name', t.mk('filtered', *[c for c, a in x]), t.mk('filtered')))
            elif o == 'state':
                bases = {k for k in r2.heap if k[1] == '@state'}
                for k in bases:
                    out.append(('state of %s' % t.show(k[0], 3), r1.heap.get(k, t.mk('nostate')), r2.heap[k]))
        if spec.opts.get('args', True):
            self.argframe(r1, r2, selfsym, out)
        return out, norm

    def argframe(self, r1, r2, selfsym, out):
        """What the caller's own objects hold afterwards."""
        n, same = 0, True
        for k in sorted(set(r1.env.loc) & set(r2.env.loc)):
            if not k.startswith('@arg:') or k == '@arg:self':
                continue
            a, b = r1.env.loc[k], r2.env.loc[k]
            s = t.sym(k[5:])
            n += 1
            if a is not s or b is not s:
                same = False
                out.append(('argument %s as the caller sees it' % k[5:], a, b))
        if n and same:
            out.append(('arguments not modified in place', t.TRUE, t.TRUE))
        known = self.attrvocab()
        done = {x[0] for x in out}
        for k in sorted(set(r1.heap) | set(r2.heap), key=lambda k: (k[0].dg, k[1])):
            root = k[0]
            while root.op == 'attr':
                root = root.args[0]
            if k[1].startswith('@') or k[0] is selfsym or k[1] not in known:
                continue
            if root.op != 'sym' and not (root.op == 'copyof' and k in r1.heap and r1.heap[k].op != 'deleted' and self.handed(r2, root)):
                continue
            a = r1.heap.get(k, t.mkattr(*k))
            b = r2.heap.get(k, t.mkattr(*k))
            if (k in r1.heap) != (k in r2.heap) and any(v.op == 'attr' and v.args[0].op == 'after' for v in (a, b)):
                continue        # set by a function both sides leave uninterpreted: judged as a call
            lab = '%s.%s' % (t.show(k[0], 3), k[1])
            if lab not in done and not (a is b):
                out.append((lab + ' (argument)', a, b))

    def handed(self, r, v):
        """Is a value returned or given to a call?"""
        return any(v in t.subterms(a) for a in [r.ret] + [x for e in r.events for x in e.args] if isinstance(a, t.T))

    def defined(self, leaf):
        if not hasattr(self, '_defined'):
            self._defined = {n.name for m in self.p.modules.values() if not m.name.startswith('spec.')
                             for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        return leaf in self._defined

    def argval(self, r, n):
        v = r.env.loc.get('@arg:' + n)
        return v if v is not None else t.sym(n)

    def raisecond(self, r):
        alts = []
        for e in r.events:
            if e.kind == 'raise':
                alts.append(t.and_(*e.pc) if e.pc else t.TRUE)
        return t.or_(*alts) if alts else t.FALSE

    def callterm(self, r, n):
        out = []
        for e in r.events:
            if e.kind in ('call', 'enter', 'new') and (e.name == n or e.name.endswith('.' + n) or e.name == PKG + '.' + n):
                out.append((t.and_(*e.pc) if e.pc else t.TRUE, e.args))
        return out

    def dictstores(self, r):
        return [(t.and_(*e.pc) if e.pc else t.TRUE, e.args) for e in r.events if e.kind == 'setdict']

    def sites(self, a, b):
        """Both call sequences in the form that suits their comparison."""
        x, y = (t.mk('callsites', *self.mergesites(s)) for s in (a, b))
        if x is y:
            return x, y
        conds = set()
        for c, _ in a + b:
            atoms_of(c, conds)
        if len(conds) > 7 or not any(c.op != 'inloop' for c in conds):
            return x, y
        p, q = (t.rebuild('callsites', [t.ite(c, t.mk('callsite', loopcond(c), *v), t.mk('skip')) for c, v in s]) for s in (a, b))
        return (p, q) if equal(p, q) else (x, y)

    def mergesites(self, sites):
        """Calls on mutually exclusive paths are one call with selected arguments."""
        out, group = [], []

        def close():
            if group:
                g = sorted(group, key=lambda s: s[0].dg)
                args = list(g[-1][1])
                for c, a in reversed(g[:-1]):
                    args = [t.ite(c, x, y) for x, y in zip(a, args)]
                out.append(t.mk('callsite', t.or_(*[c for c, a in g]) if len(g) > 1 else g[0][0], *args))
                del group[:]
        for c, a in sites:
            if c is t.FALSE:
                continue
            if group and not all(len(a) == len(b) and t.and_(c, d) is t.FALSE for d, b in group):
                close()
            group.append((c, tuple(a)))
        close()
        return out

    def orderterm(self, r, ns):
        out = []
        for e in r.events:
            if e.kind in ('call', 'enter', 'new'):
                for n in ns:
                    if e.name == n or e.name.endswith('.' + n):
                        out.append((t.and_(*e.pc) if e.pc else t.TRUE, (t.const(n),)))
        return out

    _vocab = None

    def attrvocab(self):
        if self._vocab is None:
            v = set()
            for m in self.p.modules.values():
                if m.name.startswith('spec.'):
                    for n in ast.walk(m.tree):
                        if isinstance(n, ast.Attribute):
                            v.add(n.attr)
            self._vocab = v
        return self._vocab

    def axioms(self, spec):
        ax = spec.opts.get('same_len', ())
        if not ax:
            return None
        m = {}
        for group in ax:
            ts = [self.path(g) for g in group]
            for x in ts[1:]:
                m[t.length(x)] = t.length(ts[0])

        def norm(x):
            return t.subst(x, m)
        return norm

    def path(self, s):
        parts = s.split('.')
        v = t.sym(parts[0])
        for q in parts[1:]:
            v = t.mkattr(v, q)
        return v

    # -- decision -----------------------------------------------------------
    def decide(self, spec):
        if spec in self.cache:
            return self.cache[spec]
        res = self._decide(spec)
        if not spec.opts.get('known') and not self.alts.get(spec.target) and not spec.opts.get('alt'):
            res = res + self.defaults(spec)
        if spec.opts.get('known'):
            # the reference is the *defective* form, recorded in known_findings.txt: report it while it is there
            res = [Outcome('defect in ' + o.key, 'violation', o.where, spec.opts['known'], o.observable)
                   for o in res if o.status == 'ok' and not o.key.endswith(('(unchanged)', 'errors', '(argument)'))
                   and 'argument' not in o.key]
            self.cache[spec] = res
            return res
        for alt in self.alts.get(spec.target, ()):
            if all(o.status == 'ok' for o in res):
                break
            good = {o.key for o in self._decide(alt) if o.status == 'ok'}
            res = [Outcome(o.key, 'ok', o.where, 'alternative form', o.observable) if o.key in good else o for o in res]
        self.cache[spec] = res
        return res

    def defaults(self, spec):
        """Constant defaults of optional arguments (what an omitted setting means)."""
        def table(fn):
            a = fn.args
            ps = a.posonlyargs + a.args
            d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
            d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
            return d

        def const(e):
            try:
                v = ast.literal_eval(e)
            except ValueError:
                return None, False
            return v, v is not None and not isinstance(v, (list, dict, set))
        try:
            f = self.p.func(spec.target)
        except AnalysisBroken:
            return []
        act, ref = table(f.node), table(spec.func.node)
        n, out = 0, []
        for k in ref:
            if k in act and k not in ('debug', 'verbose'):
                x, cx = const(act[k])
                y, cy = const(ref[k])
                if cx and cy:
                    n += 1
                    if x != y or isinstance(x, bool) != isinstance(y, bool):
                        out.append(Outcome('%s:default of %s' % (spec.target, k), 'violation', f.where,
                                           'left out, %s means %r instead of %r' % (k, x, y), 'default ' + k))
        if n and not out:
            out.append(Outcome('%s:defaults' % spec.target, 'ok', f.where, '%d defaults' % n, 'defaults'))
        return out

    def _decide(self, spec):
        try:
            target = self.p.func(spec.target)
        except AnalysisBroken as e:
            return [Outcome(spec.target, 'missing', '', str(e))]
        per = {}
        order = []
        undec = ''
        for mode in ('A', 'B'):
            try:
                r1, r2, target, selfsym = self.number(spec, mode)
                obs, norm = self.observables(spec, r1, r2, selfsym)
            except (t.LimitHit, RecursionError) as e:
                undec = 'numbering limit: %s' % e
                continue
            gone = self.written_out(spec, r1, r2)
            if gone:
                same = self.without(spec, gone)
                if same:
                    return same
            for label, a, b in obs:
                if per.get(label) and per[label][0].kind == 'equal':
                    continue
                v = self.verdict(spec, label, a, b, norm)
                if v.kind != 'equal' and label != 'raised errors':
                    rc = self.raisecond(r2)
                    if rc is not t.FALSE:
                        # a value on a path that ends in an error is never seen
                        w = self.verdict(spec, label, t.ite(rc, t.NONE, a), t.ite(rc, t.NONE, b), norm)
                        if w.kind == 'equal' or (v.kind == 'differ' and not v.detail.startswith('modified in place')):
                            v = w
                if label not in per:
                    order.append(label)
                    per[label] = []
                per[label].append(v)
            if all(any(v.kind == 'equal' for v in per[l]) for l in order):
                break
        if not order:
            return [Outcome(spec.target, 'undecided', target.where, undec)]
        out = []
        for l in order:
            vs = per[l]
            key = '%s:%s' % (spec.target, l)
            if any(v.kind == 'equal' for v in vs):
                out.append(Outcome(key, 'ok', target.where, '', l))
            elif all(v.kind == 'differ' for v in vs) and (len(vs) == 2 or l.endswith('(unchanged)')
                                                          or not self.statey(vs[0])):
                out.append(Outcome(key, 'violation', target.where, vs[0].detail, l))
            elif vs[0].kind == 'differ' and not self.statey(vs[0]) and len(vs) == 2 and (
                    'split' in vs[1].detail or not self.throughcalls(vs[0])):
                out.append(Outcome(key, 'violation', target.where, vs[0].detail, l))
            else:
                out.append(Outcome(key, 'undecided', target.where, ' / '.join(v.detail for v in vs), l))
        return out

    def written_out(self, spec, r1, r2):
        """Functions the specification calls and the code does not: what they do may be written out in place."""
        a, b = self.called(r1), self.called(r2)
        leaf = {}
        for n, k in a.items():
            leaf[n.split('.')[-1]] = leaf.get(n.split('.')[-1], 0) + k
        mine = {}
        for n, k in b.items():
            mine[n.split('.')[-1]] = mine.get(n.split('.')[-1], 0) + k
        return {n for n in b if b[n] > a.get(n, 0) and mine[n.split('.')[-1]] != leaf.get(n.split('.')[-1], 0)
                and self.defined(n.split('.')[-1])}

    def called(self, r, *kinds):
        out = {}
        for e in r.events:
            if e.kind in (kinds or ('call', 'enter')):
                out[e.name] = out.get(e.name, 0) + 1
        return out

    def without(self, spec, gone):
        """The specification with those functions followed into: the outcomes if every one holds."""
        def names(o):
            return {x.split('.')[-1] for x in o.split(':', 1)[1].split(',')} if o.startswith(('call:', 'order:')) else set()
        leaves = {n.split('.')[-1] for n in gone}
        was = spec.opts
        obs = was.get('obs', 'auto')
        if obs != 'auto':
            obs = [o for o in obs if not names(o) & leaves]
            if len(obs) < len(was['obs']):
                obs += [o for o in ('heap', 'self') if o not in obs and (o == 'heap' or self.p.func(spec.target).cls)]
        try:
            for mode, opts in (('A', dict(was, obs=obs)), ('B', dict(was, obs=obs, opaque_also=()))):
                spec.opts = opts
                self.inlined = frozenset(gone)
                try:
                    for again in range(4):
                        r1, r2, target, selfsym = self.number(spec, mode)
                        # what one side now calls and the other has followed into is followed into on both
                        a, b = self.called(r1, 'call'), self.called(r2, 'call')
                        more = {n for n in set(a) | set(b) if a.get(n, 0) != b.get(n, 0) and self.defined(n.split('.')[-1])
                                and not leaves & {n.split('.')[-1]}} - self.inlined
                        if not more or any(names(o) & {n.split('.')[-1] for n in more} for o in obs):
                            break
                        self.inlined |= more
                    seen, norm = self.observables(spec, r1, r2, selfsym)
                    rc = self.raisecond(r2)
                    if rc is not t.FALSE:
                        # what happens on a path that ends in an error is never seen
                        seen = [(l, x, y) if l == 'raised errors' else
                                (l, self.unless(rc, x), self.unless(rc, y)) for l, x, y in seen]
                    if all(self.verdict(spec, l, x, y, norm).kind == 'equal' for l, x, y in seen):
                        return [Outcome('%s:%s' % (spec.target, l), 'ok', target.where,
                                        'with %s written out' % ', '.join(sorted(gone)), l) for l, x, y in seen]
                except (t.LimitHit, RecursionError):
                    pass
        finally:
            self.inlined = frozenset()
            spec.opts = was
        return None

    def unless(self, rc, x):
        if x.op == 'callsites':
            return t.mk('callsites', *[t.mk('callsite', t.and_(t.not_(rc), c.args[0]), *c.args[1:]) if c.op == 'callsite' else c
                                       for c in x.args])
        return t.ite(rc, t.NONE, x)

    def throughcalls(self, v):
        """The difference lies in what a function of the package is given or gives."""
        for asg, p, q in v.pairs:
            for x in (p, q) + tuple(asg):
                for s in t.subterms(x):
                    if s.op == 'call' and str(s.args[0]).startswith(PKG + '.') or s.op in ('closure', 'new', 'after', 'st'):
                        return True
        return False

    def statey(self, v):
        for asg, p, q in v.pairs:
            for x in (p, q):
                for s in t.subterms(x):
                    if s.op in ('st', 'nostate') or s.op == 'after' and not outside(s.args[0]):
                        return True
        return False

    def verdict(self, spec, label, a, b, norm):
        try:
            known = {q for q in self.opaque_names}
            extra = ()
            left = b
            while left.op == 'ite' and left.args[2] is t.NONE:      # looked at only where nothing is raised
                left = left.args[1]
            if left.op in ('attr', 'sym') and label.split(' (')[0] == t.show(left, 9):
                extra = self.refvocab     # left alone by the specification, written by the code
            v = compare(a, b, known_fns=known, norm=norm, extra_vocab=extra)
            if v.kind == 'undecided' and b.op in ('sym', 'attr') and a is not b and _derived(a, b) and (
                    label.startswith('argument') or label.endswith(('(argument)', '(unchanged)'))):
                return Verdict('differ', 'modified in place: got %s, expected it untouched' % t.show(a, 4))
            return v
        except t.LimitHit as e:
            return Verdict('undecided', 'case split: %s' % e)
