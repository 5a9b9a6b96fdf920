"""C08: typestate of sample stores in the sampling routines, and order of saving."""
import ast
from analysis.rulebase import rule, ok, bad, undecided
from analysis.loader import PKG, Func

NEW = {'EnsembleSampler': 'sampler', 'HDFBackend': 'hdf', 'Backend': 'mem'}
WATCH = set(NEW) | {'run_mcmc', 'reset', 'make_emcee_sampler_dict', 'dumppickle', 'plot_trace', 'init_walker_pos',
                    'make_pruned_fitEmis2D_class', 'sample'}
ANALYSIS = {'plot_trace', 'plot_param_corner', 'get_chain_results', 'add_v_re_22'}


class Give(Exception):
    pass


def callname(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None


class St:
    def __init__(self, env, ev, facts):
        self.env, self.ev, self.facts, self.ctl, self.ret = env, ev, facts, None, None

    def copy(self):
        s = St(dict(self.env), list(self.ev), dict(self.facts))
        return s


class Walk:
    """Path enumeration over the statements that matter for stores and positions."""
    def __init__(self, prog, f):
        self.p, self.f = prog, f
        self.n = 0
        self.relcache = {}
        self.nest = {}
        self.budget = 60000

    def target(self, f, c):
        """package function called, if it takes part in sampling"""
        r = None
        if isinstance(c.func, ast.Name) and c.func.id in self.nested(f):
            r = ('func', self.nested(f)[c.func.id])
        elif isinstance(c.func, ast.Name):
            r = self.p.resolve(f.module.name, c.func.id)
        elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
            b = self.p.resolve(f.module.name, c.func.value.id)
            if b and b[0] == 'mod':
                r = self.p.resolve(b[1], c.func.attr)
        if r and r[0] == 'func' and r[1].node.name not in WATCH and self.relfunc(r[1]):
            return r[1]
        return None

    def nested(self, f):
        """functions defined inside f (or around it)"""
        k = id(f.node)
        if k not in self.nest:
            self.nest[k] = {}
            out = dict(self.nested(f.outer)) if hasattr(f, 'outer') else {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.FunctionDef) and n is not f.node:
                    g = Func(f.module, n)
                    g.outer = f
                    out[n.name] = g
            self.nest[k] = out
        return self.nest[k]

    def relfunc(self, f):
        k = id(f.node)
        if k not in self.relcache:
            self.relcache[k] = False
            self.relcache[k] = any(self.relcall(f, c) for c in ast.walk(f.node) if isinstance(c, ast.Call))
        return self.relcache[k]

    def relcall(self, f, c):
        return callname(c) in WATCH or self.target(f, c) is not None

    def relnames(self, f):
        out = set()
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and self.relcall(f, c):
                out |= {n.id for n in ast.walk(c) if isinstance(n, ast.Name)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                out |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        while True:
            more = set(out)
            for st in ast.walk(f.node):
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id in out for tg in st.targets
                                                      for t in ast.walk(tg)):
                    more |= {n.id for n in ast.walk(st.value) if isinstance(n, ast.Name)}
            if more == out:
                return out
            out = more

    def relevant(self, f, st, names):
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and self.relcall(f, n):
                return True
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names:
                return True
            if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise)):
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'sampler_dict':
                return True
        return False

    # -- expressions --------------------------------------------------
    def ev(self, f, e, s):
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.Name):
            return s.env.get(e.id, ('glob', e.id))
        if isinstance(e, ast.Attribute):
            return ('attr', self.ev(f, e.value, s), e.attr)
        if isinstance(e, (ast.Tuple, ast.List)):
            return ('tuple',) + tuple(self.ev(f, x, s) for x in e.elts)
        if isinstance(e, ast.Subscript):
            b = self.ev(f, e.value, s)
            i = self.ev(f, e.slice, s)
            if b[0] == 'tuple' and i[0] == 'const' and isinstance(i[1], int) and -len(b) < i[1] < len(b) - 1:
                return b[1:][i[1]]
            return ('item', b, i)
        if isinstance(e, ast.IfExp):
            t = self.ev(f, e.test, s)
            known = self.truth(t)
            if known is not None:
                return self.ev(f, e.body if known else e.orelse, s)
            return ('if', t, self.ev(f, e.body, s), self.ev(f, e.orelse, s))
        if isinstance(e, ast.Call):
            nm = callname(e)
            args = tuple(self.ev(f, a, s) for a in e.args)
            kw = tuple(sorted(((k.arg or '**'), self.ev(f, k.value, s)) for k in e.keywords))
            recv = self.ev(f, e.func.value, s) if isinstance(e.func, ast.Attribute) else None
            if nm in ('copy', 'array', 'asarray', 'deepcopy') and (args or recv):
                inner = args[0] if args else recv
                if self.is_pos(inner):
                    return inner
            if nm == 'EnsembleSampler':
                self.n += 1
                return ('sampler', self.n, args, kw, e.lineno)
            if nm == 'HDFBackend':
                d = dict(kw)
                fn = args[0] if args else d.get('filename')
                return ('store', 'hdf', fn, args[1] if len(args) > 1 else d.get('name', ('const', 'mcmc')))
            if nm == 'Backend':
                self.n += 1
                return ('store', 'mem', self.n, None)
            if nm == 'run_mcmc' and recv is not None and recv[0] == 'sampler':
                self.n += 1
                d = dict(kw)
                pos = args[0] if args else d.get('initial_state', d.get('pos0'))
                steps = args[1] if len(args) > 1 else d.get('nsteps', d.get('N'))
                s.ev.append(('run', recv, pos, steps, s.env.get('@loop'), d, e.lineno, self.n))
                return ('pos', self.n, recv)
            if nm == 'reset' and recv is not None and recv[0] in ('sampler', 'store'):
                s.ev.append(('reset', recv, args, e.lineno))
                return ('const', None)
            if nm == 'make_emcee_sampler_dict':
                d = dict(kw)
                self.n += 1
                smp = args[0] if args else d.get('sampler')
                nb = args[2] if len(args) > 2 else d.get('nBurn', ('const', 0))
                v = ('dict', self.n, smp, nb)
                s.ev.append(('dict', v, e.lineno))
                return v
            if nm == 'dumppickle':
                d = dict(kw)
                s.ev.append(('dump', args[0] if args else d.get('data'), args[1] if len(args) > 1 else d.get('filename'), e.lineno))
                return ('const', None)
            if nm in ANALYSIS:
                s.ev.append(('analysis', nm, args, e.lineno))
                return ('call', nm, args, kw)
            if nm == 'init_walker_pos':
                return ('pos', 0, args, kw)
            return ('call', nm) + ((recv,) if recv else ()) + args + tuple(kw)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return ('cmp', type(e.ops[0]).__name__, self.ev(f, e.left, s), self.ev(f, e.comparators[0], s))
        if isinstance(e, ast.UnaryOp):
            return ('un', type(e.op).__name__, self.ev(f, e.operand, s))
        if isinstance(e, (ast.BoolOp,)):
            return ('bool', type(e.op).__name__) + tuple(self.ev(f, x, s) for x in e.values)
        if isinstance(e, ast.BinOp):
            return ('bin', type(e.op).__name__, self.ev(f, e.left, s), self.ev(f, e.right, s))
        return ('expr', ast.dump(e))

    def truth(self, t):
        """a test on the step counter or on a position, where its outcome is plain; else None"""
        if t[0] == 'un' and t[1] == 'Not':
            r = self.truth(t[2])
            return None if r is None else not r
        if t[0] != 'cmp':
            return None
        _, op, a, b = t
        if op in ('Is', 'IsNot') and ('const', None) in (a, b) and self.is_pos(b if a == ('const', None) else a):
            return op == 'IsNot'
        if a[0] == 'const' and b[0] == 'iter':
            op, a, b = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op), b, a
        if a[0] == 'iter' and b == ('const', 0) and a[1][0] != 'call':
            first = a[2] == 0
            return {'Eq': first, 'NotEq': not first, 'Gt': not first, 'LtE': first, 'GtE': True, 'Lt': False}.get(op)
        return None

    def is_pos(self, v):
        return isinstance(v, tuple) and v and (v[0] == 'pos' or v[0] == 'item' and self.is_pos(v[1]))

    # -- statements -----------------------------------------------------
    def block(self, f, body, states, names):
        for st in body:
            live = [s for s in states if s.ctl is None]
            done = [s for s in states if s.ctl is not None]
            if not live:
                return states
            out = []
            for s in live:
                out.extend(self.stmt(f, st, s, names))
            states = done + out
            self.budget -= len(out)
            if self.budget < 0:
                raise Give('too many paths')
        return states

    def assign(self, f, tg, v, s):
        if isinstance(tg, ast.Name):
            s.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, x in enumerate(tg.elts):
                self.assign(f, x, v[1 + i] if v[0] == 'tuple' and len(v) == len(tg.elts) + 1 else
                            ('item', v, ('const', i)), s)
        elif isinstance(tg, ast.Attribute):
            if tg.attr == 'sampler_dict':
                s.ev.append(('hold', self.ev(f, tg.value, s), v, tg.lineno))

    def expand(self, f, e, s):
        """Calls of package helpers inside an expression statement: [(state, value)] when e is such a call."""
        if isinstance(e, ast.Call):
            g = self.target(f, e)
            if g is not None:
                args = [self.ev(f, a, s) for a in e.args]
                pn = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
                env = dict(s.env) if hasattr(g, 'outer') else {}
                dfl = g.node.args.defaults
                for n_, d in zip(pn[len(pn) - len(dfl):], dfl):
                    env[n_] = self.ev(g, d, St({}, [], {}))
                env.update(dict(zip(pn, args)))
                for k in e.keywords:
                    if k.arg:
                        env[k.arg] = self.ev(f, k.value, s)
                if '@loop' in s.env:
                    env['@loop'] = s.env['@loop']
                s2 = St(env, list(s.ev), dict(s.facts))
                outs = self.block(g, g.node.body, [s2], self.relnames(g))
                res = []
                for o in outs:
                    if o.ctl == 'raise':
                        continue
                    n = St(dict(s.env), o.ev, o.facts)
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Nonlocal):
                            n.env.update({k: o.env[k] for k in x.names if k in o.env})
                    res.append((n, o.ret if o.ctl == 'return' and o.ret is not None else ('const', None)))
                return res
        return [(s, self.ev(f, e, s))]

    def stmt(self, f, st, s, names):
        if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) :
            if st.value is None:
                s.ctl, s.ret = 'return', ('const', None)
                return [s]
            if isinstance(st, ast.Expr) and not self.relevant(f, st, names):
                return [s]
            out = []
            for s2, v in self.expand(f, st.value, s):
                if isinstance(st, ast.Assign):
                    for tg in st.targets:
                        self.assign(f, tg, v, s2)
                elif isinstance(st, ast.Return):
                    s2.ctl, s2.ret = 'return', v
                out.append(s2)
            return out
        if isinstance(st, ast.If):
            if not self.relevant(f, st, names):
                return [s]
            k, pol = self.key(f, st.test, s)
            outs = []
            plain = self.truth(self.ev(f, st.test, s))
            for truth, body in ((True, st.body), (False, st.orelse)):
                if plain is not None and truth != plain:
                    continue
                val = truth if pol else not truth
                if k in s.facts and s.facts[k] != val:
                    continue
                s2 = s.copy()
                s2.facts[k] = val
                outs.extend(self.block(f, body, [s2], names))
            return outs
        if isinstance(st, (ast.For, ast.While)):
            if not self.relevant(f, st, names):
                return [s]
            if isinstance(st, ast.For):
                it = self.ev(f, st.iter, s)
                cnt = it
                while cnt[0] == 'call' and cnt[1] in ('list', 'tuple', 'iter', 'tqdm', 'trange', 'arange', 'reversed') and \
                        len([x for x in cnt[2:] if x[0] not in ('glob',)]) == 1:
                    cnt = [x for x in cnt[2:] if x[0] not in ('glob',)][0]
                if cnt[0] == 'call' and cnt[1] in ('range', 'xrange', 'arange'):
                    cnt = rangecount([x for x in cnt[2:] if x[0] not in ('glob',)], cnt)
            else:
                cnt = ('while', ast.dump(st.test))
                q = st.test
                if isinstance(q, ast.Compare) and len(q.ops) == 1 and isinstance(q.ops[0], ast.Lt) and \
                        isinstance(q.left, ast.Name) and self.ev(f, q.left, s) == ('const', 0) and any(
                            isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and ast.dump(n.target) == ast.dump(
                                ast.Name(q.left.id, ast.Store())) and isinstance(n.value, ast.Constant) and n.value.value == 1
                            for n in st.body):
                    cnt = self.ev(f, q.comparators[0], s)    # a counter from 0 to the bound
            hasrun = any(isinstance(c, ast.Call) and self.relcall(f, c) for c in ast.walk(st))
            outer = s.env.get('@loop')
            res = [s.copy()]                          # zero iterations
            cur = [s.copy()]
            for i in range(2 if hasrun else 1):
                for c in cur:
                    c.env['@loop'] = cnt if outer is None else ('nest', outer, cnt)
                    if isinstance(st, ast.For):
                        self.assign(f, st.target, ('iter', cnt, i), c)
                nxt = self.block(f, st.body, cur, names)
                cur = []
                for c in nxt:
                    c.env['@loop'] = outer
                    if outer is None:
                        c.env.pop('@loop', None)
                    if c.ctl == 'break':
                        c.ctl = None
                        res.append(c)
                    elif c.ctl in ('return', 'raise'):
                        res.append(c)
                    else:
                        c.ctl = None
                        cur.append(c)
            return res + cur
        if isinstance(st, ast.With):
            for it in st.items:
                if it.optional_vars is not None:
                    self.assign(f, it.optional_vars, self.ev(f, it.context_expr, s), s)
            return self.block(f, st.body, [s], names)
        if isinstance(st, ast.Try):
            outs = self.block(f, st.body, [s.copy()], names)
            if any(self.relevant(f, x, names) for h in st.handlers for x in h.body):
                for h in st.handlers:
                    outs += self.block(f, h.body, [s.copy()], names)
            live = self.block(f, st.orelse + st.finalbody, outs, names)
            return live
        if isinstance(st, ast.Raise):
            s.ctl = 'raise'
        elif isinstance(st, ast.Break):
            s.ctl = 'break'
        elif isinstance(st, ast.Continue):
            s.ctl = 'continue'
        return [s]

    def key(self, f, e, s):
        pol = True
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, pol = e.operand, not pol
        v = self.ev(f, e, s)
        if v[0] == 'cmp' and v[1] in ('NotEq', 'IsNot', 'NotIn'):
            v, pol = ('cmp', {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[v[1]]) + v[2:], not pol
        return v, pol


def rangecount(a, whole):
    """how many values range(*a) gives, as a value"""
    if len(a) == 1:
        return a[0]
    if len(a) == 2 and a[0][0] == 'const' and isinstance(a[0][1], int):
        k, b = a[0][1], a[1]
        if k == 0:
            return b
        if b[0] == 'bin' and b[1] == 'Add' and ('const', k) in b[2:]:
            return b[2] if b[3] == ('const', k) else b[3]
        return ('bin', 'Sub', b, ('const', k))
    return whole


def notknown(v):
    while isinstance(v, tuple) and v and v[0] == 'item':
        v = v[1]
    return not isinstance(v, tuple) or not v or v[0] in ('call', 'expr', 'glob', 'if', 'attr')


def optpath(v):
    """'mcmcOptions.nSteps' of an attribute value"""
    parts = []
    while isinstance(v, tuple) and v and v[0] == 'attr':
        parts.append(v[2])
        v = v[1]
    return '.'.join(parts[::-1])


def is_opt(v, name):
    if v is None:
        return False
    if v[0] == 'call' and v[1] in ('int', 'range', 'max') and len(v) > 2:
        return any(is_opt(x, name) for x in v[2:] if isinstance(x, tuple))
    return optpath(v).split('.')[-1] == name


def store_of(smp):
    d = dict(smp[3])
    b = d.get('backend')
    if b is None or b == ('const', None):
        return ('own', smp[1])
    if b[0] == 'store' and b[1] == 'mem':
        return ('mem', b[2])
    return b


def check_paths(w, f):
    """(obligation, ok, detail, line) per path"""
    a = f.node.args
    pn = [x.arg for x in a.posonlyargs + a.args]
    env = {n: ('arg', n) for n in pn}
    states = w.block(f, f.node.body, [St(env, [], {})], w.relnames(f))
    res = {}

    def put(k, good, detail='', line=0):
        cur = res.get(k)
        if cur is None or (cur[0] and not good) or (cur[0] is None and good is False):
            res[k] = (good, detail, line)
    npaths = 0
    for s in states:
        if s.ctl == 'raise':
            continue
        npaths += 1
        holds = [e for e in s.ev if e[0] == 'hold']
        if not holds:
            put('the fit object holds the samples', False, 'a path returns without setting sampler_dict')
            continue
        val = holds[-1][2]
        if val[0] != 'dict':
            put('the fit object holds the samples', None, 'sampler_dict is %s' % (val[:2],))
            continue
        put('the fit object holds the samples', True)
        put('the routine returns the fit object', s.ctl == 'return' and s.ret is not None and s.ret == ('arg', pn[0]),
            'returned value is %s' % (s.ret,))
        P = val[2]
        if P is None or P[0] != 'sampler':
            put('production store', None, 'unknown sampler')
            continue
        idict = next(i for i, e in enumerate(s.ev) if e[0] == 'dict' and e[1] == val)
        # a dict of an in-memory sampler is built when asked: steps before it count
        runs, prod, burn, lastburn = [], [], [], None
        stP = store_of(P)
        for i, e in enumerate(s.ev):
            if e[0] != 'run':
                continue
            cnt = e[4]
            whole = e[3] if e[3] is not None and e[3] != ('const', 1) else cnt
            phase = 'burn' if is_opt(whole, 'nBurn') or (cnt and is_opt(cnt, 'nBurn')) else \
                'prod' if is_opt(whole, 'nSteps') or (cnt and is_opt(cnt, 'nSteps')) else None
            runs.append((i, e, phase))
        unknown = [e for i, e, ph in runs if ph is None]
        for e in unknown:
            put('the number of steps is the user\'s', False if e[4] is None or e[4][0] not in ('nest', 'while', 'call', 'expr', 'if') else None,
                'run_mcmc takes %s steps in a loop over %s, neither nBurn nor nSteps' % (e[3], e[4]), e[6])
        if not unknown and runs:
            put('the number of steps is the user\'s', True)
        for i, e, ph in runs:
            if e[3] is not None and e[4] is not None and e[3] != ('const', 1):
                put('one stored step per iteration', False, 'a run of %s steps inside a loop of %s' % (e[3], e[4]), e[6])
            elif e[3] is not None:
                put('one stored step per iteration', True)
        for i, e, ph in runs:
            if ph != 'prod':
                continue
            st_, th = e[5].get('store', ('const', True)), e[5].get('thin_by', e[5].get('thin', ('const', 1)))
            plain = st_ == ('const', True) and th in (('const', 1), ('const', None))
            put('every production step is stored', True if plain else None if notknown(st_) or notknown(th) else False,
                'run_mcmc(store=%s, thin_by=%s)' % (st_, th), e[6])
        # which steps the production store holds when the samples are taken from it
        held = []
        for i, e in enumerate(s.ev[:idict]):
            if e[0] == 'reset' and (e[1] == P or (e[1][0] == 'store' and (e[1] == stP or e[1][1] == 'mem' and ('mem', e[1][2]) == stP))):
                held = []
            if e[0] == 'run' and store_of(e[1]) == stP:
                held.append(next(ph for j, x, ph in runs if j == i))
        put('no burn-in step in the returned chains', 'burn' not in held,
            'steps of the burn-in loop are in the store (%s) the samples are taken from' % (stP[:2],), val[1] and P[4])
        nsteps_possible = any(ph == 'prod' for j, x, ph in runs)
        if nsteps_possible:
            put('production steps are in the returned chains', 'prod' in held,
                'the production steps are not in the store the samples are taken from', P[4])
        put('no step is cut from the production chain', val[3] == ('const', 0), 'nBurn=%s is cut again' % (val[3],), P[4])
        later = [e for e in s.ev[idict:] if e[0] == 'run']
        put('samples are taken after the last step', not later, 'a run follows', later[0][6] if later else 0)
        # positions
        prev = None
        for i, e, ph in runs:
            pos = e[2]
            while pos is not None and pos[0] == 'item' and pos[2] == ('const', 0):
                pos = pos[1]
            want = prev
            if want is None:
                good = None if notknown(pos) else pos[0] == 'pos' and pos[1] == 0
                put('sampling starts from the walkers\' initial positions', good, 'starts from %s' % (pos and pos[:2],), e[6])
            else:
                good = None if notknown(pos) else pos[0] == 'pos' and pos[1] == want
                put('each run starts from the position the last one ended at', good,
                    'a run (%s) does not start from the last position' % (ph or '?'), e[6])
            for kk in ('lnprob0', 'rstate0', 'log_prob0'):
                if kk in e[5] and e[5][kk] != ('const', None):
                    v = e[5][kk]
                    idx = {'lnprob0': 1, 'log_prob0': 1, 'rstate0': 2}[kk]
                    put('probabilities and random state belong to the position', v[0] == 'item' and v[1][0] == 'pos'
                        and v[1][1] == want and v[2] == ('const', idx), '%s=%s' % (kk, v[:1]), e[6])
            prev = e[7]
        # samplers
        for e in [P] + [e[1] for e in s.ev if e[0] == 'run']:
            d = dict(e[3])
            nw = e[2][0] if len(e[2]) > 0 else d.get('nwalkers', d.get('nWalkers'))
            nd = e[2][1] if len(e[2]) > 1 else d.get('ndim', d.get('dim'))
            fn = e[2][2] if len(e[2]) > 2 else d.get('log_prob_fn', d.get('lnpostfn'))
            put('walkers and dimensions are the user\'s', is_opt(nw, 'nWalkers') and is_opt(nd, 'n_free_param'),
                '%s walkers, %s dimensions' % (optpath(nw), optpath(nd)), e[4])
            put('the sampled function is the log-probability', fn == ('glob', 'lnprob'), '%s' % (fn,), e[4])
            mv, sc = d.get('moves'), d.get('a')
            if mv is None and sc is None:
                put('proposals use the user\'s scale', False, 'sampler built without moves or a', e[4])
            elif sc is not None:
                put('proposals use the user\'s scale', None if notknown(sc) and sc[0] != 'attr' else is_opt(sc, 'scale_param_a'), '%s' % (sc[:2],), e[4])
            elif mv[0] == 'call' and mv[1] == 'StretchMove':
                parts = [x[1] if len(x) == 2 and x[0] == 'a' else x for x in mv[2:] if isinstance(x, tuple)]
                put('proposals use the user\'s scale', any(is_opt(x, 'scale_param_a') for x in parts), 'StretchMove without the user\'s scale', e[4])
            else:
                put('proposals use the user\'s scale', None, '%s' % (mv[:2],), e[4])
            ar = d.get('args')
            good = ar is not None and ar[0] == 'tuple' and len(ar) == 2 and (
                ar[1] == ('arg', pn[1]) if len(pn) > 1 and s.facts.get(('cmp', 'Is', ('arg', pn[1]), ('const', None))) is not True
                else ar[1][0] == 'call' and ar[1][1] == 'make_pruned_fitEmis2D_class')
            put('the sampled fit is the pruned one', good or None, '%s' % (ar,), e[4])
        # files of an earlier run
        over = [v for k, v in s.facts.items() if k[0] == 'attr' and is_opt(k, 'overwrite')]
        for i, e in enumerate(s.ev):
            if e[0] == 'reset' and e[1][0] == 'store':
                if e[1][1] == 'hdf':
                    put('stored steps are erased only when overwriting', over[0] if over else None, 'reset without overwrite', e[3])
                if len(e[2]) == 2:
                    put('stores are sized for the walkers and free parameters', is_opt(e[2][0], 'nWalkers') and is_opt(e[2][1], 'n_free_param'),
                        'reset(%s, %s)' % (optpath(e[2][0]), optpath(e[2][1])), e[3])
        if over and over[0]:
            for i, e, ph in runs:
                if store_of(e[1])[0] == 'store':
                    put('overwriting starts from empty stores', any(x[0] == 'reset' and x[1] == store_of(e[1]) for x in s.ev[:i]),
                        'steps are added to the store of an earlier run (%s)' % (store_of(e[1])[3],), e[6])
        # saving
        dumps = [(i, e) for i, e in enumerate(s.ev) if e[0] == 'dump' and e[1] == val]
        nofile = [v for k, v in s.facts.items() if k[0] == 'cmp' and k[1] == 'Is' and is_opt(k[2], 'filename_sampler')]
        if not (nofile and nofile[0]):
            put('samples are saved when a file is set', bool(dumps), 'no dump of the production samples on a path where filename_sampler may be set', P[4])
            for i, e in dumps:
                put('samples are saved to the user\'s file', is_opt(e[2], 'filename_sampler'), 'written to %s' % optpath(e[2]), e[3])
                an = [x for x in s.ev[:i] if x[0] == 'analysis' and any(isinstance(y, tuple) and y == val for y in x[2])]
                an += [x for x in s.ev[:i] if x[0] == 'analysis' and runs and s.ev.index(x) > runs[-1][0] and runs[-1][2] == 'prod']
                put('samples are saved before any plotting', not an, '%s comes first' % (an and an[0][1]), an[0][3] if an else 0)
    return res, npaths


@rule('C08 C22 C06')
def sampling_stores(ctx, prop):
    fs = [f for f in ctx.prog.all_funcs() if f.cls is None and any(
        isinstance(c, ast.Call) and callname(c) == 'EnsembleSampler' for c in ast.walk(f.node))]
    roots = []
    for f in fs:
        # the function that also keeps the samples (a helper that only builds samplers is walked from its caller)
        if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'sampler_dict' for n in ast.walk(f.node)):
            roots.append(f)
    for nm in ('_run_mcmc_emcee_3', '_run_mcmc_emcee_221'):
        try:
            g = ctx.prog.func('fit.fit_core.' + nm)
            if g not in roots:
                roots.append(g)
        except Exception:
            pass
    if not roots:
        yield undecided('sampling routines', '', 'no function builds an EnsembleSampler')
    for f in roots:
        try:
            w = Walk(ctx.prog, f)
            res, n = check_paths(w, f)
        except (Give, RecursionError, StopIteration) as e:
            yield undecided('%s: sampling' % f.qual, f.where, str(e))
            continue
        for k, (good, detail, line) in sorted(res.items()):
            key = '%s: %s' % (f.qual[len(PKG) + 1:], k)
            where = '%s:%d (%s)' % (f.module.rel, line or f.node.lineno, f.node.name)
            if prop == 'C22' and not any(x in k for x in ('save', 'hold', 'store')):
                continue
            if prop == 'C06' and not any(x in k for x in ('user', 'overwrit')):
                continue
            if good:
                yield ok(key, where, '%d paths' % n)
            elif good is None:
                yield undecided(key, where, detail)
            else:
                yield bad(key, where, detail)
