"""Decide agreement of two value terms: equal / differ / undecided.

`differ` is only returned when the difference is expressed in operators whose laws the normal form
decides (or that the specification itself uses); anything else is `undecided`, never a violation.
"""
import itertools, re
from . import terms as t
from .terms import T, TRUE, FALSE, NONE, mk

BASE_OPS = {'num', 'poly', 'sym', 'attr', 'item', 'slice', 'const', 'bool', 'ite', 'and', 'or', 'not', 'pos', 'nonneg',
            'zero', 'eq', 'isnone', 'len', 'tuple', 'list', 'wh', 'count', 'rank', 'in', 'pow', 'iv', 'bv', 'select',
            'fn', 'cls', 'mod', 'override', 'copyof', 'deleted', 'T', 'missing', 'mod_', 'floordiv', 'accv', 'strfmt', 'rows', 'cols', 'scrambled', 'backwards'}
BASE_CALLS = {'numpy.' + x for x in '''abs sqrt exp log log10 log2 sin cos arcsin arccos arctan arctan2 sum mean
 average median std max min all any floor ceil round isfinite isnan isinf sign where percentile argmin argmax sort
 argsort cumsum prod var zeros ones random.random_sample random.randn random.normal'''.split()} | {'builtins.int', 'builtins.max', 'builtins.min', 'builtins.str',
                                                                                                 'os.path.isfile', 'os.path.exists'}
LOOPY = {'loop', 'listmap', 'listfilter', 'sumloop', 'last', 'flatmap', 'mu', 'append', 'store', 'closure', 'apply'}


class Verdict:
    def __init__(self, kind, detail='', pairs=()):
        self.kind, self.detail, self.pairs = kind, detail, pairs

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.detail)


def atoms_of(cond, out):
    if cond.op in ('and', 'or', 'not'):
        for a in cond.args:
            atoms_of(a, out)
    elif cond.op == 'ite':
        for a in cond.args:
            atoms_of(a, out)
    elif cond.op not in ('bool',):
        out.add(cond)


def gate_atoms(x):
    out = set()
    for s in t.subterms(x):
        if s.op == 'ite':
            atoms_of(s.args[0], out)
    return out


def consistent(assign):
    pos = {}
    for a, v in assign.items():
        if a.op in ('pos', 'nonneg', 'zero'):
            pos[(a.op, a.args[0])] = v
    for (op, p), v in pos.items():
        n = t._poscanon(t.neg(p))
        if op == 'pos' and v and pos.get(('pos', n)):
            return False
        if op == 'pos' and v and (pos.get(('zero', p)) or pos.get(('zero', n))):
            return False
    # finite numbers are numbers
    for a, v in assign.items():
        if v and a.op == 'call' and a.args[0] == 'numpy.isnan' and assign.get(mk('call', 'numpy.isfinite', *a.args[1:])):
            return False
    # x == c1 and x == c2
    eqs = {}
    for a, v in assign.items():
        if a.op == 'eq' and v:
            x, y = a.args
            for u, w in ((x, y), (y, x)):
                if w.op in ('const', 'num', 'bool'):
                    if u in eqs and eqs[u] is not w:
                        return False
                    eqs[u] = w
        if a.op == 'isnone' and v:
            u = a.args[0]
            if u in eqs and eqs[u] is not NONE:
                return False
            eqs[u] = NONE
    # falsity under known values
    for a, v in assign.items():
        if a.op == 'eq' and not v:
            x, y = a.args
            for u, w in ((x, y), (y, x)):
                if w.op in ('const', 'num', 'bool') and eqs.get(u) is w:
                    return False
    # in-range chains: pos(x) false and pos(x+c) ... not modelled
    return True


def cofactors(a, b, limit=9):
    """Case split on the gate conditions of both terms."""
    todo = [({}, a, b)]
    n = 0
    while todo:
        asg, x, y = todo.pop()
        if x is y:
            yield asg, x, y
            continue
        at = sorted(gate_atoms(x) | gate_atoms(y), key=lambda s: (s.size, s.dg))
        at = [s for s in at if s not in asg]
        if not at:
            yield asg, x, y
            continue
        n += 1
        if n > 2 ** limit:
            raise t.LimitHit('case split')
        c = at[0]
        for v in (True, False):
            na = dict(asg)
            na[c] = v
            if not consistent(na):
                continue
            m = {c: TRUE if v else FALSE}
            x2, y2 = t.subst(x, m), t.subst(y, m)
            eqn = rewriting(c) if v else None
            if eqn:
                x2, y2 = t.subst(x2, eqn), t.subst(y2, eqn)
            todo.append((na, x2, y2))


def rewriting(c):
    """The replacement a true gate condition licenses: {larger: smaller}."""
    if c.op == 'isnone' and c.args[0] is not NONE:
        return {c.args[0]: NONE}
    if c.op == 'eq':
        p, q = c.args
    elif c.op == 'zero' and c.args[0].op == 'poly':
        ms = c.args[0].args[0]
        if len(ms) != 2 or any(abs(k) != 1 or len(m) != 1 or m[0][1] != 1 for m, k in ms):
            return None
        (m1, k1), (m2, k2) = ms
        if k1 * k2 != -1:
            return None
        p, q = m1[0][0], m2[0][0]
    else:
        return None
    if (p.size, p.dg) < (q.size, q.dg) or p.op in ('num', 'const', 'bool'):
        p, q = q, p
    if p.op in ('num', 'const', 'bool') or any(s is p for s in t.subterms(q)):
        return None
    return {p: q}


def boolean_equal(a, b, limit=12):
    """Propositional equality of two conditions over their atoms."""
    sa, sb = set(), set()
    atoms_of(a, sa)
    atoms_of(b, sb)
    at = sorted(sa | sb, key=lambda s: s.dg)
    if len(at) > limit or not at:
        return a is b
    for vals in itertools.product((True, False), repeat=len(at)):
        asg = dict(zip(at, vals))
        if not consistent(asg):
            continue
        m = {k: TRUE if v else FALSE for k, v in asg.items()}
        if t.subst(a, m) is not t.subst(b, m):
            return False
    return True


BOOLOPS = ('and', 'or', 'not', 'pos', 'nonneg', 'zero', 'eq', 'isnone', 'in')


def equal(a, b, norm=None):
    if a is b:
        return True
    if norm:
        a, b = norm(a), norm(b)
        if a is b:
            return True
    if a.op in BOOLOPS and b.op in BOOLOPS and boolean_equal(a, b):
        return True
    try:
        for asg, x, y in cofactors(a, b):
            if x is not y and not _struct_equal(x, y, norm):
                return False
        return True
    except t.LimitHit:
        return False


def _struct_equal(x, y, norm):
    """Equal up to boolean equality inside (masks as array values)."""
    if x is y:
        return True
    if x.op in BOOLOPS and y.op in BOOLOPS and boolean_equal(x, y):
        return True
    if x.op != y.op or x.op == 'poly':
        if x.op == 'poly' and y.op == 'poly' and len(x.args[0]) == len(y.args[0]) and len(x.args[0]) <= 6:
            return _poly_match(x, y, norm)
        return False
    return len(x.args) == len(y.args) and all(_arg_equal(p, q, norm) for p, q in zip(x.args, y.args))


def _arg_equal(p, q, norm):
    if isinstance(p, T) and isinstance(q, T):
        return _struct_equal(p, q, norm)
    if isinstance(p, tuple) and isinstance(q, tuple):
        return len(p) == len(q) and all(_arg_equal(u, v, norm) for u, v in zip(p, q))
    return p == q


def _poly_match(x, y, norm):
    ys = list(y.args[0])
    for m, c in x.args[0]:
        for i, (m2, c2) in enumerate(ys):
            if c == c2 and len(m) == len(m2) and _mono_match(m, m2, norm):
                del ys[i]
                break
        else:
            return False
    return True


def _mono_match(m, m2, norm):
    r = list(m2)
    for a, e in m:
        for i, (b, e2) in enumerate(r):
            if e == e2 and _struct_equal(a, b, norm):
                del r[i]
                break
        else:
            return False
    return True


def diffs(a, r, out, depth=0):
    """Minimal differing subterm pairs."""
    if a is r:
        return
    if depth > 60:
        out.append((a, r))
        return
    if a.op == r.op and a.op == 'poly':
        pa, pr = dict(a.args[0]), dict(r.args[0])
        oa = [(m, c) for m, c in pa.items() if pr.get(m) != c]
        orr = [(m, c) for m, c in pr.items() if pa.get(m) != c]
        if len(oa) == 1 and len(orr) == 1:
            (ma, ca), (mr, cr) = oa[0], orr[0]
            if ca == cr:
                da = [x for x in ma if x not in mr]
                dr = [x for x in mr if x not in ma]
                if len(da) == 1 and len(dr) == 1 and da[0][1] == dr[0][1]:
                    diffs(da[0][0], dr[0][0], out, depth + 1)
                    return
        out.append((t._frompoly(dict(oa)), t._frompoly(dict(orr))))
        return
    if a.op == r.op == 'loop':
        # aligned from the outside in: the first part that differs explains the rest
        da, la, ba, ca = a.args
        dr, lr, br, cr = r.args
        if la != lr:
            out.append((a, r))
            return
        if da is not dr:
            diffs(da, dr, out, depth + 1)
            return
        if ba is not br:
            diffs(ba, br, out, depth + 1)
            return
        for (ia, ua), (ir, ur) in zip(ca, cr):
            if ua is not ur:
                diffs(ua, ur, out, depth + 1)
                return
            if ia is not ir:
                diffs(ia, ir, out, depth + 1)
                return
        out.append((a, r))
        return
    if a.op == r.op == 'store':
        (ra, ca), (rr, cr) = _chain(a), _chain(r)
        if ra is rr and len(ca) != len(cr):
            # something stored in one and not in the other
            if _subseq(ca, cr) or _subseq(cr, ca):
                out.append((a, r))
                return
        if len(ca) != len(cr) or any(_kind(i) != _kind(j) for (i, _), (j, _) in zip(ca, cr)):
            out.append((a, r))
            return
        if ca != cr and sorted(ca, key=_pdg) == sorted(cr, key=_pdg):
            out.append((a, r))
            return
    if a.op == r.op and len(a.args) == len(r.args):
        if a.op in ('and', 'or'):
            da = [x for x in a.args if x not in r.args]
            dr = [x for x in r.args if x not in a.args]
            if len(da) == 1 and len(dr) == 1:
                diffs(da[0], dr[0], out, depth + 1)
                return
            out.append((a, r))
            return
        sub = []
        ok = True
        for x, y in zip(a.args, r.args):
            if not _argdiff(x, y, sub, depth):
                ok = False
                break
        if ok and sub:
            out.extend(sub)
            return
    out.append((a, r))


def _chain(x):
    """What was stored into what: root, [(index, value), ..]"""
    out = []
    while x.op == 'store':
        out.append((x.args[1], x.args[2]))
        x = x.args[0]
    return x, out[::-1]


def _pdg(p):
    return (p[0].dg, p[1].dg)


def _kind(i):
    """Element, slice or several of them."""
    if i.op == 'tuple':
        return ('tuple',) + tuple(_kind(x) for x in i.args)
    return i.op if i.op in ('slice', 'wh', 'list') else 'one'


def _subseq(x, y):
    it = iter(y)
    return all(any(p[0] is q[0] and p[1] is q[1] for q in it) for p in x)


def _subseq1(x, y):
    it = iter(y)
    return all(any(p is q for q in it) for p in x)


def _argdiff(x, y, out, depth):
    if isinstance(x, T) and isinstance(y, T):
        diffs(x, y, out, depth + 1)
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        return all(_argdiff(p, q, out, depth) for p, q in zip(x, y))
    return x == y


def vocab(x):
    """Operators used by a term."""
    ops = set()
    for s in t.subterms(x):
        if s.op == 'call':
            ops.add('call:' + s.args[0])
            for k, _ in s.args[2]:
                ops.add('kw:' + k)
        elif s.op == 'mcall':
            ops.add('.' + s.args[1])
        elif s.op == 'new':
            ops.add('new:' + s.args[0])
        else:
            ops.add(s.op)
    return ops


def foreign(x, refvocab, known_fns=()):
    """Operators of x neither interpreted nor used by the specification."""
    out = set()
    for o in vocab(x):
        if o in refvocab or o in BASE_OPS:
            continue
        if o.startswith('call:'):
            f = o[5:]
            if f in BASE_CALLS or f in known_fns:
                continue
        if o.startswith('kw:') and o[3:] in ('axis', 'a', 'q', 'weights', 'shape'):
            continue
        if o.startswith('new:'):
            continue
        out.add(o)
    return out


def trivially_initial(x):
    return x.op in ('attr', 'sym', 'num', 'const', 'bool', 'missing') or x.op in ('list', 'tuple') and not x.args


LOOPTERM = {'loop', 'listmap', 'listfilter', 'sumloop', 'last', 'flatmap', 'append', 'closure', 'store', 'dictof'}


def loops(x):
    return {s for s in t.subterms(x) if s.op in LOOPTERM}


def toploops(x):
    out, st, seen = set(), [x], set()
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op in LOOPTERM:
            out.add(y)
            continue
        st.extend(t.children(y))
    return out


def decide_pair(asg, p, q, rv, known_fns, la, lr):
    """-> (decided, why): is the difference p/q expressed in laws the normal form decides?"""
    for x, y in ((p, q), (q, p)):
        if x.op == 'last' and any(s.op == 'sumloop' and s.args[0] is x.args[0] and s.args[2] is x.args[2] for s in t.subterms(y)):
            return True, 'each round replaces what the other adds up'
    if _added(p, q):
        return True, 'an extra step on the value'
    for x, y in ((p, q), (q, p)):
        if x.op == 'seqmul' and y.op == 'listmap':
            one = [e for e in x.args if isinstance(e, T) and e.op in ('list', 'tuple') and len(list(t.children(e))) == 1]
            if one and all(any(o.startswith('call:numpy.random.') for o in vocab(z)) for z in (one[0], y.args[2])):
                return True, 'drawn once instead of for every entry'
    f = foreign(p, rv, known_fns)
    if f:
        return False, 'operators outside the specification: %s' % sorted(f)
    if p.op == 'poly' or q.op == 'poly':
        dp, dq = t._aspoly(p), t._aspoly(q)
        if len(dp) != len(dq) and (dp.items() <= dq.items() or dq.items() <= dp.items()) and dp and dq:
            doms = [l.args[0] for m in set(dp) ^ set(dq) for x, k in m for l in toploops(x) if l.op != 'store' and l.args]
            if not any(isinstance(d, T) and _mentions(c, d) for d in doms for c, val in asg.items()):
                return True, 'a part of the sum missing'
    tp, tq = toploops(p), toploops(q)
    up, uq = tp - lr, tq - la
    if up or uq:
        if uq == {q} and not up and q.op == 'store' and q.args[2].op in ('num', 'const') and (
                p is q.args[0] or p in set(t.subterms(q.args[0])) or p.op in ('select', 'item') and p.args[0] is q.args[0]):
            return True, 'left unset, or dropped instead of set'
        triv = (uq and not up and trivially_initial(p)) or (up and not uq and trivially_initial(q))
        if not triv:
            if not up - {p} and not uq - {q} and (_written(p, q) or _written(q, p)):
                return 'weak', 'written in one and not in the other'
            if p.op == q.op == 'list' and len(p.args) != len(q.args) and (
                    _subseq1(p.args, q.args) or _subseq1(q.args, p.args)):
                return 'weak', 'a part missing from one'
            return False, 'loops that do not line up'
        for l in up | uq:
            if l.op in ('loop', 'listmap', 'listfilter', 'sumloop', 'last', 'flatmap'):
                dom = l.args[0]
                if any(_mentions(c, dom) for c, val in asg.items() if not (c.op == 'isnone' and not val)):
                    return False, 'loop replaced under a condition on its range'
            else:
                return False, 'container built differently'
    if ('unbound' in vocab(p)) != ('unbound' in vocab(q)):
        return False, 'possibly unassigned value'
    return True, ''


STEPS = {'builtins.sorted', 'builtins.reversed', 'builtins.round', 'builtins.set', 'builtins.abs'} | {
    'numpy.' + x for x in 'sort flip unique abs clip round rint floor ceil cumsum roll fliplr flipud normalize swapaxes moveaxis rollaxis rot90 tril triu diff gradient'.split()}


def _added(p, q):
    """Is p the very value q put through one step that changes what it holds?"""
    if p.op == 'call' and p.args[0] == 'builtins.getattr' and len(p.args[1]) == 3:
        return p.args[1][2] is q     # what is there already comes first
    if p.op == 'call' and p.args[0] in STEPS:
        return any(x is q for x in p.args[1]) or any(k in ('a', 'ar', 'x', 'm') and x is q for k, x in p.args[2])
    return p.op == 'seqmul' and len(p.args) == 2 and any(x is q for x in p.args)


def _written(x, y):
    """y is what the loop has so far (x), with something stored in it."""
    if y.op != 'store':
        return False
    ry, cy = _chain(y)
    rx, cx = _chain(x)
    return rx is ry and rx.op == 'mu' and _subseq(cx, cy)


_SHAPES, _SHAPEMEMO = {}, {}


def _shape(x, values):
    """What a condition looks like with the inside of its loops (and its constants) left out (a number)."""
    memo = _SHAPEMEMO
    todo = [x]
    while todo:
        y = todo[-1]
        if (y, values) in memo:
            todo.pop()
            continue
        if y.op in LOOPTERM:
            k = (y.op,)
        elif y.op in ('num', 'const'):
            k = (y.op, y.dg if values else '')
        else:
            kids = list(t.children(y))
            rest = [c for c in kids if (c, values) not in memo]
            if rest:
                todo.extend(rest)
                continue
            k = (y.op,) + tuple(memo[(c, values)] for c in kids) + tuple(str(a) for a in y.args if isinstance(a, str))
        memo[(y, values)] = _SHAPES.setdefault(k, len(_SHAPES))
        todo.pop()
    return memo[(x, values)]


def pair_gates(ga, gr):
    """Conditions of the two sides paired up by what they look like, or None."""
    def table(g, values):
        out = {}
        for x in g:
            out.setdefault(_shape(x, values), []).append(x)
        return out
    for values in (True, False):
        ta, tr = table(ga, values), table(gr, values)
        if set(ta) == set(tr) and all(len(v) == 1 for v in list(ta.values()) + list(tr.values())):
            return [(ta[k][0], tr[k][0]) for k in ta]
    return None


def _mentions(c, dom):
    ds = {x for x in _sources(dom) if x.op in ('sym', 'attr', 'len', 'item', 'call', 'mcall')}
    return any(x in ds for x in _sources(c))


def _sources(x):
    """Subterms, an attribute taken whole: the object it is read from is not a value of its own."""
    out, st = set(), [x]
    while st:
        y = st.pop()
        if y not in out:
            out.add(y)
            if y.op != 'attr':
                st.extend(t.children(y))
    return out


UNSEEN = {'closure', 'apply', 'acc', 'new', 'override', 'dynattr', 'rest', 'unbound', 'missing', 'deleted', 'exc', 'foreign',
          'bound', 'keys', 'items', 'key', 'dict', 'dictof', 'vararg', 'setdict', 'undef'}
SHAPE = {'numpy.shape', 'numpy.size', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.ndim', 'builtins.len',
         'numpy.array_equal'}
COUNTS = re.compile(r'n(_|[A-Z]|$)|num|pad|len|dim', re.I)


def inputs(x, refside):
    """Attribute chains and arguments the value is computed from.  On the side of the specification only those whose
    values enter it: not the ones only asked for their shape, not the ones only tested."""
    out, seen, st = set(), set(), [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op in ('attr', 'sym'):
            if refside and y.op == 'attr' and y.args[1] in ('shape', 'size', 'ndim', 'dtype'):
                continue
            b = y
            while b.op == 'attr':
                b = b.args[0]
            out.add(y)
            if b.op != 'sym':
                st.append(b)
            continue
        kids = list(t.children(y))
        if refside and (y.op == 'len' or y.op == 'call' and y.args[0] in SHAPE):
            continue
        if refside and y.op == 'ite':
            kids = [k for k in kids if k is not y.args[0]]
        st.extend(kids)
    return out


def _within(x, y):
    """x is y or something inside the object y."""
    while True:
        if x is y:
            return True
        if x.op != 'attr':
            return False
        x = x.args[0]


def dropped_input(a, r):
    """An input the specified value is computed from while the actual one has no way of seeing it (and sees no others)."""
    if any(s.op in UNSEEN for s in t.subterms(a)):
        return None
    ia, ir, every = inputs(a, False), inputs(r, True), inputs(r, False)
    if not ia or any(not any(_within(x, y) for y in every) for x in ia):
        return None
    for x in sorted(ir, key=lambda z: z.dg):
        if not any(_within(x, y) or _within(y, x) for y in ia) and not COUNTS.match(x.args[1] if x.op == 'attr' else x.args[0]):
            return x
    return None


def compare(actual, ref, known_fns=(), extra_vocab=(), norm=None):
    actual = _deeper(actual, ref)
    v = compare1(actual, ref, known_fns, extra_vocab, norm)
    if v.kind == 'undecided':
        a, r = (norm(actual), norm(ref)) if norm else (actual, ref)
        x = dropped_input(a, r)
        if x is not None:
            return Verdict('differ', 'computed without %s: %s' % (t.show(x, 4), v.detail), v.pairs or [({}, a, r)])
        one = single_point(a, r, known_fns, extra_vocab)
        if one is not None:
            return Verdict('differ', 'as specified but for one place: got %s, expected %s' % (t.show(one[0], 5), t.show(one[1], 5)),
                           [({}, one[0], one[1])])
        x, y = elementwise(a), elementwise(r)
        if x is not a and y is not r:
            w = compare1(x, y, known_fns, extra_vocab, None)
            if w.kind == 'equal':
                return w
            if w.kind == 'differ':
                return Verdict('differ', 'element by element: ' + w.detail, w.pairs)
    return v


def elementwise(x):
    """Values stored where a condition holds, read as the value of one element."""
    m = {}
    for s in t.subterms(x):
        if s.op == 'store':
            b, i, v = s.args
            if i.op == 'call' and i.args[0] == 'numpy.where' and len(i.args[1]) == 1 and not i.args[2]:
                i = i.args[1][0]
            if i.op in BOOLOPS and v.op == 'num':
                m[s] = (i, v, b)
        elif s.op == 'select':
            m[s] = s.args
        elif s.op == 'poly':
            # a condition as a factor is one or zero
            for mono, c in s.args[0]:
                for f, k in mono:
                    if f.op in BOOLOPS:
                        m[f] = (f, t.ONE, t.ZERO)
    if not m:
        return x
    memo = {}

    def go(y):
        if y not in memo:
            if y in m:
                c, v, b = m[y]
                memo[y] = t.ite(c if c is y else go(c), go(v), go(b))
            else:
                cs = t.children(y)
                memo[y] = t.subst(y, {c: go(c) for c in cs if go(c) is not c}) if cs else y
        return memo[y]
    return go(x)


def _minimal(x, y):
    """The innermost subterms of x that y does not have."""
    mine, other = set(t.subterms(x)), set(t.subterms(y))
    new = mine - other
    return sorted([s for s in new if not any(c in new for c in t.children(s))], key=lambda s: (s.size, s.dg))


def _dropped(x, y):
    other = set(t.subterms(y))
    out = [s for s in t.subterms(x) if s.op in DROPS and s not in other]
    return sorted(out, key=lambda s: (s.size, s.dg))[:8]


DROPS = {'store', 'append', 'extend'}


def single_point(a, r, known_fns=(), extra_vocab=()):
    """(p, q) if the actual value is the specified one with q replaced by p at one place, and that is a difference the
    normal form decides."""
    ma, mr = _minimal(a, r), _minimal(r, a)
    if len(ma) > 3 or len(mr) > 3:
        ma = mr = ()
    tries = [(p, q) for q in mr for p in ma if p.op not in DROPS or p.op == q.op]
    tries += [(q.args[0], q) for q in _dropped(r, a)]
    # the position itself where the entry at that position of a table built here is asked for
    look = {q for q in t.subterms(r) if q.op == 'item' and q.args[0].op in LOOPTERM - {'store'} and isinstance(q.args[1], T)}
    for q in sorted(look - set(t.subterms(a)), key=lambda s: (s.size, s.dg))[:4]:
        if t.subst(r, {q: q.args[1]}) is a:
            return q.args[1], q
    doms = [l.args[0] for l in loops(a) | loops(r) if l.op not in ('store', 'append', 'closure', 'dictof')]
    for p, q in tries:
        if p.op in ('loop', 'mu', 'listmap', 'sumloop', 'flatmap', 'listfilter', 'last') or q.op in (
                'loop', 'listmap', 'sumloop', 'flatmap', 'listfilter', 'last', 'closure', 'unbound', 'missing'):
            if not q.op in DROPS:
                continue
        moved = t.subst(r, {q: p})
        if moved is not a and not (q.op in DROPS and p is q.args[0] and moved is not r and equal(moved, a)):
            continue
        if q.op in BOOLOPS and any(isinstance(d, T) and _mentions(q, d) for d in doms):
            continue
        if foreign(p, vocab(r) | set(extra_vocab), known_fns):
            continue
        if q.op not in DROPS and p.op != q.op and not (p.op in ('num', 'const', 'sym', 'attr', 'poly', 'item', 'select')
                                                        or p.op == 'call' and p.args[0] in BASE_CALLS):
            continue
        return p, q
    for p in ma:
        for q in mr:
            # a bound on a count that now takes (or no longer takes) the limit itself
            if p.op == 'poly' and t.neg(p) is q and all(f.op == 'len' for m, c in p.args[0] for f, k in m):
                for x, y in ((mk('pos', q), t.not_(mk('pos', p))), (mk('pos', p), t.not_(mk('pos', q)))):
                    if t.subst(r, {x: y}) is a or t.subst(r, {y: x}) is a:
                        return y, x
    for p in _dropped(a, r):
        if t.subst(a, {p: p.args[0]}) is r and not foreign(p, vocab(r) | set(extra_vocab), known_fns):
            return p, p.args[0]
    return None


def _deeper(a, r):
    """A deep copy serves where the specification asks for a copy."""
    m = {s: mk('copyof', 'copy', s.args[1]) for s in t.subterms(a) if s.op == 'copyof' and s.args[0] == 'deepcopy'}
    if m:
        have = t.subterms(r)
        have = have if isinstance(have, (set, frozenset)) else set(have)
        m = {k: v for k, v in m.items() if v in have and k not in have}
    return t.subst(a, m) if m else a


def compare1(actual, ref, known_fns=(), extra_vocab=(), norm=None):
    if equal(actual, ref, norm):
        return Verdict('equal')
    a, r = (norm(actual), norm(ref)) if norm else (actual, ref)
    rv = vocab(r) | set(extra_vocab)
    la, lr = loops(a), loops(r)
    # gates that are loops: matched one to one or not decided at all
    ga = {x for x in gate_atoms(a) if toploops(x) - lr}
    gr = {x for x in gate_atoms(r) if toploops(x) - la}
    pairs = []
    strict = False
    if gr and not ga and a.op in ('attr', 'sym') and not r.op == 'missing' and not foreign(a, rv, known_fns):
        # left as it was, where the specification sets it
        return Verdict('differ', 'got %s, expected %s' % (t.show(a, 4), t.show(r, 5)), [({}, a, r)])
    if ga or gr:
        both = [(next(iter(ga)), next(iter(gr)))] if len(ga) == 1 and len(gr) == 1 else pair_gates(ga, gr)
        if not both:
            one = single_point(a, r, known_fns, rv)
            if one:
                return Verdict('differ', 'one step changed: got %s, expected %s' % (t.show(one[0], 6), t.show(one[1], 6)), [({}, a, r)])
            return Verdict('undecided', 'conditions computed by loops that do not line up')
        strict = len(both) > 1
        sub = []
        for x, y in both:
            diffs(x, y, sub)
        pairs = [({}, p, q, la, lr) for p, q in sub if not _struct_equal(p, q, norm)]
    else:
        # narrow to differing cofactors
        try:
            for asg, x, y in cofactors(a, r):
                if x is y or _struct_equal(x, y, norm):
                    continue
                sub = []
                diffs(x, y, sub)
                for p, q in sub:
                    if not _struct_equal(p, q, norm):
                        pairs.append((asg, p, q, la | loops(x), lr | loops(y)))
                if len(pairs) > 12:
                    break
        except t.LimitHit:
            return Verdict('undecided', 'case split too large')
    if not pairs:
        return Verdict('undecided', 'no minimal difference')
    decided, why = False, ''
    weak, every = False, True
    show = []
    for asg, p, q, lx, ly in pairs:
        ok, w = decide_pair(asg, p, q, rv, known_fns, lx, ly)
        weak = weak or ok == 'weak'
        every = every and bool(ok)
        # the case itself must be expressed in known terms
        if ok:
            for c in asg:
                f = foreign(c, rv, known_fns)
                if f:
                    ok, w = False, 'case distinguished by %s' % sorted(f)
                    every = False
                    break
        if ok:
            decided = True
            show.insert(0, (asg, p, q))
        else:
            why = w
            show.append((asg, p, q))
    pairs = [x[:3] for x in pairs]
    if decided and (weak or strict) and not every:
        decided, why = False, 'only partly lined up'
    shown = '; '.join('%sgot %s, expected %s' % (
        ('when ' + ' and '.join(('' if v else 'not ') + t.show(c, 4) for c, v in sorted(asg.items(), key=lambda kv: kv[0].dg)[:3]) + ': ') if asg else '',
        t.show(p, 6), t.show(q, 6)) for asg, p, q in show[:2])
    if decided:
        return Verdict('differ', shown, pairs)
    if pairs and not any(foreign(c, rv, known_fns) for asg, p, q in pairs for c in asg) and all(
            single_point(p, q, known_fns, rv) for asg, p, q in pairs):
        return Verdict('differ', 'one step changed: ' + shown, pairs)
    return Verdict('undecided', why + ' | ' + shown, pairs)
