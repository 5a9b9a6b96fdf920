"""Hash-consed value terms with an algebraic normal form.

Numeric terms are kept as polynomials with rational coefficients over atoms with rational
exponents; commutative, associative and sign laws therefore hold by construction.
"""
from fractions import Fraction
import hashlib

_TABLE = {}


class T:
    __slots__ = ('op', 'args', 'dg', 'size')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        h = hashlib.sha1()
        h.update(op.encode())
        n = 1
        for a in args:
            n += _feed(h, a)
        t.dg = h.hexdigest()
        t.size = n
        _TABLE[key] = t
    return t


def _feed(h, a):
    if isinstance(a, T):
        h.update(b'T' + a.dg.encode())
        return a.size
    if isinstance(a, tuple):
        h.update(b'(')
        n = 0
        for x in a:
            n += _feed(h, x)
        h.update(b')')
        return n
    h.update(repr(type(a).__name__).encode() + repr(a).encode())
    return 0


def num(x):
    if isinstance(x, Fraction):
        return mk('num', x)
    if isinstance(x, int):
        return mk('num', Fraction(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('const', repr(x))
        return mk('num', Fraction(repr(x)))
    raise TypeError(x)


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk('const', v) if not isinstance(v, bool) else mk('bool', v)
    if isinstance(v, (int, float)):
        return num(v)
    return mk('const', repr(v))


TRUE, FALSE, NONE = const(True), const(False), const(None)
ZERO, ONE, MINUS1 = num(0), num(1), num(-1)
PI = mk('sym', 'pi')
INF = mk('sym', 'inf')
NAN = mk('sym', 'nan')


def sym(n):
    return mk('sym', n)


# ------------------------------------------------------------------ polynomials
def _aspoly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, Fraction(1)),): Fraction(1)}


def _frompoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(p.items(), key=lambda kv: _mkey(kv[0]))))


def _mkey(m):
    return tuple((a.dg, e) for a, e in m)


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].dg))


def is_seq(t):
    return t.op in ('list', 'concat', 'tuple', 'strfmt', 'listmap', 'listfilter') or \
        (t.op == 'const' and isinstance(t.args[0], (str, bytes)))


def add(*ts):
    if any(is_seq(t) for t in ts):
        flat = []
        for t in ts:
            flat.extend(t.args if t.op == 'concat' else (t,))
        out = []
        for t in flat:
            if out and t.op == 'const' and out[-1].op == 'const' and isinstance(t.args[0], str) \
                    and isinstance(out[-1].args[0], str):
                out[-1] = const(out[-1].args[0] + t.args[0])
            elif out and t.op == 'list' and out[-1].op == 'list':
                out[-1] = mk('list', *(out[-1].args + t.args))
            else:
                out.append(t)
        return out[0] if len(out) == 1 else mk('concat', *out)
    p = {}
    for t in ts:
        for m, c in _aspoly(t).items():
            p[m] = p.get(m, 0) + c
    p = _trig(p)
    return _frompoly(p)


def _trig(p):
    """sin^2 + cos^2 = 1, when it eliminates terms."""
    changed = True
    n = 0
    while changed and n < 20:
        changed = False
        n += 1
        for m, c in list(p.items()):
            if not c:
                continue
            for a, e in m:
                if a.op == 'call' and a.args[0] == 'numpy.sin' and e == 2:
                    rest = tuple(x for x in m if x[0] is not a)
                    cosa = mk('call', 'numpy.cos', *a.args[1:])
                    m2 = _mono_mul(rest, ((cosa, Fraction(2)),))
                    if p.get(m2) == c:
                        del p[m], p[m2]
                        p[rest] = p.get(rest, 0) + c
                        changed = True
                        break
            if changed:
                break
    return {m: c for m, c in p.items() if c}


def mul(*ts):
    seqs = [t for t in ts if is_seq(t)]
    if seqs:
        return mk('seqmul', *sorted(ts, key=lambda t: t.dg))
    p = {(): Fraction(1)}
    for t in ts:
        q = _aspoly(t)
        if len(p) * len(q) > 400:
            q = {((t, Fraction(1)),): Fraction(1)}
            if len(p) > 400:
                p = {((_frompoly(p), Fraction(1)),): Fraction(1)}
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = _mono_mul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        p = {m: c for m, c in r.items() if c}
        if not p:
            return ZERO
    # merge cancelled polynomial atoms: (a+b)^-1 * (a+b)
    p = _cancel(p)
    return _frompoly(_trig(p))


def _cancel(p):
    """If p, as a whole, is k * q where q^-1 occurs in every monomial, simplify."""
    invs = None
    for m in p:
        s = {a for a, e in m if e < 0 and a.op == 'poly'}
        invs = s if invs is None else invs & s
    if not invs or len(p) < 2:
        return p
    for a in invs:
        q = dict(a.args[0])
        r = {}
        for m, c in p.items():
            m2 = _mono_mul(m, ((a, Fraction(1)),))
            r[m2] = r.get(m2, 0) + c
        # r == mono * q ?
        if len(r) % len(q) == 0 and len(r) == len(q):
            (qm, qc) = next(iter(sorted(q.items(), key=lambda kv: _mkey(kv[0]))))
            for rm, rc in r.items():
                inv = tuple((x, -e) for x, e in qm)
                cand = _mono_mul(rm, inv)
                k = rc / qc
                if all(r.get(_mono_mul(cand, mm)) == k * cc for mm, cc in q.items()):
                    return {cand: k}
    return p


def neg(t):
    return mul(MINUS1, t)


def sub(a, b):
    return add(a, neg(b))


def power(b, e):
    if e.op == 'num':
        return _ipow(b, e.args[0])
    if b.op == 'num' and b.args[0] == 1:
        return ONE
    return mk('pow', b, e)


def _ipow(b, e):
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op == 'num':
        v = b.args[0]
        if e.denominator == 1 and (v != 0 or e > 0) and abs(e) < 40:
            return num(v ** int(e))
        if v > 0 and e.denominator == 2:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return num(Fraction(n, d) ** int(e * 2))
        return _frompoly({((b, e),): Fraction(1)})
    if b.op == 'poly':
        p = dict(b.args[0])
        if len(p) == 1:
            (m, c), = p.items()
            r = []
            for a, x in m:
                y = x * e
                if x.denominator == 1 and x % 2 == 0 and y % 2 == 1 and e.denominator != 1:
                    a = absv(a)
                r.append((a, y))
            cf = _ipow(num(c), e)
            mono = {tuple(sorted(r, key=lambda x: x[0].dg)): Fraction(1)}
            return mul(cf, _frompoly(mono))
        if e.denominator == 1 and 1 < e <= 4 and len(p) ** int(e) <= 256:
            r = b
            for _ in range(int(e) - 1):
                r = mul(r, b)
            return r
        # content normalisation: leading coefficient 1
        lead = sorted(p.items(), key=lambda kv: _mkey(kv[0]))[0][1]
        if e.denominator == 1 or lead > 0:
            k = lead if e.denominator == 1 else abs(lead)
            if k != 1:
                q = _frompoly({m: c / k for m, c in p.items()})
                return mul(_ipow(num(k), e), _frompoly({((q, e),): Fraction(1)}))
        return _frompoly({((b, e),): Fraction(1)})
    return _frompoly({((b, e),): Fraction(1)})


def div(a, b):
    return mul(a, _ipow(b, Fraction(-1)))


def leadneg(t):
    """Is the canonical leading coefficient negative?"""
    if t.op == 'num':
        return t.args[0] < 0
    if t.op == 'poly':
        return t.args[0][0][1] < 0
    return False


def absv(t):
    if t.op == 'num':
        return num(abs(t.args[0]))
    if leadneg(t):
        t = neg(t)
    if t.op == 'call' and t.args[0] == 'numpy.abs':
        return t
    return mk('call', 'numpy.abs', (t,), ())


ODD = {'numpy.sin', 'numpy.tan', 'numpy.arcsin', 'numpy.arctan', 'numpy.sign', 'numpy.sinh', 'numpy.tanh'}
EVEN = {'numpy.cos', 'numpy.cosh'}


def call(fn, pos=(), kw=()):
    pos = tuple(pos)
    kw = tuple(sorted(kw))
    if len(pos) == 1 and not kw:
        x = pos[0]
        if fn in ODD and leadneg(x):
            return neg(mk('call', fn, (neg(x),), ()))
        if fn in EVEN and leadneg(x):
            x = neg(x)
            pos = (x,)
        if fn == 'numpy.tan':
            return div(call('numpy.sin', (x,)), call('numpy.cos', (x,)))
        if fn == 'numpy.abs':
            return absv(x)
    return mk('call', fn, pos, kw)


# ------------------------------------------------------------------ booleans
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return or_(*[not_(x) for x in t.args])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.args])
    return mk('not', t)


def _flat(op, ts):
    out = []
    for t in ts:
        out.extend(t.args if t.op == op else (t,))
    seen, res = set(), []
    for t in out:
        if t not in seen:
            seen.add(t)
            res.append(t)
    return sorted(res, key=lambda t: t.dg)


def and_(*ts):
    ts = [t for t in _flat('and', ts) if t is not TRUE]
    if any(t is FALSE for t in ts):
        return FALSE
    if not ts:
        return TRUE
    if len(ts) > 1:
        ts = _absorb(ts, 'and')
        if ts is None:
            return FALSE
    return ts[0] if len(ts) == 1 else mk('and', *ts)


def _absorb(ts, op):
    """x & ~x, x & (x | y), x & (~x | y) and their duals."""
    have = set(ts)
    for x in ts:
        if x.op == 'not' and x.args[0] in have:
            return None
    other = 'or' if op == 'and' else 'and'
    if not any(x.op == other for x in ts):
        return ts
    out = []
    changed = False
    for x in ts:
        if x.op == other:
            if any(y in have for y in x.args):
                changed = True
                continue
            keep = [y for y in x.args if not_(y) not in have]
            if len(keep) < len(x.args):
                changed = True
                if not keep:
                    return None
                out.append((or_ if other == 'or' else and_)(*keep))
                continue
        out.append(x)
    if changed:
        r = (and_ if op == 'and' else or_)(*out)
        return list(r.args) if r.op == op else [r]
    return ts


def or_(*ts):
    ts = [t for t in _flat('or', ts) if t is not FALSE]
    if any(t is TRUE for t in ts):
        return TRUE
    if not ts:
        return FALSE
    if len(ts) > 1:
        ts = _absorb(ts, 'or')
        if ts is None:
            return TRUE
    return ts[0] if len(ts) == 1 else mk('or', *ts)


def _poscanon(p):
    """Scale by a positive constant so that |leading coeff| is 1."""
    if p.op == 'poly':
        c = abs(p.args[0][0][1])
        if c != 1:
            return mul(num(1 / c), p)
    return p


def lt(a, b, strict_nan=False):
    p = _poscanon(sub(b, a))
    if p.op == 'num':
        return TRUE if p.args[0] > 0 else FALSE
    return mk('pos', p)


def le(a, b, strict_nan=False):
    p = _poscanon(sub(b, a))
    if p.op == 'num':
        return TRUE if p.args[0] >= 0 else FALSE
    if strict_nan:
        return mk('nonneg', p)
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return FALSE
    if a.op in ('const', 'bool') and b.op in ('const', 'bool'):
        return FALSE
    if a.op in ('poly',) or b.op in ('poly',):
        p = sub(a, b)
        if leadneg(p):
            p = neg(p)
        p = _poscanon(p)
        if p.op == 'num':
            return FALSE if p.args[0] else TRUE
        return mk('zero', p)
    a, b = sorted((a, b), key=lambda t: t.dg)
    return mk('eq', a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'or':
        return ite(not_(c), b, a)
    a, b = assume(a, c, True), assume(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return mk('ite', c, a, b)


def assume(t, c, val):
    """Shallow: collapse directly nested gates on the same condition."""
    n = 0
    while t.op == 'ite' and n < 60:
        n += 1
        v = _implied(t.args[0], c, val)
        if v is None:
            break
        t = t.args[1] if v else t.args[2]
    if t is c:
        return TRUE if val else FALSE
    if t.op in ('not', 'or') and c.op in BOOLY and t is not_(c):
        return FALSE if val else TRUE
    return t


BOOLY = ('and', 'or', 'not', 'pos', 'nonneg', 'zero', 'eq', 'isnone', 'in')


def _implied(d, c, val):
    if d is c:
        return val
    if c.op == 'and' and val and d in c.args:
        return True
    if c.op == 'or' and not val and d in c.args:
        return False
    if d.op == 'and' and not val and c in d.args:
        return False
    if d.op == 'or' and val and c in d.args:
        return True
    return None


# ------------------------------------------------------------------ traversal
def children(t):
    for a in t.args:
        yield from _kids(a)


def _kids(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _kids(x)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, s):
    return any(x is s for x in subterms(t))


class LimitHit(Exception):
    pass


def rewrite(t, f, memo=None):
    """Bottom-up rewriting: f(term with rewritten children) -> term."""
    memo = {} if memo is None else memo
    return _rw(t, f, memo)


def _rwarg(a, f, memo):
    if isinstance(a, T):
        return _rw(a, f, memo)
    if isinstance(a, tuple):
        return tuple(_rwarg(x, f, memo) for x in a)
    return a


def _rw(t, f, memo):
    r = memo.get(t)
    if r is not None:
        return r
    args = tuple(_rwarg(a, f, memo) for a in t.args)
    n = t if args == t.args else rebuild(t.op, args)
    r = f(n)
    memo[t] = r
    return r


def rebuild(op, args):
    if op == 'poly':
        out = []
        for m, c in args[0]:
            out.append(mul(num(c), *[_ipow(a, e) for a, e in m]))
        return add(*out)
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'pos':
        return lt(ZERO, args[0])
    if op == 'nonneg':
        return le(ZERO, args[0], True)
    if op == 'zero':
        return eq(args[0], ZERO) if args[0].op != 'poly' else _mkzero(args[0])
    if op == 'eq':
        return eq(*args)
    if op == 'pow':
        return power(*args)
    if op == 'concat':
        return add(*args)
    if op == 'call':
        return call(*args)
    if op == 'attr' and len(args) == 2:
        return mkattr(*args)
    if op == 'item':
        return item(*args)
    if op == 'len':
        return length(args[0])
    if op == 'store':
        return store(*args)
    if op == 'callsites':
        return mk(op, *[a for a in args if a.op != 'skip'])
    return mk(op, *args)


def _mkzero(p):
    return eq(p, ZERO)


def subst(t, mapping, memo=None):
    memo = {} if memo is None else memo
    def f(x):
        return mapping.get(x, x)
    # mapping applies to original atoms: pre-check
    return _sub(t, mapping, memo)


def _sub(t, mapping, memo):
    if t in mapping:
        return mapping[t]
    r = memo.get(t)
    if r is not None:
        return r
    args = tuple(_subarg(a, mapping, memo) for a in t.args)
    r = t if args == t.args else rebuild(t.op, args)
    memo[t] = r
    return r


def _subarg(a, mapping, memo):
    if isinstance(a, T):
        return _sub(a, mapping, memo)
    if isinstance(a, tuple):
        return tuple(_subarg(x, mapping, memo) for x in a)
    return a


# ------------------------------------------------------------------ structured constructors
def mkattr(base, name):
    if base.op == 'ite':
        a, b = mkattr(base.args[1], name), mkattr(base.args[2], name)
        return ite(base.args[0], a, b)
    return mk('attr', base, name)


FULL = mk('slice', NONE, NONE, NONE)


def length(x):
    if x.op in ('list', 'tuple'):
        return num(len(x.args))
    if x.op == 'store':
        return length(x.args[0])
    if x.op == 'wh':
        return mk('count', x.args[0])
    if x.op == 'listmap':
        return x.args[0]
    if x.op == 'const' and isinstance(x.args[0], str):
        return num(len(x.args[0]))
    if x.op == 'item' and x.args[1].op == 'slice' and x.args[1] is FULL:
        return length(x.args[0])
    return mk('len', x)


def item(b, i):
    if i.op == 'wh':
        i = i.args[0]
    if i.op == 'call' and i.args[0] == 'numpy.where' and len(i.args[1]) == 1 and not i.args[2]:
        i = i.args[1][0]
    if i.op == 'tuple':
        i = mk('tuple', *[x.args[0] if x.op == 'wh' else x for x in i.args])
    if b.op in ('list', 'tuple') and i.op == 'num' and i.args[0].denominator == 1:
        k = int(i.args[0])
        if -len(b.args) <= k < len(b.args):
            return b.args[k]
    if b.op == 'seqmul' and i.op == 'num':
        parts = []
        for x in b.args:
            if x.op in ('list', 'tuple'):
                parts.append(item(x, i))
            elif x.op == 'poly' and len(x.args[0]) == 1 and len(x.args[0][0][0]) == 1 and x.args[0][0][0][0][0].op in ('list', 'tuple'):
                (m, c), = x.args[0]
                parts.append(mul(num(c), _ipow(item(m[0][0], i), m[0][1])))
            else:
                parts = None
                break
        if parts and len(parts) > 1:
            return mul(*parts)
    if b.op == 'call' and b.args[0] == 'builtins.int' and i.op == 'num' and len(b.args[1]) == 1:
        return mk('call', 'builtins.int', (item(b.args[1][0], i),), ())
    if b.op == 'call' and b.args[0] == 'numpy.where' and len(b.args[1]) == 1 and i is ZERO:
        return mk('wh', b.args[1][0])
    if b.op == 'attr' and b.args[1] == 'shape' and i is ZERO:
        return length(b.args[0])
    if b.op == 'zipstar' and i.op == 'num':
        return b.args[int(i.args[0])]
    if b.op == 'dict':
        for k, v in b.args[0]:
            if k is i:
                return v
    if b.op == 'store':
        base, j, v = b.args
        if j is i and not (i.op == 'slice'):
            if _scalaridx(i):
                return v
        elif _distinct(i, j):
            return item(base, i)
    if b.op == 'ite':
        return ite(b.args[0], item(b.args[1], i), item(b.args[2], i))
    if b.op == 'listmap' and _scalaridx(i) and i.op != 'const':
        # element i of a mapped list: substitute the loop index
        d, lv, v = b.args[0], b.args[1], b.args[2]
        if not (i.op == 'num' and i.args[0] < 0):
            return subst(v, {mk('iv', lv): i})
    if b.op == 'item' and i.op == 'slice' and i is FULL:
        return b
    if i is FULL and b.op != 'const':
        return mk('view', b) if False else b
    return mk('item', b, i)


def _scalaridx(i):
    return i.op in ('num', 'iv', 'const') or (i.op == 'poly' and all(
        a.op in ('iv', 'len', 'sym', 'acc') for m, c in i.args[0] for a, e in m)) or i.op == 'acc'


def store(b, i, v):
    # what is stored again at the same place replaces what was there; independent stores commute
    b = _unstored(b, i)
    if b.op == 'store' and b.args[1].dg > i.dg and _distinct(b.args[1], i):
        return mk('store', store(b.args[0], i, v), b.args[1], b.args[2])
    return mk('store', b, i, v)


def _unstored(b, i):
    if b.op != 'store':
        return b
    if b.args[1] is i:
        return _unstored(b.args[0], i)
    if _distinct(b.args[1], i):
        c = _unstored(b.args[0], i)
        if c is not b.args[0]:
            return mk('store', c, b.args[1], b.args[2])
    return b


def _distinct(i, j):
    if i.op == 'num' and j.op == 'num':
        return i is not j and (i.args[0] < 0) == (j.args[0] < 0)
    if i.op == 'const' and j.op == 'const':
        return i is not j
    if i.op == 'tuple' and j.op == 'tuple' and len(i.args) == len(j.args):
        return any(_distinct(x, y) for x, y in zip(i.args, j.args))
    return False


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '..'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'num':
        f = a[0]
        return str(f) if f.denominator == 1 else (repr(float(f)) if f.denominator > 12 else str(f))
    if op in ('const', 'bool'):
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in a)
    if op == 'poly':
        out = []
        for m, c in a[0]:
            fs = []
            for x, e in m:
                s = show(x, d)
                if x.op == 'poly':
                    s = '(%s)' % s
                fs.append(s if e == 1 else '%s^%s' % (s, e))
            cs = show(num(c))
            if fs and c == 1:
                out.append('*'.join(fs))
            elif fs and c == -1:
                out.append('-' + '*'.join(fs))
            else:
                out.append('*'.join([cs] + fs))
        return ' + '.join(out)
    if op == 'call':
        return '%s(%s)' % (a[0].replace('numpy.', 'np.'), ', '.join(
            [show(x, d) for x in a[1]] + ['%s=%s' % (k, show(v, d)) for k, v in a[2]]))
    if op == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join(
            [show(x, d) for x in a[2]] + ['%s=%s' % (k, show(v, d)) for k, v in a[3]]))
    if op == 'ite':
        return '(%s ? %s : %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == 'pos':
        return '(%s > 0)' % show(a[0], d)
    if op == 'zero':
        return '(%s == 0)' % show(a[0], d)
    if op == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if op == 'not':
        return 'not %s' % show(a[0], d)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in a) + ')'
    if op in ('list', 'tuple'):
        return '[' + ', '.join(show(x, d) for x in a) + ']'
    return '%s<%s>' % (op, ', '.join(show(x, d) for x in a))
