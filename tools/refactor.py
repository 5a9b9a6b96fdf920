#!/usr/bin/env python3
"""Quietness of the checks: rewrite the source in memory by transformations that keep behaviour and report every
obligation that turns into a violation (a false alarm) or is lost (ok -> undecided).

refactor.py [-l] [-t transform,...] [pattern of function names]     per function, references only
refactor.py -m SEEDS [pattern]   whole program, every function rewritten by one to four transformations; references and rules
refactor.py -r [-t transform,...] [pattern of module names]         per module, rules only     (-l: list lost ones)"""
import ast, copy, os, random, re, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from concurrent.futures import ProcessPoolExecutor
from analysis.runner import load_program, Runner
from analysis.gvn import Engine
from analysis import rulebase
from analysis.loader import AnalysisBroken

TREES = {}
USES = {}
KNOWN = set()
BASE = {}
F = ast.FunctionDef


def E(s):
    return ast.parse(s, mode='eval').body


def S(s):
    return ast.parse(s).body


def own(fn):
    """nodes of fn not in nested scopes"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (F, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                continue
            out.append(c)
            go(c)
    go(fn)
    return out


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def stored(nodes):
    return {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def nested(fn):
    return any(isinstance(n, (F, ast.Lambda)) for n in ast.walk(fn) if n is not fn)


def blocks(fn):
    for n in [fn] + own(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def nodoc(b):
    return 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0


class Sub(ast.NodeTransformer):
    def __init__(self, fun):
        self.fun = fun

    def generic_visit(self, n):
        super().generic_visit(n)
        r = self.fun(n)
        return n if r is None else r


def noeffect(e):
    """evaluation reads only: names, attributes, constants, arithmetic, numpy maths"""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            s = ast.unparse(n.func)
            if not (s.startswith('np.') or s in ('len', 'float', 'int', 'abs', 'max', 'min', 'range', 'str')):
                return False
        if isinstance(n, (ast.Await, ast.Yield, ast.NamedExpr)):
            return False
    return True


# -- transformations: fn -> list of (fn', [new top-level or class-level defs]) -------------
def t_rename(fn, ctx):
    loc = stored(ast.walk(fn)) - set(params(fn))
    if any(isinstance(n, ast.Global) for n in ast.walk(fn)):
        return
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = n.id + '_v'
        if isinstance(n, ast.ExceptHandler) and n.name in loc:
            n.name += '_v'
    yield fn, []


def t_noop(fn, ctx):
    for n, f, b in list(blocks(fn)):
        i = nodoc(b)
        b[i:i] = S('_unused = 0')
        b.insert(i, S('if False:\n    pass')[0])
        b.insert(i, S('pass')[0])
    yield fn, []


def t_retemp(fn, ctx):
    k = [0]
    for n, f, b in list(blocks(fn)):
        new = []
        for st in b:
            if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
                k[0] += 1
                new.append(ast.Assign([ast.Name('_ret%d' % k[0], ast.Store())], st.value))
                st.value = ast.Name('_ret%d' % k[0], ast.Load())
            new.append(st)
        b[:] = new
    if k[0]:
        yield fn, []


def t_hoist(fn, ctx):
    """call arguments and operands into temporaries, in evaluation order"""
    k = [0]
    for n, f, b in list(blocks(fn)):
        new = []
        for st in b:
            v = st.value if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args):
                if noeffect(v.func):
                    for i, a in enumerate(v.args):
                        if not isinstance(a, (ast.Name, ast.Constant)):
                            k[0] += 1
                            new.append(ast.Assign([ast.Name('_t%d' % k[0], ast.Store())], a))
                            v.args[i] = ast.Name('_t%d' % k[0], ast.Load())
                    for kw in v.keywords:
                        if kw.arg and not isinstance(kw.value, (ast.Name, ast.Constant)):
                            k[0] += 1
                            new.append(ast.Assign([ast.Name('_t%d' % k[0], ast.Store())], kw.value))
                            kw.value = ast.Name('_t%d' % k[0], ast.Load())
            elif isinstance(v, ast.BinOp):
                for side in ('left', 'right'):
                    a = getattr(v, side)
                    if not isinstance(a, (ast.Name, ast.Constant)):
                        k[0] += 1
                        new.append(ast.Assign([ast.Name('_t%d' % k[0], ast.Store())], a))
                        setattr(v, side, ast.Name('_t%d' % k[0], ast.Load()))
            new.append(st)
        b[:] = new
    if k[0]:
        yield fn, []


def t_invert(fn, ctx):
    done = False
    for n in own(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            done = True
    if done:
        yield fn, []


def t_ifexp(fn, ctx):
    done = False
    for n, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp):
                v = st.value
                b[i] = ast.If(v.test, [ast.Assign(st.targets, v.body)], [ast.Assign(copy.deepcopy(st.targets), v.orelse)])
                done = True
            elif isinstance(st, ast.If) and len(st.body) == 1 and len(st.orelse) == 1 and all(
                    isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (st.body[0], st.orelse[0])) and \
                    ast.dump(st.body[0].targets[0]) == ast.dump(st.orelse[0].targets[0]):
                b[i] = ast.Assign(st.body[0].targets, ast.IfExp(st.test, st.body[0].value, st.orelse[0].value))
                done = True
    if done:
        yield fn, []


def has(n, kinds):
    out = []

    def go(x, loop):
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (F, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, kinds):
                out.append(c)
            if loop and isinstance(c, (ast.For, ast.While)):
                if any(isinstance(y, ast.Return) for y in ast.walk(c)) and ast.Return in (kinds if isinstance(kinds, tuple) else (kinds,)):
                    out.append(c)
                continue
            go(c, loop)
    go(n, True)
    return bool(out)


def names_after(fn, st):
    """names read outside st"""
    inside = set(map(id, ast.walk(st)))
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside}


def t_while(fn, ctx):
    k = 0
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 1, -1, -1):
            st = b[i]
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and ast.unparse(st.iter.func) in ('range',) and \
                    len(st.iter.args) in (1, 2) and isinstance(st.target, ast.Name) and not st.orelse and \
                    not any(isinstance(x, ast.Continue) for x in ast.walk(st)):
                v = st.target.id
                if v in names_after(fn, st) or v in stored([y for x in st.body for y in ast.walk(x)]):
                    continue
                lo = st.iter.args[0] if len(st.iter.args) == 2 else ast.Constant(0)
                hi = st.iter.args[-1]
                k += 1
                b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], lo),
                              ast.Assign([ast.Name('_hi%d' % k, ast.Store())], hi),
                              ast.While(E('%s < _hi%d' % (v, k)), st.body + S('%s += 1' % v), [])]
    if k:
        yield fn, []


def t_complist(fn, ctx):
    """list comprehension assigned to a name -> loop with append"""
    k = 0
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 1, -1, -1):
            st = b[i]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                v = st.value
                wrap = None
                if isinstance(v, ast.Call) and ast.unparse(v.func) in ('np.array', 'np.asarray') and len(v.args) == 1 and not v.keywords:
                    wrap, v = v, v.args[0]
                if not isinstance(v, ast.ListComp) or len(v.generators) != 1:
                    continue
                g = v.generators[0]
                k += 1
                m = {x.id: x.id + '_c%d' % k for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for y in [g.target, v.elt] + g.ifs:
                    for x in ast.walk(y):
                        if isinstance(x, ast.Name) and x.id in m:
                            x.id = m[x.id]
                body = [ast.Expr(ast.Call(E('_l%d.append' % k), [v.elt], []))]
                for c in g.ifs:
                    body = [ast.If(c, body, [])]
                res = ast.Name('_l%d' % k, ast.Load())
                if wrap is not None:
                    wrap.args = [res]
                    res = wrap
                b[i:i + 1] = S('_l%d = []' % k) + [ast.For(g.target, g.iter, body, []), ast.Assign(st.targets, res)]
    if k:
        yield fn, []


def t_looplist(fn, ctx):
    """x = []; for ..: x.append(e) -> comprehension"""
    done = False
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 2, -1, -1):
            st, lp = b[i], b[i + 1]
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.List) and not st.value.elts and isinstance(st.targets[0], ast.Name) and \
                    isinstance(lp, ast.For) and len(lp.body) == 1 and not lp.orelse and isinstance(lp.body[0], ast.Expr) and \
                    isinstance(lp.body[0].value, ast.Call) and ast.unparse(lp.body[0].value.func) == st.targets[0].id + '.append':
                if stored(ast.walk(lp.target)) & names_after(fn, lp):
                    continue
                st.value = ast.ListComp(lp.body[0].value.args[0], [ast.comprehension(lp.target, lp.iter, [], 0)])
                del b[i + 1]
                done = True
    if done:
        yield fn, []


def t_enum(fn, ctx):
    done = False
    for n in own(fn):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            it = n.iter
            if isinstance(it, ast.Call) and ast.unparse(it.func) == 'range' and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and \
                    ast.unparse(it.args[0].func) == 'len':
                seq = it.args[0].args[0]
                if not isinstance(seq, (ast.Name, ast.Attribute)):
                    continue
                sd = ast.unparse(seq)
                i = n.target.id
                # reads of seq[i] become the element, unless seq is written in the body
                if any(isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) == sd and isinstance(getattr(x, 'ctx', None), ast.Store)
                       for y in n.body for x in ast.walk(y)):
                    continue
                if any(isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.unparse(x.value) == sd
                       for y in n.body for x in ast.walk(y)):
                    continue

                def rep(x):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and ast.unparse(x.value) == sd and \
                            isinstance(x.slice, ast.Name) and x.slice.id == i:
                        return ast.Name('_item', ast.Load())
                n.body = [Sub(rep).visit(y) for y in n.body]
                n.target = ast.Tuple([ast.Name(i, ast.Store()), ast.Name('_item', ast.Store())], ast.Store())
                n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [seq], [])
                done = True
    if done:
        yield fn, []


def t_index(fn, ctx):
    """for x in seq -> for k in range(len(seq)): x = seq[k]   (names of lists/arrays only)"""
    k = 0
    for n in own(fn):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Name, ast.Attribute)):
            if re.search(r'dict|keys|gen|__', ast.unparse(n.iter)):
                continue
            k += 1
            n.body.insert(0, ast.Assign([n.target], E('%s[_k%d]' % (ast.unparse(n.iter), k))))
            n.target = ast.Name('_k%d' % k, ast.Store())
            n.iter = E('range(len(%s))' % ast.unparse(n.iter))
    if k:
        yield fn, []


def numericish(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp, ast.Dict)):
            return False
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return False
        if isinstance(n, ast.Call) and re.search(r'format|join|str|list|names|title|label', ast.unparse(n.func)):
            return False
        if isinstance(n, (ast.Name, ast.Attribute)) and re.search(r'name|list|str|label|title|dir|file', ast.unparse(n)):
            return False
    return True


def t_commute(fn, ctx):
    done = [0]

    def rep(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)) and numericish(n) and noeffect(n) and \
                any(isinstance(x, (ast.BinOp, ast.UnaryOp)) or isinstance(x, ast.Constant) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
            done[0] = 1
    Sub(rep).visit(fn)
    if done[0]:
        yield fn, []


def t_arith(fn, ctx):
    """x**2 -> x*x, a-b -> a+(-b)?, np.sqrt(x) -> x**0.5, a/b -> a*(1./b)"""
    done = [0]

    def rep(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.) and \
                isinstance(n.left, (ast.Name, ast.Attribute)):
            done[0] = 1
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n, ast.Call) and ast.unparse(n.func) == 'np.sqrt' and len(n.args) == 1:
            done[0] = 1
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            done[0] = 1
            return ast.BinOp(ast.Constant(-1), ast.Mult(), n.operand)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, float):
            done[0] = 1
            return ast.BinOp(n.left, ast.Mult(), ast.Constant(1. / n.right.value)) if (1. / n.right.value) == round(1. / n.right.value, 6) else n
    Sub(rep).visit(fn)
    if done[0]:
        yield fn, []


def t_flip(fn, ctx):
    done = [0]
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def rep(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m and noeffect(n):
            done[0] = 1
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops = [m[type(n.ops[0])]()]
    Sub(rep).visit(fn)
    if done[0]:
        yield fn, []


def terminal(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def t_guard(fn, ctx):
    """if c: ..return else: B -> if c: ..return; B"""
    done = False
    for n, f, b in reversed(list(blocks(fn))):
        for i in range(len(b) - 1, -1, -1):
            st = b[i]
            if isinstance(st, ast.If) and st.orelse and terminal(st.body):
                b[i + 1:i + 1] = st.orelse
                st.orelse = []
                done = True
    if done:
        yield fn, []


def t_nest(fn, ctx):
    """if c: ..return; B -> if c: ..return else: B"""
    done = False
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 2, -1, -1):
            st = b[i]
            if isinstance(st, ast.If) and not st.orelse and terminal(st.body):
                st.orelse = b[i + 1:]
                del b[i + 1:]
                done = True
    if done:
        yield fn, []


def t_splitand(fn, ctx):
    done = False
    for n in own(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            a, rest = n.test.values[0], n.test.values[1:]
            n.test = a
            n.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])]
            done = True
    if done:
        yield fn, []


def t_mergeand(fn, ctx):
    done = False
    for n in own(fn):
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            n.test = ast.BoolOp(ast.And(), [n.test, n.body[0].test])
            n.body = n.body[0].body
            done = True
    if done:
        yield fn, []


def t_boolname(fn, ctx):
    """condition into a flag variable"""
    k = 0
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 1, -1, -1):
            st = b[i]
            if isinstance(st, ast.If) and not isinstance(st.test, ast.Name):
                k += 1
                b.insert(i, ast.Assign([ast.Name('_cond%d' % k, ast.Store())], st.test))
                st.test = ast.Name('_cond%d' % k, ast.Load())
    if k:
        yield fn, []


def t_const(fn, ctx):
    """numbers into module constants"""
    new = []
    skip = set()
    for n in ast.walk(fn.args):
        skip.add(id(n))

    def rep(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, float) and id(n) not in skip:
            nm = '_CONST_%s_%d' % (fn.name.strip('_'), len(new))
            new.append(ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(n.value)))
            return ast.Name(nm, ast.Load())
    Sub(rep).visit(fn)
    if new:
        yield fn, [('mod', x) for x in new]


def t_fstring(fn, ctx):
    done = [0]

    def rep(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and \
                not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            s = n.func.value.value
            parts = re.split(r'(\{[^{}]*\})', s)
            if '{{' in s:
                return
            vals, k = [], 0
            for p in parts:
                if p.startswith('{') and p.endswith('}'):
                    body = p[1:-1]
                    nm, _, spec = body.partition(':')
                    if nm and not nm.isdigit():
                        return
                    idx = int(nm) if nm else k
                    k += 1
                    vals.append(ast.FormattedValue(copy.deepcopy(n.args[idx]), -1, ast.JoinedStr([ast.Constant(spec)]) if spec else None))
                elif p:
                    vals.append(ast.Constant(p))
            done[0] = 1
            return ast.JoinedStr(vals)
    Sub(rep).visit(fn)
    if done[0]:
        yield fn, []


def t_dict(fn, ctx):
    done = [0]

    def rep(n):
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            done[0] = 1
            return ast.Call(ast.Name('dict', ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        if isinstance(n, ast.Call) and ast.unparse(n.func) == 'dict' and not n.args and n.keywords and all(k.arg for k in n.keywords):
            done[0] = 1
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
    Sub(rep).visit(fn)
    if done[0]:
        yield fn, []


def t_keys(fn, ctx):
    done = [0]
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)):
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'keys' and not it.args:
                n.iter = it.func.value
                done[0] = 1
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            it = n.comparators[0]
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'keys':
                n.comparators[0] = it.func.value
                done[0] = 1
    if done[0]:
        yield fn, []


def t_npcopy(fn, ctx):
    done = [0]

    def rep(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args and not n.keywords and \
                re.search(r'(flux|wave|mask|arr|weight|theta|spec|img)$', ast.unparse(n.func.value)):
            done[0] = 1
            return ast.Call(E('np.copy'), [n.func.value], [])
    Sub(rep).visit(fn)
    if done[0]:
        yield fn, []


STABLE = ('kinModel', 'galaxy', 'instrument', 'geom', 'kinProfile', 'spec2D', 'fitEmis2D', 'fit', 'aperModel', 'thetaSettings',
          'thetaPrior', 'aperModel2D', 'kinModelOptions', 'intensityProfile', 'dispProfile')


def t_alias(fn, ctx):
    """self.X read several times -> local alias"""
    if not params(fn) or nested(fn):
        return
    root = params(fn)[0]
    cnt = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == root:
            c = cnt.setdefault(n.attr, [0, 0])
            c[0 if isinstance(n.ctx, ast.Load) else 1] += 1
    if root in stored(own(fn)):
        return
    pick = [a for a, (l, s) in cnt.items() if l >= 2 and s == 0 and a in STABLE]
    # the alias is evaluated first: only if the first statement always reads it or it is an ordinary attribute of self
    if root != 'self' or not pick or fn.name in ('__init__', 'setAttr', 'copy'):
        return
    if 'self.__dict__' in ast.unparse(fn) or '_hlp_' in ast.unparse(fn) or '_impl_' in ast.unparse(fn):
        return

    def rep(n):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == root and n.attr in pick and isinstance(n.ctx, ast.Load):
            return ast.Name('_al_' + n.attr, ast.Load())
    Sub(rep).visit(fn)
    i = nodoc(fn.body)
    fn.body[i:i] = [ast.Assign([ast.Name('_al_' + a, ast.Store())], E('self.' + a)) for a in pick]
    yield fn, []


def t_delegate(fn, ctx):
    """body moved to a helper, the original delegating"""
    if fn.name == '__init__' and 'super(' in ast.unparse(fn):
        return
    if fn.decorator_list or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn)):
        return
    a = fn.args
    if a.posonlyargs or a.kwonlyargs:
        return
    inner = copy.deepcopy(fn)
    inner.name = '_impl_' + fn.name.strip('_')
    nm = [x.arg for x in a.args]
    meth = ctx['cls'] is not None
    if 'super(' in ast.unparse(fn):
        return
    call = ast.Call(E('%s.%s' % (nm[0], inner.name)) if meth else E(inner.name),
                    [ast.Name(x, ast.Load()) for x in nm[1 if meth else 0:]] +
                    ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()))] if a.vararg else []),
                    [ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else [])
    inner.args.defaults = []
    if a.vararg is None and a.kwarg is None and nm[2 if meth else 1:]:
        # half of them by keyword
        h = len(call.args) // 2
        call.keywords = [ast.keyword(x.id, x) for x in call.args[h:]]
        call.args = call.args[:h]
    d = nodoc(fn.body)
    fn.body = fn.body[:d] + [ast.Return(call)]
    yield fn, [('cls' if meth else 'mod', inner)]


def definite(b, have):
    """names definitely bound after the statements b"""
    out = set(have)
    for st in b:
        if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)):
            out |= stored(ast.walk(st))
        elif isinstance(st, ast.If):
            x = definite(st.body, out)
            y = definite(st.orelse, out)
            if terminal(st.body):
                out = y
            elif st.orelse and terminal(st.orelse):
                out = x
            else:
                out = x & y
        elif isinstance(st, ast.With):
            out = definite(st.body, out)
        elif isinstance(st, (ast.Import, ast.ImportFrom, F)):
            pass
    return out


def t_extract(fn, ctx, meth=False):
    """runs of statements into a helper"""
    if nested(fn) or any(isinstance(n, (ast.Global, ast.Import, ast.ImportFrom)) for n in own(fn)):
        return
    if 'super(' in ast.unparse(fn) or 'locals(' in ast.unparse(fn):
        return
    P = set(params(fn))
    alln = stored(own(fn)) | P
    rnd = random.Random(fn.name + str(meth))

    def bodies(b, have, path):
        yield b, have, path
        cur = set(have)
        for i, st in enumerate(b):
            if isinstance(st, (ast.For, ast.While)):
                yield from bodies(st.body, cur | stored(ast.walk(getattr(st, 'target', ast.Pass()))), path + [(i, 'body')])
            elif isinstance(st, ast.If):
                yield from bodies(st.body, cur, path + [(i, 'body')])
                if st.orelse:
                    yield from bodies(st.orelse, cur, path + [(i, 'orelse')])
            cur = definite([st], cur)

    cands = []
    for b, have, path in bodies(fn.body, P, []):
        lo0 = nodoc(b) if not path else 0
        for i in range(lo0, len(b)):
            for j in range(i + 1, min(len(b), i + 6) + 1):
                reg = b[i:j]
                if any(isinstance(x, (ast.Return, ast.Continue, ast.Break, ast.Yield)) for st in reg for x in ast.walk(st)):
                    continue
                if any(isinstance(x, (ast.Delete,)) for st in reg for x in ast.walk(st)):
                    continue
                if j - i == 1 and isinstance(reg[0], ast.Assign) and isinstance(reg[0].value, (ast.Name, ast.Constant)):
                    continue
                bound = definite(b[:i], have)
                inner = [x for st in reg for x in ast.walk(st)]
                comp = set()
                for x in inner:
                    if isinstance(x, ast.comprehension):
                        comp |= stored(ast.walk(x.target))
                loads = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} & alln
                st_ = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & alln
                for x in inner:
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                        loads.add(x.target.id)
                if (loads | st_) & comp:
                    continue
                dins = definite(reg, set())
                # names read before being written in region must be bound
                need = {x for x in loads if x in bound}
                if not (loads - need) <= st_:
                    continue
                ids = set(map(id, inner))
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in loads - need and id(x) not in ids
                       for x in own(fn)):
                    continue                 # perhaps bound before
                outer = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in ids}
                inloop = bool(path)
                outs = sorted(st_ & (outer | (loads if inloop else set())))
                if any(o not in dins and o not in bound for o in outs):
                    continue
                need |= {o for o in outs if o not in dins}
                need &= bound
                if any(x in st_ and x not in need and x not in dins for x in loads):
                    pass
                cands.append((path, i, j, sorted(need), outs))
    rnd.shuffle(cands)
    for path, i, j, need, outs in cands[:ctx.get('n', 6)]:
        g = copy.deepcopy(fn)
        b = g.body
        for k, f in path:
            b = getattr(b[k], f)
        reg = b[i:j]
        nm = '_hlp_%s_%d_%d_%d' % (fn.name.strip('_'), fn.lineno, reg[0].lineno, j - i)
        slf = meth and ctx['cls'] is not None
        args = [a for a in need if not (slf and a == 'self')]
        body = list(reg)
        if outs:
            rv = ', '.join(outs)
            body += S('def f():\n return ' + rv)[0].body
        h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in (['self'] if slf else []) + args], None, [], [], None, []), body, [], None)
        call = ('self.' if slf else '') + nm + '(' + ', '.join(args) + ')'
        b[i:j] = S((', '.join(outs) + ' = ' if outs else '') + call)
        yield g, [('cls' if slf else 'mod', h)]


def t_extractm(fn, ctx):
    if ctx['cls'] is None:
        return
    if not params(fn) or params(fn)[0] != 'self':
        return
    yield from t_extract(fn, ctx, True)


def rw(st):
    """(reads, writes) as strings, or None if it may have other effects"""
    R, W = set(), set()
    if not isinstance(st, ast.Assign) or not noeffect(st.value):
        return None
    for t in st.targets:
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                (W if isinstance(x.ctx, ast.Store) else R).add(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                W.add('.' + x.attr)
            elif isinstance(x, ast.Subscript):
                return None
    for x in ast.walk(st.value):
        if isinstance(x, ast.Name):
            R.add(x.id)
        elif isinstance(x, ast.Attribute):
            R.add('.' + x.attr)
    return R, W


def t_reorder(fn, ctx):
    done = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b) - 1:
            x, y = rw(b[i]), rw(b[i + 1])
            if x and y and not (x[0] & y[1]) and not (x[1] & y[0]) and not (x[1] & y[1]):
                b[i], b[i + 1] = b[i + 1], b[i]
                done = True
                i += 1
            i += 1
    if done:
        yield fn, []


def t_kwargs(fn, ctx):
    """positional arguments of package functions by keyword"""
    prog, mod = ctx['prog'], ctx['mod']
    done = [0]

    def rep(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            r = prog.resolve(mod, n.func.id)
            if r and r[0] == 'func' and not r[1].node.args.vararg:
                ps = [x.arg for x in r[1].node.args.args]
                if len(n.args) <= len(ps):
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps[1:], n.args[1:])] + n.keywords
                    n.args = n.args[:1]
                    done[0] = 1
        elif isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords) and all(noeffect(k.value) for k in n.keywords):
            n.keywords = n.keywords[::-1]
            done[0] = 1
    Sub(rep).visit(fn)
    if done[0]:
        yield fn, []


def t_chain(fn, ctx):
    """x = a.b(c).d -> t = a.b(c); x = t.d ;  x[a][b] -> t = x[a]; t[b]"""
    k = 0
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 1, -1, -1):
            st = b[i]
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, (ast.Attribute, ast.Subscript)) and \
                    isinstance(st.value.value, (ast.Call, ast.Subscript)):
                k += 1
                b.insert(i, ast.Assign([ast.Name('_ch%d' % k, ast.Store())], st.value.value))
                st.value.value = ast.Name('_ch%d' % k, ast.Load())
    if k:
        yield fn, []


def t_aug(fn, ctx):
    done = False
    for n, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and (
                    isinstance(st.value, ast.Constant) or isinstance(st.value, ast.JoinedStr)):
                b[i] = ast.Assign([st.target], ast.BinOp(ast.Name(st.target.id, ast.Load()), st.op, st.value))
                done = True
    if done:
        yield fn, []


def t_tupleassign(fn, ctx):
    """a, b = x, y <-> separate assignments"""
    done = False
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 1, -1, -1):
            st = b[i]
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Tuple) and len(st.targets) == 1 and \
                    len(st.value.elts) == len(st.targets[0].elts):
                if stored(ast.walk(st.targets[0])) & {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}:
                    continue
                b[i:i + 1] = [ast.Assign([p], q) for p, q in zip(st.targets[0].elts, st.value.elts)]
                done = True
            elif i + 1 < len(b) and rw(st) and rw(b[i + 1]) and len(st.targets) == 1 and len(b[i + 1].targets) == 1:
                x, y = rw(st), rw(b[i + 1])
                if not (x[1] & y[0]) and not (x[1] & y[1]) and isinstance(st.targets[0], ast.Name) and isinstance(b[i + 1].targets[0], ast.Name):
                    b[i:i + 2] = [ast.Assign([ast.Tuple([st.targets[0], b[i + 1].targets[0]], ast.Store())], ast.Tuple([st.value, b[i + 1].value], ast.Load()))]
                    done = True
    if done:
        yield fn, []


def t_unpack(fn, ctx):
    """a, b = f() -> t = f(); a = t[0]; b = t[1]"""
    k = 0
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 1, -1, -1):
            st = b[i]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Call) and \
                    not any(isinstance(x, ast.Starred) for x in st.targets[0].elts):
                k += 1
                b[i:i + 1] = [ast.Assign([ast.Name('_u%d' % k, ast.Store())], st.value)] + [
                    ast.Assign([t], E('_u%d[%d]' % (k, j))) for j, t in enumerate(st.targets[0].elts)]
    if k:
        yield fn, []


def t_inline(fn, ctx):
    """single-use temporary -> its expression, when adjacent"""
    done = False
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 2, -1, -1):
            st, nx = b[i], b[i + 1]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and noeffect(st.value) and \
                    isinstance(nx, (ast.Assign, ast.Return)) and nx.value is not None and noeffect(nx.value):
                v = st.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v and x is not st.targets[0]]
                inn = [x for x in ast.walk(nx.value) if isinstance(x, ast.Name) and x.id == v]
                if len(uses) == 1 and len(inn) == 1 and not any(isinstance(x, (ast.ListComp, ast.Lambda)) for x in ast.walk(nx.value)):
                    nx.value = Sub(lambda x: st.value if x is inn[0] else None).visit(nx.value)
                    del b[i]
                    done = True
    if done:
        yield fn, []


def t_writeout(fn, ctx):
    """a call of a helper (a statement of its own) -> the body of the helper, written out"""
    prog, mod, cls = ctx['prog'], ctx['mod'], ctx['cls']
    if nested(fn) or not fn.args.args:
        return
    me = fn.args.args[0].arg

    def callee(call):
        if not isinstance(call, ast.Call) or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return None
        if cls is not None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == me:
            m = prog.method(cls, call.func.attr)
            if m is None or any(call.func.attr in c.methods and c.methods[call.func.attr] is not m for c in prog.subclasses(cls)):
                return None
        elif isinstance(call.func, ast.Name):
            m = prog.funcs.get(mod + '.' + call.func.id)
        else:
            return None
        if m is None or m.module.name != mod or m.node is fn or m.node.name == fn.name or m.node.decorator_list:
            return None
        g = m.node
        a = g.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or nested(g) or 'super(' in ast.unparse(g):
            return None
        if any(isinstance(n, (ast.Global, ast.Import, ast.ImportFrom, ast.Yield)) for n in ast.walk(g)):
            return None
        rets = [n for n in ast.walk(g) if isinstance(n, ast.Return)]
        if len(rets) > 1 or rets and rets[0] is not g.body[-1]:
            return None
        return m

    spots = [(i, k) for i, (n, f, b) in enumerate(blocks(fn)) for k, st in enumerate(b)
             if isinstance(st, (ast.Expr, ast.Assign, ast.Return)) and st.value is not None and callee(st.value)]
    for i, k in spots[:ctx.get('n', 6)]:
        g = copy.deepcopy(fn)
        b = list(blocks(g))[i][2]
        st = b[k]
        m = callee(st.value)
        body = copy.deepcopy(m.node)
        ps = [x.arg for x in body.args.args]
        given = {}
        args = list(st.value.args)
        if m.cls is not None:
            args = [st.value.func.value] + args
        for p, v in zip(ps, args):
            given[p] = v
        for kw in st.value.keywords:
            given[kw.arg] = kw.value
        d = body.args.defaults
        for p, v in zip(ps[len(ps) - len(d):], d):
            given.setdefault(p, v)
        if set(given) != set(ps):
            continue
        loc = stored(ast.walk(body)) | set(ps)
        w = '_w'
        if m.cls is not None:
            loc.discard(ps[0])
            if ps[0] != me or ps[0] in stored(ast.walk(body)):
                continue
        for n in ast.walk(body):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id += w
            elif isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name += w
        pre = [ast.Assign([ast.Name(p + w, ast.Store())], given[p]) for p in ps if p in loc]
        stm = body.body[nodoc(body.body):]
        if stm and isinstance(stm[-1], ast.Return):
            st.value = stm[-1].value or ast.Constant(None)
            stm = stm[:-1]
            tail = [st] if not isinstance(st, ast.Expr) or not noeffect(st.value) else []
        elif isinstance(st, ast.Expr):
            tail = []
        else:
            st.value = ast.Constant(None)
            tail = [st]
        b[k:k + 1] = pre + stm + tail
        yield g, []


def t_npwrap(fn, ctx):
    """equivalent numpy spellings"""
    done = [0]

    def rep(n):
        if isinstance(n, ast.Call):
            s = ast.unparse(n.func)
            if s in ('np.sum', 'np.max', 'np.min', 'np.mean') and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.BinOp)):
                done[0] = 1
                return ast.Call(ast.Attribute(n.args[0], s[3:], ast.Load()), [], [])
            if s == 'np.zeros' and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Tuple):
                done[0] = 1
                return ast.Call(E('np.full'), [n.args[0], ast.Constant(0.)], [])
            if s == 'np.ones' and len(n.args) == 1 and not n.keywords:
                done[0] = 1
                return ast.Call(E('np.full'), [n.args[0], ast.Constant(1.)], [])
            if s in ('np.arange',) and len(n.args) == 1 and not n.keywords:
                done[0] = 1
                n.args = [ast.Constant(0)] + n.args
            if s == 'np.abs':
                n.func = E('np.absolute')
                done[0] = 1
            if s == 'np.power' and len(n.args) == 2:
                done[0] = 1
                return ast.BinOp(n.args[0], ast.Pow(), n.args[1])
            if s == 'np.where' and len(n.args) == 1:
                done[0] = 1
                n.func = E('np.nonzero')
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' and isinstance(n.ctx, ast.Load):
            done[0] = 1
            n.value = ast.Call(E('np.shape'), [n.value.value], [])
    Sub(rep).visit(fn)
    if done[0]:
        yield fn, []


def t_closure(fn, ctx):
    """runs of statements into a nested closure without parameters"""
    for g, new in t_extract(fn, dict(ctx, n=3, cls=None)):
        h = new[0][1]
        if stored(own(h)) & set(x.arg for x in h.args.args):
            continue
        nm = h.name
        outside = copy.deepcopy(g)
        for x in ast.walk(outside):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == nm:
                x.args = []
        h.args.args = []
        outside.body.insert(nodoc(outside.body), h)
        yield outside, []


SETTERS = [
    'for key, val in kwargs.items():\n  if key in self.__dict__:\n    setattr(self, key, val)',
    'for key in kwargs:\n  if key not in self.__dict__:\n    continue\n  self.__dict__[key] = kwargs[key]',
    'known = vars(self)\nknown.update({k: v for k, v in kwargs.items() if k in known})',
    'for key, val in kwargs.items():\n  if hasattr(self, key):\n    setattr(self, key, val)',
    '_set_known_kw(self, **kwargs)', '_set_known(self, kwargs)', 'self._set_known_(kwargs)',
    'self.__dict__.update({key: kwargs[key] for key in kwargs if key in self.__dict__})']


def t_setter(fn, ctx):
    """the attribute update written in other ways"""
    for n, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.Expr) and ast.unparse(st).startswith('self.__dict__.update(dict(['):
                for src in SETTERS:
                    new = []
                    if src.startswith('_set'):
                        new = [('mod', S('def %s(obj, %s):\n  for k, v in settings.items():\n    if k in obj.__dict__:\n'
                                         '      setattr(obj, k, v)' % (src.split('(')[0], src.split(', ')[1][:-1].replace('kwargs', 'settings')))[0])]
                    elif src.startswith('self._set'):
                        new = [('cls', S('def _set_known_(self, settings):\n  self.__dict__.update({k: v for k, v in settings.items() '
                                         'if k in self.__dict__})')[0])]
                    b[i:i + 1] = S(src)
                    yield copy.deepcopy(fn), new
                    b[i:i + len(S(src))] = [st]
                return


TR = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_') and callable(v)}


def place(tree, base, g, new):
    """module tree with function `base` replaced"""
    tree = copy.deepcopy(tree)
    for parent in ast.walk(tree):
        body = getattr(parent, 'body', None)
        if isinstance(body, list):
            for i, st in enumerate(body):
                if isinstance(st, F) and st.name == base.name and st.lineno == base.lineno:
                    body[i] = g
                    for where, d in new:
                        if where == 'cls':
                            body.insert(i + 1, d)
    for where, d in new:
        if where == 'mod':
            # before the first def or class
            k = next((i for i, st in enumerate(tree.body) if isinstance(st, (F, ast.ClassDef))), len(tree.body))
            tree.body.insert(k, d)
    ast.fix_missing_locations(tree)
    return tree


def inthread(f, job):
    res = []

    def go():
        import traceback
        try:
            res.append(f(job))
        except Exception:
            traceback.print_exc()
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return res[0] if res else []


def work(job):
    return inthread(_work, job)


def _work(job):
    qual, tname = job
    prog0 = load_program(trees=TREES)
    base = prog0.func(qual)
    short = qual.replace('misfit.', '', 1)
    ctx = {'prog': prog0, 'mod': base.module.name, 'cls': base.cls}
    out = []
    k = 0
    for g, new in TR[tname](copy.deepcopy(base.node), ctx):
        text = ast.unparse(place(base.module.tree, base.node, g, new))
        if os.environ.get('SHOW'):
            print(ast.unparse(ast.fix_missing_locations(g)))
            for w, d in new:
                print('  +', ast.unparse(ast.fix_missing_locations(d)))
        k += 1
        try:
            prog = load_program(sources={base.module.path: text}, trees=dict(TREES))
        except (AnalysisBroken, SyntaxError) as e:
            out.append((qual, tname, k, 'BROKEN', repr(e)[:200]))
            continue
        r = Runner(prog)
        for s in r.specs:
            if s.target != short and short not in USES.get(s.name, ()):
                continue
            try:
                os_ = r.decide(s)
            except Exception as e:
                out.append((qual, tname, k, 'ERROR', s.name + repr(e)[:300]))
                continue
            for o in os_:
                b = BASE.get((s.name, o.key))
                if o.status == 'violation' and b != 'violation':
                    out.append((qual, tname, k, 'ALARM', o.key + ' :: ' + o.detail[:500]))
                elif o.status != 'ok' and b == 'ok':
                    out.append((qual, tname, k, 'lost', o.key + ' :: ' + o.detail[:250]))
        out.append((qual, tname, k, 'done', ''))
    return out


def rwork(job):
    return inthread(_rwork, job)


def _rwork(job):
    path, mname, tname, seed = job
    prog0 = load_program(trees=TREES)
    tree = prog0.modules[mname].tree
    rnd = random.Random(seed)
    for f in prog0.all_funcs():
        if f.module.name != mname:
            continue
        ctx = {'prog': prog0, 'mod': mname, 'cls': f.cls, 'n': 20}
        opts = list(TR[tname](copy.deepcopy(f.node), ctx))
        if opts:
            g, new = rnd.choice(opts)
            tree = place(tree, f.node, g, new)
    text = ast.unparse(tree)
    out = []
    prog = load_program(sources={path: text}, trees=dict(TREES))
    r = Runner(prog)
    for rl in rulebase.load(os.path.join(H, 'rules')):
        ctx = rulebase.Context(prog, r, 'quick')
        for p in rl.props:
            try:
                os_ = list(rl.run(ctx, p))
            except AnalysisBroken as e:
                out.append((mname, tname, seed, 'lost', rl.name + repr(e)))
                continue
            except Exception as e:
                import traceback
                out.append((mname, tname, seed, 'ERROR', rl.name + traceback.format_exc()[-600:]))
                continue
            ng = nb = 0
            for o in os_:
                if o.status == 'violation' and o.key not in KNOWN:
                    out.append((mname, tname, seed, 'ALARM', rl.name + ' ' + p + ' ' + o.key + ' :: ' + o.detail[:300]))
                elif o.status == 'undecided' and BASE.get((rl.name, p, o.key)) == 'ok':
                    out.append((mname, tname, seed, 'lost', rl.name + ' ' + p + ' ' + o.key + ' :: ' + o.detail[:200]))
    out.append((mname, tname, seed, 'done', ''))
    return out


def mwork(job):
    return inthread(_mwork, job)


def _mwork(job):
    seed, pats = job
    rnd = random.Random(seed)
    prog0 = load_program(trees=TREES)
    sources, done = {}, {}
    for mname in sorted(prog0.modules):
        if mname.startswith('spec.') or '.plot' in mname:
            continue
        tree = prog0.modules[mname].tree
        changed = False
        for f in prog0.all_funcs():
            if f.module.name != mname or f.qual.endswith('_ORIG') or (pats and not any(a in f.qual for a in pats)):
                continue
            node, news, chain = copy.deepcopy(f.node), [], []
            for i in range(rnd.choice((1, 2, 3, 4))):
                for tname in rnd.sample(sorted(TR), 8):
                    try:
                        opts = list(TR[tname](copy.deepcopy(node), {'prog': prog0, 'mod': mname, 'cls': f.cls, 'n': 100 * i + 20}))
                    except Exception:
                        continue
                    if opts:
                        node, new = rnd.choice(opts)
                        # every stage has names of its own
                        uid = '_%s%d_' % (f.qual.replace('.', ''), i)

                        def own_names(x):
                            return ast.parse(re.sub(r'(?<!\w)_(?=(?:t\d+|cond\d+|hi\d+|CONST_\w+|hlp_\w+|impl_\w+)\b)', uid,
                                                    ast.unparse(ast.fix_missing_locations(x)))).body[0]
                        node = own_names(node)
                        news = news + [(w, own_names(d)) for w, d in new]
                        chain.append(tname)
                        break
            if chain:
                tree = place(tree, f.node, node, news)
                done[f.qual.replace('misfit.', '', 1)] = '+'.join(chain)
                changed = True
        if changed:
            sources[prog0.modules[mname].path] = ast.unparse(tree)
    if os.environ.get('DUMP'):
        for k, v in sources.items():
            fn = os.path.join(os.environ['DUMP'], str(seed) + '_' + os.path.basename(k))
            open(fn, 'w').write(v)
    prog = load_program(sources=sources, trees=dict(TREES))
    r = Runner(prog)
    out = []
    for s in r.specs:
        try:
            os_ = r.decide(s)
        except Exception as e:
            out.append((s.target, done.get(s.target, ''), seed, 'ERROR', repr(e)[:300]))
            continue
        for o in os_:
            b = BASE.get((s.name, o.key))
            if o.status == 'violation' and b != 'violation':
                out.append((s.target, done.get(s.target, ''), seed, 'ALARM', o.key + ' :: ' + o.detail[:500]))
            elif o.status != 'ok' and b == 'ok':
                out.append((s.target, done.get(s.target, ''), seed, 'lost', o.key + ' :: ' + o.detail[:250]))
    for rl in rulebase.load(os.path.join(H, 'rules')):
        ctx = rulebase.Context(prog, r, 'quick')
        for p in rl.props:
            try:
                for o in rl.run(ctx, p):
                    if o.status == 'violation' and o.key not in KNOWN:
                        out.append((rl.name, p, seed, 'ALARM', o.key + ' :: ' + o.detail[:300]))
            except Exception as e:
                out.append((rl.name, p, seed, 'ERROR', repr(e)[:300]))
    out.append(('program', 'chain', seed, 'done', ''))
    return out


def main():
    argv = sys.argv[1:]
    tr = list(TR)
    if '-t' in argv:
        i = argv.index('-t')
        tr = argv[i + 1].split(',')
        del argv[i:i + 2]
    many = None
    if '-m' in argv:
        i = argv.index('-m')
        lo, _, hi = argv[i + 1].partition('-')
        many = range(int(lo), int(hi)) if hi else range(int(lo))
        del argv[i:i + 2]
    args = [a for a in argv if not a.startswith('-')]
    p = load_program(trees=TREES)
    r = Runner(p)
    for line in open(os.path.join(H, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S.*?) :: (.*)$', line.strip())
        if m:
            KNOWN.add(m.group(2))
    t0 = time.time()
    if '-r' in argv:
        for rl in rulebase.load(os.path.join(H, 'rules')):
            ctx = rulebase.Context(p, r, 'quick')
            for pr in rl.props:
                for o in rl.run(ctx, pr):
                    BASE[(rl.name, pr, o.key)] = o.status
        jobs = []
        for m in sorted(p.modules):
            if m.startswith('spec.') or (args and not any(a in m for a in args)):
                continue
            for t in tr:
                for seed in (range(3) if t.startswith(('extract', 'closure')) else (0,)):
                    jobs.append((p.modules[m].path, m, t, seed))
        fun = rwork
    else:
        for s in r.specs:
            r.functions = set()
            for o in r.decide(s):
                BASE[(s.name, o.key)] = o.status
            USES[s.name] = {q.replace('misfit.', '', 1) for q in r.functions}
        jobs = [(f.qual, t) for f in p.all_funcs() for t in tr
                if (not args or any(a in f.qual for a in args)) and '.plot.' not in f.qual]
        fun = work
    if many is not None:
        jobs, fun = [(s, args) for s in many], mwork
    tot = {}
    with ProcessPoolExecutor(8) as ex:
        for res in ex.map(fun, jobs):
            for q, t, k, st, d in res:
                c = tot.setdefault(t, {})
                c[st] = c.get(st, 0) + 1
                if st in ('ALARM', 'ERROR', 'BROKEN') or (st == 'lost' and '-l' in argv):
                    print(st, q, t, k, d, flush=True)
    for t in sorted(tot):
        print(t, tot[t])
    print('%.0fs' % (time.time() - t0))


if __name__ == '__main__':
    main()
