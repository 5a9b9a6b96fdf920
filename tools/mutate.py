#!/usr/bin/env python3
"""Sensitivity of the checks: mutate the source in memory (nothing is executed or written) and see which
mutants no check reports.  mutate.py [-s] [pattern of function names]   (-s: print survivors with context)"""
import ast, copy, os, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from concurrent.futures import ProcessPoolExecutor
from analysis.runner import load_program, Runner
from analysis.gvn import Engine
from analysis import rulebase
from analysis.loader import AnalysisBroken

TREES = {}
PROPS = ['C%02d' % i for i in range(1, 23)]


def mutants(fn):
    """[(description, mutated FunctionDef)]"""
    out = []
    nodes = list(ast.walk(fn))
    plot = set()

    def emit(desc, change, undo):
        change()
        try:
            out.append((desc, copy.deepcopy(fn)))
        finally:
            undo()

    def swap(obj, field, new, desc):
        old = getattr(obj, field)
        emit(desc, lambda: setattr(obj, field, new), lambda: setattr(obj, field, old))

    doc = ast.get_docstring(fn)
    for n in nodes:
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
                   ast.FloorDiv: ast.Mult}.get(type(n.op))
            if alt and not (isinstance(n.op, ast.Add) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                swap(n, 'op', alt(), '%d binop %s' % (ln, ast.unparse(n)[:60]))
        elif isinstance(n, ast.AugAssign):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if alt:
                swap(n, 'op', alt(), '%d augop %s' % (ln, ast.unparse(n)[:60]))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                   ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(n.ops[0]))
            if alt:
                old = n.ops
                emit('%d cmp %s' % (ln, ast.unparse(n)[:60]), lambda: setattr(n, 'ops', [alt()]), lambda: setattr(n, 'ops', old))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            swap(n, 'value', n.value + 1 if n.value != 2 else 3, '%d const %r' % (ln, n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            swap(n, 'value', not n.value, '%d bool %r' % (ln, n.value))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                pass
            for i, k in enumerate(n.keywords):
                if k.arg:
                    old = n.keywords
                    new = old[:i] + old[i + 1:]
                    emit('%d dropkw %s' % (ln, ast.unparse(n)[:40] + ' ' + k.arg), lambda: setattr(n, 'keywords', new),
                         lambda: setattr(n, 'keywords', old))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                old = n.args
                new = [old[1], old[0]] + old[2:]
                if ast.dump(old[0]) != ast.dump(old[1]):
                    emit('%d swapargs %s' % (ln, ast.unparse(n)[:60]), lambda: setattr(n, 'args', new), lambda: setattr(n, 'args', old))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            pass
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            alt = {'re_arcsec': 're_mass_arcsec', 're_mass_arcsec': 're_arcsec', 'q': 'q_mass', 'q_mass': 'q', 'flux': 'flux_err',
                   'flux_err': 'flux', 'nX': 'nY', 'nY': 'nX', 'delt_x': 'delt_y', 'delt_y': 'delt_x', 'padX': 'padY', 'padY': 'padX',
                   'n_pix_x': 'n_pix_y', 'n_pix_y': 'n_pix_x', 'x_arr': 'y_arr', 'y_arr': 'x_arr', 'spec_mask': 'mask_sky',
                   'mask_sky': 'spec_mask', 'theta_names': 'theta_names_nice', 'wave': 'obswave', 'obswave': 'restwave',
                   'nBurn': 'nSteps', 'nSteps': 'nBurn', 'wh_sky': 'wh_nosky', 'wh_nosky': 'wh_sky'}.get(n.attr)
            if alt:
                swap(n, 'attr', alt, '%d attr %s' % (ln, ast.unparse(n)[:60]))
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Expr,)) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, (ast.Import, ast.ImportFrom, ast.Pass)):
                        continue
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise)):
                        new = b[:i] + [ast.copy_location(ast.Pass(), st)] + b[i + 1:]
                        emit('%d delstmt %s' % (st.lineno, ast.unparse(st)[:70]), lambda: setattr(n, field, new), lambda: setattr(n, field, b))
        # drop copies
        for name, val in ast.iter_fields(n):
            vals = val if isinstance(val, list) else [val]
            for v in vals:
                if isinstance(v, ast.Call):
                    inner = None
                    if isinstance(v.func, ast.Attribute) and v.func.attr == 'copy' and not v.args and not v.keywords:
                        inner = v.func.value
                    elif ast.unparse(v.func) in ('copy.deepcopy', 'copy.copy', 'np.abs') and len(v.args) == 1:
                        inner = v.args[0]
                    if inner is not None:
                        if isinstance(val, list):
                            new = [inner if x is v else x for x in val]
                        else:
                            new = inner
                        swap(n, name, new, '%d dropcall %s' % (v.lineno, ast.unparse(v)[:60]))
    return out


def isplot(desc):
    return any(w in desc for w in ('plt.', 'ax.', 'ax1.', 'ax2.', 'ax3.', 'print(', 'fig', 'gs1', 'ax4.', 'ax5.', 'debug'))


def work(job):
    import threading
    res = []

    def go():
        res.append(_work(job))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return res[0] if res else [(job[0], 'CRASH', '')]


def _work(job):
    qual, path, lo, hi = job
    prog0 = load_program(trees=TREES)
    base = prog0.func(qual)
    src = base.module.src
    muts = mutants(copy.deepcopy(base.node))[lo:hi]
    out = []
    for desc, node in muts:
        if isplot(desc) or not LINES[0] <= int(desc.split()[0]) <= LINES[1]:
            continue
        tree = copy.deepcopy(base.module.tree)
        done = False
        for parent in ast.walk(tree):
            body = getattr(parent, 'body', None)
            if isinstance(body, list):
                for i, st in enumerate(body):
                    if isinstance(st, ast.FunctionDef) and st.name == base.node.name and st.lineno == base.node.lineno:
                        body[i] = node
                        done = True
        ast.fix_missing_locations(tree)
        text = ast.unparse(tree)
        try:
            prog = load_program(sources={path: text}, trees=dict(TREES))
        except (AnalysisBroken, SyntaxError):
            continue
        r = Runner(prog)
        killed = False
        und = False
        specs = sorted(r.specs, key=lambda s: s.target != qual.replace('misfit.', '', 1))
        for s in specs:
            short = qual.replace('misfit.', '', 1)
            if s.target != short and short not in USES.get(s.name, ()):
                continue
            try:
                os_ = r.decide(s)
            except Exception as e:
                print('ENGINE-ERROR', qual, desc, repr(e)[:200])
                continue
            if any(o.status == 'violation' for o in os_):
                killed = s.name
                break
            und = und or any(o.status == 'undecided' for o in os_)
        if not killed:
            for rl in rulebase.load(os.path.join(H, 'rules')):
                ctx = rulebase.Context(prog, r, 'quick')
                try:
                    if any(o.status == 'violation' and o.key not in KNOWN for p in rl.props for o in rl.run(ctx, p)):
                        killed = 'rule ' + rl.name
                        break
                except AnalysisBroken:
                    pass
        out.append((qual, desc, killed or ('undecided' if und else 'SURVIVES')))
    return out


LINES = tuple(int(x) for x in os.environ.get('MUT_LINES', '0,1000000').split(','))   # only mutants on these lines
USES = {}
KNOWN = set()


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    p = load_program(trees=TREES)
    r = Runner(p)
    for s in r.specs:
        e0 = set(r.functions)
        r.functions = set()
        r.decide(s)
        USES[s.name] = {q.replace('misfit.', '', 1) for q in r.functions}
    import re
    kf = os.path.join(H, 'known_findings.txt')
    for line in open(kf):
        m = re.match(r'known: property=(\S+) key=(\S.*?) :: (.*)$', line.strip())
        if m:
            KNOWN.add(m.group(2))
    jobs = []
    for f in p.all_funcs():
        q = f.qual
        if args and not any(a in q for a in args):
            continue
        if not args and '.plot.' in q:
            continue
        n = len(mutants(copy.deepcopy(f.node)))
        path = f.module.path
        for lo in range(0, n, 12):
            jobs.append((q, path, lo, lo + 12))
    tot = {}
    t0 = time.time()
    surv = []
    with ProcessPoolExecutor(8) as ex:
        for res in ex.map(work, jobs):
            for q, d, k in res:
                c = tot.setdefault(q, [0, 0, 0])
                if k == 'SURVIVES':
                    c[2] += 1
                    surv.append((q, d, k))
                elif k == 'undecided':
                    c[1] += 1
                    surv.append((q, d, k))
                else:
                    c[0] += 1
    for q in sorted(tot):
        print('%-70s killed %d undecided %d survived %d' % (q, *tot[q]))
    print('TOTAL', [sum(c[i] for c in tot.values()) for i in range(3)], '%.0fs' % (time.time() - t0))
    if '-s' in sys.argv:
        for s in surv:
            print('  ', *s)


if __name__ == '__main__':
    main()
