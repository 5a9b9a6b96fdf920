"""The line tables shipped in misfit/lib: names, columns, values and the relations between them."""
import ast
import os
import re

from analysis.rulebase import rule, ok, bad, undecided

PKG = 'misfit'

# columns the readers take, and the tables they take them from
COLUMNS = {
    'line_names_cat.dat': ('name', 'lineset'),
    'line_wavelengths_ratios.dat': ('linename', 'restwave', 'strength'),
    'full_range_restwave_2D.param': ('linename', 'wave_l', 'wave_u'),
    'line_range_restwave_2D.param': ('linename', 'wave_l', 'wave_u'),
    'mask_lines_range_restwave_2D.param': ('linename', 'wave_l', 'wave_u'),
    'trim_wavelengths_1D.param': ('linename', 'wave_l', 'wave_u'),
    'band_sky_cutoff_mosfire.dat': ('band', 'sn_cutoff', 'units'),
}
# vacuum wavelengths [Angstrom] of the transitions the package names
ATOMIC = {'HA6565': 6564.61, 'HB4863': 4862.68, 'OIII5008': 5008.24, 'OIII4960': 4960.295, 'NII6550': 6549.86,
          'NII6585': 6585.27, 'SII6718': 6718.29, 'SII6733': 6732.67, 'OII3727': 3727.09, 'OII3730': 3729.88}
# doublets with a common upper level: the weaker line is a fixed fraction of the brighter one
FIXED = {'OIII4960': (0.30, 0.36), 'NII6550': (0.30, 0.36)}


class Table:
    def __init__(self, path):
        self.path = path
        self.rel = 'misfit/lib/' + os.path.basename(path)
        self.header, self.rows, self.problems = None, [], []
        with open(path, encoding='utf-8') as f:
            for i, l in enumerate(f, 1):
                s = l.strip()
                if not s:
                    continue
                if s.startswith('#'):
                    if self.header is None:
                        self.header = s[1:].split()
                    continue
                w = s.split()
                if self.header is None or len(w) != len(self.header):
                    self.problems.append((i, s))
                    continue
                self.rows.append((i, dict(zip(self.header, w))))

    def at(self, i):
        return '%s:%d' % (self.rel, i)


def number(s):
    try:
        v = float(s)
        return v if v == v and abs(v) != float('inf') else None
    except ValueError:
        return None


@rule('C18')
def line_tables(ctx, prop):
    out = []
    lib = os.path.join(ctx.prog.root, PKG, 'lib')
    named = {}
    for m in ctx.prog.modules.values():
        if not m.name.startswith(PKG):
            continue
        docs = {id(n.value) for n in ast.walk(m.tree) if isinstance(n, ast.Expr)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and \
                    re.fullmatch(r'[\w./-]+\.(dat|param)', n.value):
                named.setdefault(os.path.basename(n.value), (m, n))
    T = {}
    for f in sorted(set(named) | set(COLUMNS)):
        p = os.path.join(lib, f)
        if f in named:
            m, n = named[f]
            where = '%s:%d' % (os.path.relpath(m.path, ctx.prog.root), n.lineno)
            out.append((ok if os.path.isfile(p) else bad)('table %s: shipped in misfit/lib' % f, where,
                       '' if os.path.isfile(p) else 'the package reads this table but does not hold it'))
        if not os.path.isfile(p):
            continue
        t = T[f] = Table(p)
        for i, s in t.problems:
            out.append(bad('table %s: every row fills every column' % f, t.at(i), 'row %r does not match %s' % (s, t.header)))
        if not t.problems:
            out.append(ok('table %s: every row fills every column' % f, t.rel))
        miss = [c for c in COLUMNS.get(f, ()) if c not in (t.header or [])]
        out.append((bad if miss else ok)('table %s: columns the readers take' % f, t.at(1),
                                         'missing %s' % miss if miss else ''))
        key = (t.header or ['?'])[0]
        seen = {}
        for i, r in t.rows:
            if r[key] in seen:
                out.append(bad('table %s: one row per name' % f, t.at(i), '%s is given twice: the readers take line %d only'
                               % (r[key], seen[r[key]])))
            seen.setdefault(r[key], i)
        if len(seen) == len(t.rows):
            out.append(ok('table %s: one row per name' % f, t.rel))

    def usable(f):
        return f in T and all(c in (T[f].header or []) for c in COLUMNS[f])

    wave, ratio = {}, {}
    if usable('line_wavelengths_ratios.dat'):
        t = T['line_wavelengths_ratios.dat']
        for i, r in t.rows:
            n, w, s = r['linename'], number(r['restwave']), number(r['strength'])
            k = 'line %s: ' % n
            out.append((ok if w is not None and w > 0 else bad)(k + 'rest wavelength is a positive number', t.at(i), r['restwave']))
            good = s is not None and 0. < s <= 1.
            out.append((ok if good else bad)(k + 'flux ratio is relative to the brightest line of its set (0 < ratio <= 1)', t.at(i), r['strength']))
            if n in FIXED and s is not None:
                a, b = FIXED[n]
                out.append((ok if a <= s <= b else bad)(k + 'fixed ratio of its doublet (about one third)', t.at(i), r['strength']))
            if w is not None and n in ATOMIC:
                out.append((ok if abs(w - ATOMIC[n]) <= 0.1 else bad)(
                    k + 'rest wavelength is the vacuum wavelength of the transition', t.at(i), '%s, expected %s' % (w, ATOMIC[n])))
            d = re.search(r'(\d{4,5})$', n)
            if w is not None and d:
                out.append((ok if abs(w - int(d.group(1))) <= 1. else bad)(
                    k + 'rest wavelength agrees with the line name', t.at(i), '%s against %s' % (w, n)))
            wave.setdefault(n, w)
            ratio.setdefault(n, s)
    sets = {}
    if usable('line_names_cat.dat'):
        t = T['line_names_cat.dat']
        for i, r in t.rows:
            ls = r['lineset'].split(',')
            sets[r['name']] = ls
            k = 'line set %s: ' % r['name']
            if wave:
                lost = [x for x in ls if x not in wave]
                out.append((bad if lost else ok)(k + 'every line has a wavelength and a ratio', t.at(i), 'no row for %s' % lost if lost else ''))
            out.append((ok if len(set(ls)) == len(ls) else bad)(k + 'no line twice', t.at(i), r['lineset']))
            rs = [ratio.get(x) for x in ls]
            if rs and all(x is not None for x in rs):
                out.append((ok if max(rs) == 1. else bad)(k + 'brightest line has ratio one', t.at(i), str(rs)))
    rng = {}
    for f in ('full_range_restwave_2D.param', 'mask_lines_range_restwave_2D.param', 'line_range_restwave_2D.param', 'trim_wavelengths_1D.param'):
        if not usable(f):
            continue
        t = T[f]
        for i, r in t.rows:
            a, b = number(r['wave_l']), number(r['wave_u'])
            k = 'table %s: %s ' % (f, r['linename'])
            good = a is not None and b is not None and a < b
            out.append((ok if good else bad)(k + 'range runs from lower to upper', t.at(i), '%s %s' % (r['wave_l'], r['wave_u'])))
            if not good:
                continue
            rng.setdefault(f, {})[r['linename']] = (a, b, i)
            lines = [r['linename']] if r['linename'] in wave else sets.get(r['linename'], [])
            for x in lines:
                if wave.get(x) is not None:
                    out.append((ok if a < wave[x] < b else bad)(k + 'range holds the line %s' % x, t.at(i), '%s in %s..%s' % (wave[x], a, b)))
            if not lines and wave:
                out.append(bad(k + 'names a known line or line set', t.at(i), 'no such line'))
    full, mask, line = (rng.get(f) for f in ('full_range_restwave_2D.param', 'mask_lines_range_restwave_2D.param', 'line_range_restwave_2D.param'))
    if full and mask and line:
        for n in sorted(set(full) | set(mask) | set(line)):
            k = 'line %s: ' % n
            lost = [x for x, d in (('full range', full), ('mask range', mask), ('line range', line)) if n not in d]
            out.append((bad if lost else ok)(k + 'has a full, a mask and a line range', 'misfit/lib', 'no %s' % lost if lost else ''))
            if lost:
                continue
            (a, b, i), (c, d, j), (e, f, l) = full[n], mask[n], line[n]
            out.append((ok if a < c and d < b else bad)(k + 'mask range lies inside the full range',
                       T['mask_lines_range_restwave_2D.param'].at(j), '%s..%s in %s..%s' % (c, d, a, b)))
            out.append((ok if c <= e and f <= d else bad)(k + 'line range lies inside the masked range',
                       T['line_range_restwave_2D.param'].at(l), '%s..%s in %s..%s' % (e, f, c, d)))
    if usable('band_sky_cutoff_mosfire.dat'):
        t = T['band_sky_cutoff_mosfire.dat']
        for i, r in t.rows:
            v = number(r['sn_cutoff'])
            out.append((ok if v is not None and v > 0 else bad)('sky cutoff of band %s is a positive number' % r['band'], t.at(i), r['sn_cutoff']))
            out.append((ok if r['units'] == 'timesMedianErr' else bad)('sky cutoff of band %s is in supported units' % r['band'], t.at(i), r['units']))
        for b in 'JHKY':
            out.append((ok if any(r['band'] == b for _, r in t.rows) else bad)('sky cutoff known for band %s' % b, t.rel, ''))
    out += packaged(ctx, lib)
    return out


def packaged(ctx, lib):
    """setup.py ships every table."""
    p = os.path.join(ctx.prog.root, 'setup.py')
    try:
        tree = ast.parse(open(p, encoding='utf-8').read())
    except (OSError, SyntaxError):
        return [undecided('tables are shipped with the package', 'setup.py', 'setup.py not readable')]
    import fnmatch
    vals = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value == 'package_data':
                    vals.append(v)
        elif isinstance(n, ast.keyword) and n.arg == 'package_data':
            vals.append(n.value)
    pats = []
    for v in vals:
        try:
            d = ast.literal_eval(v)
            pats += list(d.get(PKG, [])) + list(d.get('', []))
        except (ValueError, AttributeError):
            return [undecided('tables are shipped with the package', 'setup.py', 'package_data not a literal')]
    if not vals:
        return [undecided('tables are shipped with the package', 'setup.py', 'no package_data')]
    out = []
    for f in sorted(os.listdir(lib)):
        if not f.endswith(('.dat', '.param')):
            continue
        hit = any(fnmatch.fnmatch('lib/' + f, q) for q in pats)
        out.append((ok if hit else bad)('table %s is shipped with the package' % f, 'setup.py', '' if hit else 'not matched by %s' % pats))
    return out


LOOSE = {'startswith', 'endswith', 'find', 'rfind', 'match', 'search', 'contains', 'fnmatch', 'count', 'partition'}


@rule('C18')
def exact_rows(ctx, prop):
    """The readers pick the row whose name equals the requested one, not one that only resembles it."""
    m = next((m for m in ctx.prog.modules.values() if m.name.endswith('general.io')), None)
    if m is None:
        return
    readers = {}
    for f in ctx.prog.all_funcs():
        if f.module is m:
            readers[f.node.name] = f
    todo = []
    for f in readers.values():
        a = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if f.node.name.startswith('read_') and len(a) > 1:
            todo.append((f, frozenset(a[1:])))
    seen = set()
    while todo:
        f, ps = todo.pop()
        if (f.qual, ps) in seen:
            continue
        seen.add((f.qual, ps))
        names = set(ps)
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)) and not any(
                        isinstance(x, (ast.Call, ast.Compare, ast.Subscript)) for x in ast.walk(n.value)):
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}

        def asked(e):
            return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))
        key, found = 'rows picked by %s' % f.qual, False
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            used = any(asked(a) for a in n.args) or isinstance(n.func, ast.Attribute) and isinstance(
                n.func.value, ast.Name) and n.func.value.id in names
            if name in LOOSE and used and not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.List, ast.Tuple))):
                found = True
                if name == 'count' or any(isinstance(x, ast.Constant) for x in n.args[:1]):
                    yield undecided(key, '%s:%d' % (m.rel, n.lineno), name)
                else:
                    yield bad(key, '%s:%d' % (m.rel, n.lineno), 'the row is picked by %s, which other names satisfy too' % name)
            g = readers.get(name)
            if g is not None and g is not f:
                gp = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
                sub = frozenset([gp[i] for i, a in enumerate(n.args) if i < len(gp) and asked(a)] +
                                [k.arg for k in n.keywords if k.arg in gp and asked(k.value)])
                if sub:
                    todo.append((g, sub))
        if not found:
            yield ok(key, f.where, '')
