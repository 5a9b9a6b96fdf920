#!/usr/bin/env python3
"""Regenerates MANIFEST.json and baseline.json (number of decided obligations per property)."""
import json, os, subprocess, sys, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = 'gated value numbering of the source against reference equations'
RULE = 'dataflow, event-order and syntax-tree rules over the source'
NOTE = ('Static decision on the current source, nothing is executed: every listed obligation is decided by comparing the '
        'value-numbered normal form of a repository function with its reference form under the same case split, or by a rule '
        'over the syntax tree / call graph / event order. Sound up to real-number algebra and the assumption that library '
        'calls of the same name and arguments agree; code rewritten beyond the normalisation is reported undecided in the '
        'evidence, never as a violation.')
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {}
checks, base = [], {}
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': SPEC + '; ' + RULE, 'level': 'other', 'level_note': NOTE})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 10)"',
           'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'See DESIGN.md. No hooks are needed in /repo.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
if '--base' in sys.argv:
    from concurrent.futures import ThreadPoolExecutor
    def go(i):
        o = subprocess.run([sys.executable, H + '/check.py', i], capture_output=True, text=True, cwd=H).stdout
        m = re.search(r'(\d+) obligations, (\d+) ok, (\d+) undecided, (\d+) known, (\d+) violations \(([\d.]+)s', o)
        return i, m.groups() if m else o
    with ThreadPoolExecutor(7) as ex:
        for i, g in ex.map(go, [c['property'] for c in checks]):
            print(i, g)
            if isinstance(g, tuple):
                base[i] = int(g[1])
    json.dump(base, open(H + '/baseline.json', 'w'), indent=1)
