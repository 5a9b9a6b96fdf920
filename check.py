#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--list]

Decides one property of /repo's current source by static analysis.  Exit 0: held on everything
decided; exit 1: at least one `VIOLATION property=.. replay=..` line; exit 2: the analysis could not
be carried out (source unreadable, or most of the anchors gone)."""
import argparse, ctypes, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)

from analysis.loader import AnalysisBroken
from analysis.runner import load_program, Runner, Outcome
from analysis import rulebase


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S.*?) :: (.*)$', line.strip())
            if m:
                out.append(m.groups())
    return out


def baseline():
    p = os.path.join(HERE, 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}


class Overtime(BaseException):
    pass


SPEC_SECONDS, ALL_SECONDS = 90, 480      # one specification or rule; the whole check (which may take 900)
STARTED = time.time()


def limited(fn, seconds):
    """fn(), or Overtime once it has taken too long."""
    me, lock, state = threading.get_ident(), threading.Lock(), [False]
    left = min(seconds, ALL_SECONDS - (time.time() - STARTED))
    if left <= 0:
        raise Overtime()

    def fire():
        with lock:
            if not state[0]:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(Overtime))
    timer = threading.Timer(left, fire)
    timer.daemon = True
    timer.start()
    try:
        return fn()
    finally:
        with lock:
            state[0] = True
        timer.cancel()


def run(prop, tier):
    global SPEC_SECONDS, ALL_SECONDS
    t0 = time.time()
    if tier == 'thorough':
        SPEC_SECONDS, ALL_SECONDS = 300, 780
    prog = load_program()
    runner = Runner(prog, tier)
    outs = []
    specs = [s for s in runner.specs if prop in s.props]
    for s in specs:
        try:
            outs += limited(lambda: runner.decide(s), SPEC_SECONDS)
        except AnalysisBroken:
            raise
        except Overtime:
            outs.append(Outcome(str(s.target), 'undecided', '', 'the analysis takes too long'))
        except Exception as e:
            outs.append(Outcome(str(s.target), 'undecided', '', 'the analysis failed: %r' % (e,)))
    rules = rulebase.load(os.path.join(HERE, 'rules'))
    ctx = rulebase.Context(prog, runner, tier)
    nrules = 0
    for r in rules:
        if prop in r.props:
            nrules += 1
            try:
                limited(lambda: [outs.append(o) for o in r.run(ctx, prop)], SPEC_SECONDS)
            except Overtime:
                outs.append(Outcome('rule ' + r.name, 'undecided', '', 'the analysis takes too long'))
            except AnalysisBroken as e:
                outs.append(Outcome('rule ' + r.name, 'missing', '', str(e)))
            except Exception as e:
                outs.append(Outcome('rule ' + r.name, 'undecided', '', 'the rule failed: %r' % (e,)))
    return prog, runner, specs, nrules, outs, time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    prop = a.property
    try:
        prog, runner, specs, nrules, outs, wall = run(prop, tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    seen, uniq = set(), []
    for o in outs:
        k = (o.key, o.status, o.detail)
        if k not in seen:
            seen.add(k)
            uniq.append(o)
    outs = uniq
    known = [(k, d) for p, k, d in known_findings() if p == prop]
    viol, knownhit = [], []
    for o in outs:
        if o.status == 'violation':
            hit = [d for k, d in known if k == o.key]
            if hit:
                knownhit.append((o, hit[0]))
            else:
                viol.append(o)
    by = {}
    for o in outs:
        by.setdefault(o.status, []).append(o)
    decided = len(by.get('ok', [])) + len(by.get('violation', []))
    if a.list:
        for o in outs:
            print(o)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, prop + '.violations.txt')
    if os.path.exists(replay):
        os.remove(replay)
    if viol:
        with open(replay, 'w') as f:
            for o in viol:
                f.write('rule/obligation: %s\nat: %s\n%s\n\n' % (o.key, o.where, o.detail))
    for o, d in knownhit:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, o.key, d))
    for o in viol:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        print('  %s [%s] %s' % (o.key, o.where, o.detail[:700]))
    und = by.get('undecided', []) + by.get('missing', [])
    base = baseline().get(prop, 0)
    broken = not viol and base and decided < 0.35 * base
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
        'coverage': {
            'explanation': 'Static decision from the source: each obligation compares the value-numbered normal '
                           'form of a function (or a rule over the syntax tree, call graph or event order) with its '
                           'reference; nothing under /repo is executed.  An obligation is ok (normal forms agree, or '
                           'rule holds), violation (they differ in interpreted operators), or undecided (no verdict, '
                           'reported here and never an alarm).',
            'obligations': len(outs), 'discharged': len(by.get('ok', [])),
            'undecided': ['%s: %s' % (o.key, o.detail[:200]) for o in und],
            'known_findings': [o.key for o, d in knownhit],
            'violating': [o.key for o in viol],
            'specifications': len(specs), 'rules': nrules,
            'functions_analysed': sorted(runner.functions | runner.extra_functions),
            'ok_obligations': [o.key for o in by.get('ok', [])],
            'source_digest': prog.digest(),
        },
        'assumptions': ['numpy/scipy/astropy calls of the same name with the same arguments return the same value',
                        'attribute hints in analysis/gvn.py name the classes of the package objects held in attributes'],
        'wall_s': round(wall, 2), 'violations': len(viol),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d ok, %d undecided, %d known, %d violations (%.1fs)' % (
        prop, len(outs), len(by.get('ok', [])), len(und), len(knownhit), len(viol), wall))
    if viol:
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s only %d of %d obligations decided' % (prop, decided, base))
        return 2
    return 0


def entry():
    try:
        rc[0] = main()
    except BaseException:
        traceback.print_exc()
        rc[0] = 2


if __name__ == '__main__':
    rc = [2]
    th = threading.Thread(target=entry)
    th.start()
    th.join()
    sys.stdout.flush()
    sys.exit(rc[0])
