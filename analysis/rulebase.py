"""Rules that are not function-against-reference comparisons."""
import glob, importlib.util, os
from .runner import Outcome

_REG = []


class Rule:
    def __init__(self, name, props, fn):
        self.name, self.props, self.fn = name, props, fn

    def run(self, ctx, prop):
        return self.fn(ctx, prop)


def rule(props):
    def deco(fn):
        _REG.append(Rule(fn.__name__, props.split(), fn))
        return fn
    return deco


class Context:
    def __init__(self, prog, runner, tier):
        self.prog, self.runner, self.tier = prog, runner, tier
        self.cache = {}


def load(d):
    del _REG[:]
    for p in sorted(glob.glob(os.path.join(d, '*.py'))):
        if p.endswith('__init__.py'):
            continue
        spec = importlib.util.spec_from_file_location('verif_rules_' + os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    return list(_REG)


def ok(key, where='', detail=''):
    return Outcome(key, 'ok', where, detail)


def bad(key, where='', detail=''):
    return Outcome(key, 'violation', where, detail)


def undecided(key, where='', detail=''):
    return Outcome(key, 'undecided', where, detail)
