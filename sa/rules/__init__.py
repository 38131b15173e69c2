"""Registry of the rules, one entry per property."""
import glob
import importlib
import os

RULES = {}


class Rule:
    def __init__(self, pid, tus, fn, explanation, assumptions, min_obligations, witness):
        self.witness = witness
        self.pid, self.tus, self.fn = pid, tus, fn
        self.explanation, self.assumptions, self.min_obligations = explanation, assumptions, min_obligations


def rule(pid, tus, explanation, assumptions=(), min_obligations=1, witness=False):
    def deco(fn):
        RULES[pid] = Rule(pid, list(tus), fn, explanation, list(assumptions), min_obligations, witness)
        return fn
    return deco


for _p in sorted(glob.glob(os.path.join(os.path.dirname(__file__), 'r_*.py'))):
    importlib.import_module('.' + os.path.basename(_p)[:-3], __name__)
