"""Prints traces: python3 -B -m sa.debug UNIT REGEX [N] [stops,comma,separated]"""
import os
import pickle
import sys

from . import build, ir
from .interp import *

sys.setrecursionlimit(20000)
tu, pat = sys.argv[1:3]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 1
stops = set(sys.argv[4].split(',')) if len(sys.argv) > 4 else set()
if tu.endswith('.json'):
    P = ir.Program().load(tu)
else:
    P = build.export([tu])[tu]
c = 0
for q in sorted(P.by_q):
    if not re.search(pat, q):
        continue
    for f in P.by_q[q]:
        c += 1
        if c > n:
            continue
        print('=====', q, f.get('ta'), P.types[f['cls']] if f.get('cls') is not None else '')
        if f.get('body') is None:
            print('no body')
            continue
        I = Interp(P, stops)
        r = I.run(f)
        for e in I.trace:
            if e.kind in ('call', 'throw', 'asg', 'ctor', 'delete', 'new', 'sinit', 'ret'):
                print('  ', repr(e)[:700])
        print('RET', show(r, 20))
        for k, v in I.final.store.items():
            if k[0] in ('a', 'this', 'g'):
                print('   FINAL', k, show(v, 12))
        print('guards', I.final.guards)
        for l in I.loops.values():
            print('loop', l.id, l.kind, show(l.range) if l.range else '', 'cond', l.cond, 'init',
                  {str(k): show(v) for k, v in l.init.items()}, 'step', {str(k): show(v) for k, v in l.step.items()})
        print('unknown', I.unknown)
print(c, 'matches')
