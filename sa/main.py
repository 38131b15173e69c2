"""Driver: python3 -m sa.main PROPERTY [--tier quick|thorough]"""
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import build
from .rlib import Broken, Ctx
from .interp import Unsupported, Budget

VERIF = build.VERIF


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return []


def run(pid, tier):
    t0 = time.time()
    from .rules import RULES
    r = RULES[pid]
    sys.setrecursionlimit(20000)
    cx = Ctx(pid, {})
    cx.tier = tier
    cut = False
    try:
        cx.progs = build.export(r.tus)
    except build.BuildError as e:
        rej = e.rejected() if r.witness else None
        if rej is not None and r.witness is not True:
            # Only calls of the functions this property is about.
            rej = [x for x in rej if re.search(r.witness, x[2])]
        if not rej:
            raise
        for f, n, line, msg in rej:
            cx.ob(False, 'call', line[:160], '%s:%d' % (f, n), 'this call must be accepted; the compiler says: ' + msg[:300])
        cut = True
    try:
        if not cut:
            r.fn(cx)
    except (Broken, build.BuildError):
        raise
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
        # A construct outside the analysed language: what was reached so far stands, the rest is undecided.
        cut = True
        cx.ob(None, 'analysis', type(e).__name__, '', str(e)[:300])
    if cx.funcs and not pid.startswith('C'):
        from .rules.r_conc import shared_state
        try:
            shared_state(cx)
        except (Broken, build.BuildError):
            raise
        except Exception as e:
            cx.ob(None, 'analysis', 'shared state: ' + type(e).__name__, '', str(e)[:300])
    cut = cut or cx.cut
    n = len(cx.obs)
    if n < r.min_obligations and not cut and not cx.undecided and not cx.violations:
        cx.ob(None, 'coverage', pid, '', 'only %d obligations were found, %d were confirmed on the reference tree' % (n, r.min_obligations))
    kf = [k for k in known_findings() if k.get('property') == pid and 'fixed' not in k]
    new = []
    hit = []
    if not cx.obs:
        raise Broken('%s: nothing was decided' % pid)
    for o in cx.violations:
        m = [k for k in kf if k['rule'] == o[1] and k['construct'] == o[2]]
        (hit if m else new).append(o)
    evd = os.environ.get('OBAKE_EVID', os.path.join(VERIF, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': r.explanation,
            'units': [t for t in r.tus],
            'functions_analysed': len(cx.funcs),
            'functions': sorted('%s (%s)' % f for f in cx.funcs)[:400],
            'obligations': n,
            'discharged': sum(1 for o in cx.obs if o[0] is True),
            'undecided': ['%s: %s (%s) %s' % o[1:] for o in cx.undecided][:50],
            'samples': ['%s: %s (%s)' % o[1:4] for o in cx.obs[:60]],
            'notes': cx.notes[:40],
        },
        'assumptions': r.assumptions,
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for o in hit:
        if o[1:3] not in seen:
            seen.add(o[1:3])
            print('KNOWN-FINDING: property=%s %s: %s at %s: %s' % (pid, o[1], o[2], o[3], o[4]))
    if new:
        d = os.path.join(evd, pid + '.violations.txt')
        with open(d, 'w') as f:
            for o in new:
                f.write('rule:      %s\nconstruct: %s\nlocation:  %s\nwhy:       %s\n\n' % o[1:])
        for o in new[:10]:
            print('%s: %s: %s\n    %s' % (o[3], o[1], o[2], o[4]))
        print('VIOLATION property=%s replay=%s' % (pid, d))
        return 1
    print('%s: %d obligations, %d discharged, %d undecided, %d functions analysed, %.1f s' % (
        pid, n, ev['coverage']['discharged'], len(cx.undecided), len(cx.funcs), time.time() - t0))
    return 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        return run(pid, tier)
    except Broken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 2
    except build.BuildError as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 2
    except (Unsupported, Budget) as e:
        print('ANALYSIS-BROKEN: %s: %s' % (type(e).__name__, e))
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
