"""Decision of equivalence/implication between conditions whose atoms are comparisons.

Values touched only through comparisons admit finitely many orderings; each one is
enumerated.  Atoms that are not comparisons are treated as independent truth values.
No solver is involved and nothing of the program is executed.
"""
import itertools

from .terms import *


def norm(f):
    """Integer comparisons with a unit offset are rewritten without it."""
    def go(x):
        if x.op == 'lt':
            a, b = x.args
            ca, da = tm_lin(a)
            cb, db = tm_lin(b)
            k = cb - ca
            if k == 1 and (ca or cb) and da and db:
                return lnot(lt(mklin0(db), mklin0(da)))
            if k == 0 and ca:
                return lt(mklin0(da), mklin0(db))
        if x.op == 'fle':
            return lnot(lt(x.args[1], x.args[0]))
        return None
    return subst(f, go)


def tm_lin(t):
    from .terms import _lin
    return _lin(t)


def mklin0(d):
    from .terms import _mklin
    return _mklin(0, d)


def atoms(f, out):
    if f.op in ('and', 'or', 'not'):
        for x in f.args:
            atoms(x, out)
    elif f.op == 'ite':
        for x in f.args:
            atoms(x, out)
    elif f.op == 'b':
        pass
    else:
        out.setdefault(f, None)


def evalf(f, env):
    o = f.op
    if o == 'b':
        return f.args[0]
    if o == 'and':
        return all(evalf(x, env) for x in f.args)
    if o == 'or':
        return any(evalf(x, env) for x in f.args)
    if o == 'not':
        return not evalf(f.args[0], env)
    if o == 'ite':
        return evalf(f.args[1], env) if evalf(f.args[0], env) else evalf(f.args[2], env)
    return env[f]


def orderings(g, ok, limit=60000):
    """Weak orderings of the items compatible with a pairwise constraint, as rank tuples; None if too many."""
    parts = [[]]           # each: list of classes (lists of indices), lowest first
    for i in range(len(g)):
        new = []
        for p in parts:
            for pos in range(len(p) + 1):
                # a class of its own before position pos, or within class pos
                for own in (True, False):
                    if not own and pos == len(p):
                        continue
                    good = True
                    for r, cl in enumerate(p):
                        k = (1 if r < pos else 0 if not own and r == pos else -1)
                        if not all(ok(i, j, k) for j in cl):
                            good = False
                            break
                    if good:
                        new.append(p[:pos] + [[i]] + p[pos:] if own else p[:pos] + [p[pos] + [i]] + p[pos + 1:])
        parts = new
        if len(parts) > limit:
            return None
    out = []
    for p in parts:
        r = [0] * len(g)
        for k, cl in enumerate(p):
            for i in cl:
                r[i] = k
        out.append(tuple(r))
    return out


def components(cmp_atoms):
    """Group comparison operands that are compared with each other."""
    parent = {}

    def find(x):
        while parent[x] is not x:
            x = parent[x]
        return x
    for a in cmp_atoms:
        for x in a.args:
            parent.setdefault(x, x)
        r1, r2 = find(a.args[0]), find(a.args[1])
        if r1 is not r2:
            parent[r1] = r2
    # Constants and terms differing by a constant belong together.
    ks = list(parent)
    for i, x in enumerate(ks):
        for y in ks[i + 1:]:
            if known_order(x, y) is not None:
                r1, r2 = find(x), find(y)
                if r1 is not r2:
                    parent[r1] = r2
    groups = {}
    for x in parent:
        groups.setdefault(find(x), []).append(x)
    return list(groups.values())


def known_order(x, y):
    cx, cy = cval(x), cval(y)
    if cx is not None and cy is not None:
        return (cx > cy) - (cx < cy)
    (a, da), (b, db) = tm_lin(x), tm_lin(y)
    if da == db and da:
        return (a > b) - (a < b)
    return None


def models(fs, nonneg=()):
    at = {}
    for f in fs:
        atoms(f, at)
    cmps = [a for a in at if a.op in ('lt', 'eq')]
    others = [a for a in at if a.op not in ('lt', 'eq')]
    groups = components(cmps)
    gl = []
    total = 1
    for g in groups:
        if len(g) > 9:
            return None
        kn = {}

        def ok(i, j, k):
            """i compared with j is k (-1, 0, 1)."""
            if (i, j) not in kn:
                kn[i, j] = known_order(g[i], g[j])
            o = kn[i, j]
            if o is not None and o != k:
                return False
            if cval(g[j]) == 0 and g[i] in nonneg and k < 0:
                return False
            if cval(g[i]) == 0 and g[j] in nonneg and k > 0:
                return False
            return True
        # Ordered items first: they prune most.
        g = sorted(g, key=lambda x: cval(x) is None)
        rs = orderings(g, ok)
        if rs is None:
            return None
        gl.append((g, rs))
        total *= len(rs)
    total *= 2 ** len(others)
    if total > 3000000:
        return None

    def gen():
        for combo in itertools.product(*[rs for _, rs in gl]):
            rank = {}
            for (g, _), r in zip(gl, combo):
                for x, k in zip(g, r):
                    rank[x] = k
            env = {}
            for a in cmps:
                x, y = rank[a.args[0]], rank[a.args[1]]
                env[a] = x < y if a.op == 'lt' else x == y
            for bits in itertools.product((False, True), repeat=len(others)):
                for a, b in zip(others, bits):
                    env[a] = b
                yield env
    return gen()


def implies(f, g, assume=TRUE, nonneg=()):
    """True/False, or None when there are too many atoms."""
    f, g, assume = norm(truth(f)), norm(truth(g)), norm(truth(assume))
    if f is g or g is TRUE or f is FALSE:
        return True
    m = models((f, g, assume), nonneg)
    if m is None:
        return None
    for env in m:
        if evalf(assume, env) and evalf(f, env) and not evalf(g, env):
            return False
    return True


def equiv(f, g, assume=TRUE, nonneg=()):
    a = implies(f, g, assume, nonneg)
    b = implies(g, f, assume, nonneg)
    if a is False or b is False:
        # x < c + 1 and x <= c are the same for integers.
        return True if linear_equiv(truth(f), truth(g), truth(assume)) else False
    if a is None or b is None:
        return None
    return True


def sat(f, assume=TRUE, nonneg=()):
    r = implies(land(f, assume), FALSE, TRUE, nonneg)
    return None if r is None else not r


# ---- linear integer comparisons: sets of inequalities decided by elimination ----------------------------------------

def _row(k, d):
    return (k, tuple(sorted(((v, c) for v, c in d.items() if c), key=lambda z: z[0].id)))


def feasible(rows, limit=4000):
    """Have the inequalities k + sum(c*v) >= 0 a rational solution?  Rows are tightened to integers."""
    from math import gcd
    rows = set(rows)
    while True:
        vs = set()
        for k, d in rows:
            if not d and k < 0:
                return False
            vs.update(v for v, _ in d)
        if not vs:
            return True
        v = min(vs, key=lambda x: (sum(1 for _, d in rows for y, c in d if y is x and c > 0) * sum(1 for _, d in rows for y, c in d if y is x and c < 0), x.id))
        pos, neg, new = [], [], set()
        for k, d in rows:
            c = next((c for y, c in d if y is v), 0)
            (pos if c > 0 else neg if c < 0 else new.add((k, d)) or []).append((k, d, c))
        for k1, d1, c1 in pos:
            for k2, d2, c2 in neg:
                m = {}
                for y, c in d1:
                    m[y] = m.get(y, 0) + c * -c2
                for y, c in d2:
                    m[y] = m.get(y, 0) + c * c1
                m = {y: c for y, c in m.items() if c}
                k = k1 * -c2 + k2 * c1
                g = 0
                for c in m.values():
                    g = gcd(g, c)
                if g > 1:
                    m = {y: c // g for y, c in m.items()}
                    k = k // g
                new.add(_row(k, m))
        rows = new
        if len(rows) > limit:
            return True


def linear_implies(f, g, assume=TRUE):
    """f and assume imply g, for conditions that are linear integer comparisons: True or None."""
    goal = land(f, assume, lnot(g))
    ats = {}
    atoms(goal, ats)
    if not ats or not any(a.op == 'lt' for a in ats) or len(ats) > 12:
        return None
    lits = list(ats)
    n = [0]

    def rows_of(a, tv):
        if a.op not in ('lt', 'eq'):
            return [[]]
        ca, da = tm_lin(a.args[0])
        cb, db = tm_lin(a.args[1])
        d = dict(db)
        for y, c in da.items():
            d[y] = d.get(y, 0) - c
        k = cb - ca
        m = {y: -c for y, c in d.items()}
        if a.op == 'lt':
            return [[_row(k - 1, d)]] if tv else [[_row(-k, m)]]
        return [[_row(k, d), _row(-k, m)]] if tv else [[_row(k - 1, d)], [_row(-k - 1, m)]]

    def go(i, env, rows):
        n[0] += 1
        if n[0] > 20000:
            return True
        if not feasible(rows):
            return False
        if i == len(lits):
            return bool(evalf(goal, env))
        for tv in (True, False):
            env[lits[i]] = tv
            for r in rows_of(lits[i], tv):
                if go(i + 1, env, rows + r):
                    return True
        return False
    return None if go(0, {}, []) else True


def linear_equiv(f, g, assume=TRUE):
    return True if linear_implies(f, g, assume) and linear_implies(g, f, assume) else None
