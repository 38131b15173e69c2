"""Constant folding of terms at sample valuations.

Used only to tell two normal forms apart when they are not syntactically equal:
operations that are not arithmetic are uninterpreted (same operands, same value), so
terms that are equal in the theory agree on every valuation; a valuation on which they
differ is the witness named in the report.  Agreement on all samples proves nothing
and leaves the obligation undecided.
"""
import hashlib
import itertools

from .terms import *

INTS = {
    'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    '__int128': (128, True), 'unsigned __int128': (128, False),
}


def wrap(v, t):
    it = INTS.get(t)
    if it is None:
        return v
    w, s = it
    if w == 1:
        return int(bool(v))
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


class NoValue(Exception):
    pass


def h(*ks):
    return int.from_bytes(hashlib.sha256(repr(ks).encode()).digest()[:8], 'big')


def fold(t, env, width=64, seed=0, memo=None):
    memo = {} if memo is None else memo
    M = (1 << width) - 1

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = go1(x)
        memo[x] = r
        return r

    def go1(x):
        if x in env:
            return env[x]
        o, a = x.op, x.args
        if o in ('c', 'b'):
            return int(a[0])
        if o == 'lin':
            return a[0] + sum(go(k) * v for k, v in a[1])
        if o == 'mul':
            r = 1
            for y in a:
                r *= go(y)
            return r
        if o == 'not':
            return int(not go(a[0]))
        if o == 'and':
            return int(all(go(y) for y in a))
        if o == 'or':
            return int(any(go(y) for y in a))
        if o == 'eq':
            return int(go(a[0]) == go(a[1]))
        if o == 'lt':
            return int(go(a[0]) < go(a[1]))
        if o == 'ite':
            return go(a[1]) if go(a[0]) else go(a[2])
        if o in ('min', 'max'):
            return (min if o == 'min' else max)(go(a[0]), go(a[1]))
        if o == 'cast' and a[0] in INTS:
            return wrap(go(a[1]), a[0])
        if o in ('shl', 'shr') and len(a) == 2:
            s = go(a[1])
            if not 0 <= s < 200:
                raise NoValue()
            v = go(a[0])
            return v << s if o == 'shl' else (v & M) >> s
        if o in ('bxor', 'band', 'bor') and len(a) == 2:
            p, q = go(a[0]), go(a[1])
            return p ^ q if o == 'bxor' else p & q if o == 'band' else p | q
        if o == 'bnot':
            return ~go(a[0])
        if o == 'rotl':
            w, v, s = a[0], go(a[1]), a[2] if isinstance(a[2], int) else go(a[2])
            v &= (1 << w) - 1
            s %= w
            return ((v << s) | (v >> (w - s))) & ((1 << w) - 1) if s else v
        if o in ('div', 'mod'):
            p, q = go(a[0]), go(a[1])
            if q == 0:
                raise NoValue()
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return d if o == 'div' else p - d * q
        # Uninterpreted.
        return h(seed, o, tuple(go(y) for y in a)) & ((1 << min(width, 62)) - 1)

    return go(t)


def leaves(ts):
    out = {}
    for t in ts:
        for x in subterms(t):
            if x.op in ('p',):
                out.setdefault(x)
    return list(out)


def samples(vals, width, signed):
    base = [0, 1, 2, 3, 5, 7, 10, 63, 64, 100, (1 << (width - 1)) - 1, (1 << width) - 1, 1 << (width - 1), 0x9E3779B97F4A7C15,
            0x0123456789ABCDEF, 0xDEADBEEFCAFEF00D]
    out = []
    for v in base:
        v &= (1 << width) - 1
        if signed and v >> (width - 1):
            v -= 1 << width
        if v not in out:
            out.append(v)
    if signed:
        for v in (-1, -2, -10, -7):
            if v not in out:
                out.append(v)
    return out


def differ(got, want, width=64, mod=True, signed=False, vars_=None, assume=None, dom=None):
    """A valuation (shown as text) on which the terms differ, or None."""
    vs = vars_ if vars_ is not None else leaves((got, want))
    M = (1 << width) - 1
    pts = dom if dom is not None else samples(None, width, signed)
    combos = []
    if len(vs) <= 2:
        combos = list(itertools.product(pts, repeat=len(vs)))
    else:
        for i, p in enumerate(pts):
            combos.append(tuple(pts[(i * (j + 1) + j) % len(pts)] for j in range(len(vs))))
            combos.append(tuple(h(i, j) & M for j in range(len(vs))))
    for n, cb in enumerate(combos):
        env = dict(zip(vs, cb))
        try:
            if assume is not None and not fold(assume, env, width, n):
                continue
            g, w = fold(got, env, width, n), fold(want, env, width, n)
        except NoValue:
            continue
        if isinstance(g, int) and isinstance(w, int):
            if (g - w) & M if mod else g != w:
                return ', '.join('%s=%s' % (show(k), v) for k, v in env.items()) + ' gives %s, expected %s' % (g, w)
        elif g != w:
            return 'uninterpreted parts differ'
    return None


def canon(t, width):
    """Normal form modulo 2^width: casts that keep the low bits dropped, shifts by constants as products, xor/and/or flattened."""
    memo = {}

    def nary(op, xs):
        out = []
        for x in xs:
            if x.op == op:
                out.extend(x.args)
            else:
                out.append(x)
        if op == 'bxor':
            res = []
            for x in sorted(out):
                if res and res[-1] is x:
                    res.pop()
                else:
                    res.append(x)
            out = [x for x in res if cval(x) != 0]
        else:
            out = sorted(set(out))
        if not out:
            return ZERO
        if len(out) == 1:
            return out[0]
        return mk(op, *out)

    def red(x):
        if x.op == 'c':
            return C(x.args[0] & ((1 << width) - 1))
        if x.op == 'lin':
            r = C(x.args[0] & ((1 << width) - 1))
            for k, v in x.args[1]:
                v &= (1 << width) - 1
                r = add(r, scale(k, v))
            return r
        return x

    def go(x):
        if x in memo:
            return memo[x]
        r = go1(x)
        memo[x] = r
        return r

    def other(x):
        return subst(x, lambda y: None)

    def go1(x):
        o, a = x.op, x.args
        if o == 'c':
            return red(x)
        if o == 'cast' and a[0] in INTS:
            w, s = INTS[a[0]]
            if w >= width:
                return go(a[1])
            if w > 1:
                return mk('cast', ('unsigned' if not s else 'signed') + str(w), canon(a[1], w))
            return x
        if o == 'lin':
            r = C(a[0])
            for k, v in a[1]:
                r = add(r, scale(go(k), v))
            return red(r)
        if o == 'mul':
            r = go(a[0])
            for y in a[1:]:
                r = mul(r, go(y))
            return red(r)
        if o == 'shl' and is_c(a[1]) and 0 <= a[1].args[0] < width:
            return red(scale(go(a[0]), 1 << a[1].args[0]))
        if o == 'shl':
            return mk('shl', go(a[0]), canon(a[1], 64))
        if o in ('bxor', 'band', 'bor'):
            return nary(o, [go(y) for y in a])
        if o == 'bnot':
            return mk('bnot', go(a[0]))
        if o == 'ite':
            return ite(a[0], go(a[1]), go(a[2]))
        if o == 'rotl':
            return mk('rotl', a[0], canon(a[1], a[0]), cval(a[2]) if isinstance(a[2], T) and cval(a[2]) is not None else a[2])
        return x

    return go(t)
