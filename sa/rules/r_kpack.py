"""Rules for Kronecker packing and unpacking."""
from ..rlib import *
from ..fold import canon
from . import rule
from .r_util import gen_loc, ret_loc

p = lambda n: mk('p', n)
TY = ['int', 'unsigned int', 'long', 'unsigned long']


def flat(v, out):
    """Numbers of an evaluated constant, in declaration order (bases are in storage order)."""
    if isinstance(v, list):
        for x in v:
            flat(x, out)
    elif isinstance(v, dict):
        for x in v['b']:
            flat(x, out)
        for x in v['f']:
            flat(x, out)
    elif v is not None:
        out.append(int(v))
    return out


def tables(P, t):
    r = {}
    for g in P.gvars.values():
        if g['q'].startswith('obake::detail::kpack_data::') and g.get('ta') == '<%s>' % t:
            n = g['q'].split('::')[-1]
            if n == 'divcnst':
                # A tuple is stored with its last element in the innermost base.
                r[n] = [[tuple(reversed(flat(c, []))) for c in row] for row in g['val']]
            else:
                r[n] = [int(x) for x in g['val']]
            r[n + '@'] = P.loc(g)
    return r


def inst(cx, P, q, t):
    return cx.entry(P, q, ta='^<%s>$' % re.escape(t))[0]


def tab(term, nm):
    """Uses of a table inside a term."""
    return [x for x in subterms(term) if x.op == 'idx' and x.args[0].op == 'glob' and str(x.args[0].args[0]).endswith('::' + nm)]


def glob_of(P, nm):
    return mk('glob', 'obake::detail::kpack_data::' + nm)


def entry_of(P, nm, n):
    return mk('idx', glob_of(P, nm), add(n, C(-1)))


def limits(P, nm, n, signed):
    e = entry_of(P, nm, n)
    return (neg(e) if signed else ZERO), e


def sequence(cx, P, rule_, where, I, expected, nonneg=()):
    """The thrown exceptions, in order of precedence: list of (type, condition given that the earlier ones do not hold)."""
    by = {}
    for e in I.trace:
        if e.kind == 'throw':
            by[e.q] = lor(by.get(e.q, FALSE), land(*e.guards))
    loc = gen_loc(I)
    ths = [e for e in I.trace if e.kind == 'throw']
    loc = ths[0].loc if ths else loc
    want = {}
    prev = []
    for t, c in expected:
        want[t] = lor(want.get(t, FALSE), land(c, *[lnot(x) for x in prev]))
        prev.append(c)
    for t in sorted(set(by) | set(want)):
        cx.cond(rule_, '%s: %s' % (where, t), loc, by.get(t, FALSE), want.get(t, FALSE), 'the condition for ' + t, nonneg=nonneg)
    cx.cond(rule_, where + ': normal return', loc, land(*I.final.guards), land(*[lnot(c) for c in prev]), 'the condition for success', nonneg=nonneg)


@rule('K01', ['kpack.cpp'],
      'For each packable type, the conditions (over the size, the values and the per-size limit constants) under which the packer '
      'refuses a size, a value or one value too many are compared with the required ones over all orderings of the values compared; '
      'the packed value after zero, one and three insertions into a packer of symbolic size is compared with the positional encoding.',
      [], 60)
def k01(cx):
    P = cx.progs['kpack.cpp']
    for t in TY:
        signed = INTS[t][1]
        w = INTS[t][0]
        T_ = tables(P, t)
        mx = len(T_['deltas'])
        n, a, b, c = p('n'), p('a'), p('b'), p('c')
        nn = () if signed else (a, b, c)
        nn += (n,)
        lo, hi = limits(P, 'lims', n, signed)
        D = entry_of(P, 'deltas', n)
        bad = lambda x: lor(lt(x, lo), lt(hi, x))
        big = lt(C(mx), n)
        full = lambda k: eq(n, C(k))
        I = cx.analyse(P, inst(cx, P, 'hx::pk0', t))
        sequence(cx, P, 'size', 'packer<%s>' % t, I, [('std::overflow_error', big)], nn)
        cx.same('encode', 'packer<%s> without values' % t, gen_loc(I), I.ret, ZERO, w)
        I = cx.analyse(P, inst(cx, P, 'hx::pk1', t))
        sequence(cx, P, 'reject', 'packer<%s>, one value' % t, I,
                 [('std::overflow_error', big), ('std::out_of_range', full(0)), ('std::overflow_error', bad(a))], nn)
        cx.same('encode', 'packer<%s>, one value' % t, ret_loc(I), I.ret, a, w)
        I = cx.analyse(P, inst(cx, P, 'hx::pk3', t))
        cx.same('encode', 'packer<%s>, three values' % t, ret_loc(I), I.ret, add(a, add(mul(b, D), mul(c, mul(D, D)))), w)
        generic_step(cx, P, t, signed, w)


def roles(mkterm, n_expected):
    """Field roles of the object returned by a constructor summary."""
    f = {}
    x = mkterm
    while x.op == 'with':
        f.setdefault(x.args[2], x.args[3])
        x = x.args[0]
    return f


def generic_step(cx, P, t, signed, w):
    I = cx.analyse(P, inst(cx, P, 'hx::pk_make', t))
    n = p('n')
    f = roles(I.ret, 4)
    g = cx.analyse(P, inst(cx, P, 'hx::pk_get', t)).ret
    where = 'packer<%s>, any insertion' % t
    size = [k for k, v in f.items() if v is n]
    prod = [k for k, v in f.items() if v is ONE]
    zero = [k for k, v in f.items() if v is ZERO]
    if not (g.op == 'fld' and len(size) == 1 and len(prod) == 1 and len(zero) == 2 and g.args[1] in zero):
        cx.ob(None, 'step', where, gen_loc(I), 'state not recognised')
        return
    val = g.args[1]
    idx, = [k for k in zero if k != val]
    I = cx.analyse(P, inst(cx, P, 'hx::pk_step', t))
    o = p('p')
    V, Pr, Ix, S = [mk('fld', o, k) for k in (val, prod[0], idx, size[0])]
    a = p('a')
    lo, hi = limits(P, 'lims', S, signed)
    nn = (Ix, S) + (() if signed else (a,))
    bad = lor(lt(a, lo), lt(hi, a))
    sequence(cx, P, 'step', where, I, [('std::out_of_range', eq(Ix, S)), ('std::overflow_error', bad)], nn)
    fin = I.final.store[('a', 0)]
    for k, want in ((val, add(V, mul(a, Pr))), (prod[0], mul(Pr, entry_of(P, 'deltas', S))), (idx, add(Ix, ONE)), (size[0], S)):
        cx.same('step', where + ': ' + k, ret_loc(I), unwith(fin, [k]), want, w if k != idx else 32, what='the new ' + k)
    # A refused value leaves the packer as it was.
    for e in I.trace:
        if e.kind == 'throw' and e.pre is not None:
            cx.ob(e.pre.get(('a', 0)) is o, 'step', where + ': unchanged when refused', e.loc, 'the packer is modified before the value is refused')


@rule('K02', ['kpack.cpp'],
      'For each packable type, the conditions under which the unpacker refuses a size, a coded value or one extraction too many, '
      'compared with the required ones over all orderings of the values compared; no output is written before a refusal.', [], 30)
def k02(cx):
    P = cx.progs['kpack.cpp']
    for t in TY:
        signed = INTS[t][1]
        T_ = tables(P, t)
        mx = len(T_['deltas'])
        n, v = p('n'), p('v')
        nn = (n,) + (() if signed else (v,))
        lo, hi = limits(P, 'klims', n, signed)
        I = cx.analyse(P, inst(cx, P, 'hx::up_make', t))
        z = eq(n, ZERO)
        sequence(cx, P, 'construct', 'unpacker<%s>' % t, I,
                 [('std::invalid_argument', land(z, lnot(eq(v, ZERO)))), ('std::overflow_error', lt(C(mx), n)),
                  ('std::overflow_error', land(lnot(z), lor(lt(v, lo), lt(hi, v))))], nn)
        f = roles(I.ret, 4)
        size = [k for k, x in f.items() if x is n]
        idx = [k for k, x in f.items() if x is ZERO]
        I = cx.analyse(P, inst(cx, P, 'hx::up_step', t))
        where = 'unpacker<%s>, any extraction' % t
        if len(size) == 1 and len(idx) == 1:
            o = p('u')
            S, Ix = mk('fld', o, size[0]), mk('fld', o, idx[0])
            sequence(cx, P, 'extract', where, I, [('std::out_of_range', eq(Ix, S))], (S, Ix))
            fin = I.final.store[('a', 0)]
            cx.same('extract', where + ': position', ret_loc(I), unwith(fin, [idx[0]]), add(Ix, ONE), 32, what='the new position')
            cx.same('extract', where + ': size', ret_loc(I), unwith(fin, [size[0]]), S, 32, what='the new size')
            for e in I.trace:
                if e.kind == 'throw' and e.pre is not None:
                    cx.ob(e.pre.get(('a', 0)) is o and e.pre.get(('a', 1)) is p('o'), 'extract', where + ': unchanged when refused', e.loc)
        else:
            cx.ob(None, 'extract', where, gen_loc(I))


def norm_div(t, P, n, N, U):
    """Normal form modulo 2^N of an unpacking term: division by the tabulated constants becomes division by a power of the base."""
    Dv = glob_of(P, 'divcnst')
    D = entry_of(P, 'deltas', n)
    row = mk('idx', Dv, add(n, C(-1)))
    M = (1 << N) - 1

    def powD(j):
        r = ONE
        for _ in range(j):
            r = mul(r, D)
        return r

    def ent(x):
        """(column, field) of a table access."""
        if x.op in ('idx', 'fld') and x.args[0].op == 'idx' and x.args[0].args[0] is row and isinstance(x.args[1], T):
            j, k = cval(x.args[0].args[1]), cval(x.args[1])
            if j is not None and k is not None:
                return j, k
        return None

    memo = {}

    def red(x):
        return canon(x, N)

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = r = go1(x)
        return r

    def go1(x):
        o, a = x.op, x.args
        if o == 'cast' and a[0] in INTS:
            w = INTS[a[0]][0]
            i = a[1]
            # High half of a product.
            if w == N and i.op == 'shr' and cval(i.args[1]) == N:
                m = i.args[0]
                while m.op == 'cast' and INTS.get(m.args[0], (0,))[0] >= 2 * N:
                    m = m.args[1]
                if m.op == 'mul':
                    fs = m.args
                    mp = [y for y in fs if ent(strip_w(y)) and ent(strip_w(y))[1] == 0]
                    if len(mp) == 1:
                        rest = ONE
                        for y in fs:
                            if y is not mp[0]:
                                rest = mul(rest, y)
                        return mk('mulhi', strip_w(mp[0]), red(go(rest)))
                if m.op == 'lin' and m.args[0] == 0:
                    # product distributed over a sum does not occur for symbolic sums
                    pass
            if w >= N:
                return go(a[1])
            return x
        if o == 'shr':
            e = ent(strip_w(a[1]))
            X = red(go(a[0]))
            if e and e[1] == 2:
                j = e[0]
                mp, sh1 = mk('idx', mk('idx', row, C(j)), ZERO), mk('idx', mk('idx', row, C(j)), ONE)
                for y in subterms(X):
                    if y.op == 'mulhi' and y.args[0] is mp:
                        nn = y.args[1]
                        want = red(add(y, mk('shr', red(sub(nn, y)), sh1)))
                        if X is want:
                            return nn if j == 0 else mk('div', nn, powD(j))
            return mk('shr', X, strip_w(a[1]))
        if o == 'lin':
            r = C(a[0])
            for k, v in a[1]:
                r = add(r, scale(go(k), v))
            return red(r)
        if o == 'mul':
            r = go(a[0])
            for y in a[1:]:
                r = mul(r, go(y))
            return red(r)
        if o == 'div':
            return mk('div', red(go(a[0])), red(go(a[1]))) if cval(a[1]) != 1 else go(a[0])
        if o == 'mod':
            x, d = red(go(a[0])), red(go(a[1]))
            return red(sub(x, mul(mk('div', x, d), d)))
        return x

    def strip_w(x):
        while x.op == 'cast' and INTS.get(x.args[0], (0,))[0] >= N:
            x = x.args[1]
        return x

    return red(go(t))


@rule('K03', ['kpack.cpp'],
      'Round trip.  Encoding: the packed value is the positional sum of the components (as in K01).  Decoding: the extracted components '
      'are, as normal forms modulo the word size, floor(((v+K) mod D^(i+1)) / D^i) - L, where division by a tabulated constant is '
      'recognised as the multiply-high-and-shift scheme.  Constants: for every type and every size, read from the evaluated tables, exact '
      'integer arithmetic decides that the base D covers the component range, that D^size and all coded values fit the type, that '
      'K is the largest coded value, and that every magic constant divides exactly over the whole range of dividends.',
      ['Integer arithmetic of the library wraps modulo the word size where its type is unsigned.'], 4 * 8)
def k03(cx):
    P = cx.progs['kpack.cpp']
    for t in TY:
        w, signed = INTS[t]
        T_ = tables(P, t)
        if set(k for k in T_ if '@' not in k) != {'deltas', 'lims', 'klims', 'divcnst'}:
            raise Broken('tables of %s not found' % t)
        n, v = p('n'), p('v')
        D, L, K = entry_of(P, 'deltas', n), entry_of(P, 'lims', n), entry_of(P, 'klims', n)
        if not signed:
            K, L = ZERO, ZERO
        I = cx.analyse(P, inst(cx, P, 'hx::pk3', t))
        cx.same('encode', 'packing of three components in ' + t, ret_loc(I), I.ret, add(p('a'), add(mul(p('b'), D), mul(p('c'), mul(D, D)))), w)
        I = cx.analyse(P, inst(cx, P, 'hx::up3', t))
        N = canon(add(v, K), w)
        pw = ONE
        for i in range(3):
            got = norm_div(I.final.store[('a', 2 + i)], P, n, w, None)
            nx = mul(pw, D)
            rem = canon(sub(N, mul(mk('div', N, nx), nx)), w)
            q = rem if i == 0 else mk('div', rem, pw)
            want = canon(sub(q, L), w)
            cx.same('decode', 'component %d of a value unpacked from %s' % (i, t), ret_loc(I), got, want, w, what='the component')
            pw = nx
        tables_ok(cx, t, w, signed, T_)


def tables_ok(cx, t, w, signed, T_):
    Ds, Ls, Ks, Dv = T_['deltas'], T_['lims'], T_['klims'], T_['divcnst']
    mx = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    cx.ob(len(Ds) == len(Ls) == len(Ks) == len(Dv) and all(len(r) > len(Ds) for r in Dv), 'table size', t, T_['deltas@'], 'the tables differ in size')
    bad = {k: [] for k in ('base', 'range', 'coded limit', 'fits', 'division')}
    for s in range(1, min(len(Ds), len(Ls), len(Ks), len(Dv)) + 1):
        D, L, K = Ds[s - 1], Ls[s - 1], Ks[s - 1]
        span = 2 * L + 1 if signed else L + 1
        if L < 1:
            bad['range'].append('size %d: limit %d' % (s, L))
        if D < span:
            bad['base'].append('size %d: base %d for %d different components' % (s, D, span))
        if D ** s > mx:
            bad['fits'].append('size %d: base^size exceeds the type' % s)
        top = L * sum(D ** i for i in range(s))
        if K != top:
            bad['coded limit'].append('size %d: limit %d, largest coded value %d' % (s, K, top))
        # Dividends: value + K in [0, 2K] (signed) or [0, K]; remainders are smaller.
        nmax = 2 * K if signed else K
        for j in range(s + 1):
            e = magic_error(Dv[s - 1][j], D ** j, w, nmax)
            if e:
                bad['division'].append('size %d, divisor %d^%d: %s' % (s, D, j, e))
    for k, b in bad.items():
        cx.ob(not b, 'table ' + k, t, T_[{'base': 'deltas@', 'range': 'lims@', 'coded limit': 'klims@', 'fits': 'deltas@', 'division': 'divcnst@'}[k]],
              '; '.join(b[:3]))


def magic_error(m, d, N, nmax):
    """None when floor-division by d through (mp, sh1, sh2) is exact for all dividends 0..nmax."""
    if len(m) != 3:
        return 'malformed entry'
    mp, sh1, sh2 = m
    if mp == 0:
        return 'no constant'
    if not (0 <= mp < 1 << N and 0 <= sh1 < N and 0 <= sh2 < N):
        return 'constant out of range'
    if sh1 == 0:
        return None if d == 1 << sh2 else 'shift only'
    if sh1 != 1:
        return 'unsupported shift'
    M = (1 << N) + mp
    p2 = 1 << (N + 1 + sh2)
    e = M * d - p2
    if e < 0:
        return 'constant too small' if nmax >= d else None
    # q + r/d + e*n/(d*2^k) < q+1 for every n: worst at the largest n of each residue.
    for r in {d - 1, nmax % d}:
        nn = nmax - ((nmax - r) % d)
        if nn >= 0 and e * nn >= (d - r) * p2:
            return 'dividend %d gives a wrong quotient' % nn
    return None
