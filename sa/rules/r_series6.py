"""Series: powers and the cache of powers."""
from .r_series5 import *
from ..series import N, names

SINGLE, EMPTY, CONV = mk('atom', 'single coefficient'), mk('atom', 'empty'), mk('atom', 'the exponent is a natural number')
VECTOR_READS = ('size', 'empty', 'back', 'front', 'operator[]', 'at', 'begin', 'end', 'cbegin', 'cend', 'capacity', 'reserve', 'data', 'max_size')


def stops9(q, n):
    return stops8(q, n) or bool(re.search(r'series_default_mul_impl|obake::operator\*$|obake::series_mul|obake::series::series$|obake::safe_convert$', q))


def unany(t):
    """Values kept in std::any."""
    def f(x):
        if x.op == 'deref':
            a = x.args[0]
            if a.op == 'ref':
                a = a.args[0]
            if a.op == 'call' and a.args[0].startswith('std::any_cast'):
                return subst(unref(a.args[1]), f)
            return None
        if x.op == 'call' and x.args[0].startswith('std::any_cast'):
            return subst(unref(x.args[1]), f)
        if x.op == 'ctor' and x.args[0] == 'std::any' and len(x.args) == 2:
            return subst(x.args[1], f)
        return None
    return subst(t, f)


def unref(t):
    return t.args[0] if t.op in ('ref', 'addrof') else t


def leaf_cases(t, c=TRUE):
    if t.op == 'ite':
        return leaf_cases(t.args[1], land(c, t.args[0])) + leaf_cases(t.args[2], land(c, lnot(t.args[0])))
    return [(c, t)]


def shallow(t, stop):
    yield t
    if not stop(t):
        for a in t.args:
            for z in a if isinstance(a, tuple) else (a,):
                for q in z if isinstance(z, tuple) else (z,):
                    if isinstance(q, T):
                        yield from shallow(q, stop)


def mentions(t, root):
    return any(x is root for x in subterms(t))


class Powers:
    """A power computed by an operation, and the cache behind it."""

    def __init__(self, cx, P, f):
        self.cx, self.P = cx, P
        self.op = op = Op(cx, P, f, stops_=stops9)
        op.loc = retloc(op) or op.loc
        self.I = op.I
        self.s, self.n = p('s'), p('n')
        self.un = None

    def atoms(self, t):
        s, n = self.s, self.n

        def f(x):
            q = series_query(x)
            if q == 'is_single_cf' and x.args[1] is s:
                return SINGLE
            if q == 'empty' and x.args[1] is s:
                return EMPTY
            if x.op == 'eq' and x.args[0] is C(0) and series_query(x.args[1]) == 'size' and x.args[1].args[1] is s:
                return EMPTY
            if x.op == 'call' and x.args[0].split('<')[0].endswith('obake::safe_convert') and x.args[-1] is n:
                return CONV
            return None
        return truth(subst(t, f))

    ASSUME = land(lor(lnot(EMPTY), SINGLE), lor(lnot(eq(C(0), p('n'))), CONV))

    def natural(self, t):
        """The exponent, as a natural number?"""
        t = plain(t)
        return t is self.n or t.op == 'upd' and t.args[0].split('<')[0].endswith('safe_convert') and t.args[1] == 0 and t.args[-1] is self.n

    def exponent(self, t, vec=None):
        """The exponent of a value, a power of the base: a linear term, or None."""
        t = unany(t)
        if t is self.s or self.is_key(t):
            return C(1)
        if t.op == 'ctor' and 'series<' in t.args[0] and len(t.args) == 2:
            return C(0) if t.args[1] is C(1) else self.exponent(t.args[1])
        if t.op == 'call' and t.args[0].split('<')[0] in ('obake::operator*', 'obake::series_mul', 'hx::series_mul'):
            a, b = self.exponent(t.args[1]), self.exponent(t.args[2])
            return None if a is None or b is None else add(a, b)
        if t.op == 'idx' and self.is_vec(t.args[0]):
            return t.args[1]
        return None

    # ---- the cache ----

    def entry_of(self, t):
        """Does t denote the entry of the base in the map of its type?  The call that looks it up."""
        if t.op == 'deref' and t.args[0].op == 'fld' and t.args[0].args[1] == 'first':
            t = t.args[0].args[0]
            if t.op == 'call' and t.args[0].split('<')[0].endswith('unordered_map::try_emplace'):
                return t
        return None

    def is_key(self, t):
        return t.op == 'fld' and t.args[1] == 'first' and self.entry_of(t.args[0]) is not None and len(self.entry_of(t.args[0]).args) == 3 \
            and unany(self.entry_of(t.args[0]).args[2]) is self.s

    def is_vec(self, t):
        """The vector of powers of the base, in any state."""
        while True:
            if t.op == 'with' and t.args[1] == 'i':
                t = t.args[0]
            elif t.op == 'upd' and t.args[1] == 0:
                t = t.args[2]
            elif t.op == 'ite':
                return self.is_vec(t.args[1]) and self.is_vec(t.args[2])
            else:
                break
        if t.op in ('lv', 'lx'):
            k = t.args[1]
            if isinstance(k, tuple) and len(k) == 2 and k[0][0] == 'd' and k[1] == ('f', 'second'):
                return self.is_key(mk('fld', mk('deref', k[0][1]), 'first'))
            return False
        return t.op == 'fld' and t.args[1] == 'second' and self.is_key(mk('fld', t.args[0], 'first'))

    def vec_place(self, pl):
        r = pl.root
        return r[0] == 'd' and len(pl.path) == 1 and pl.path[0] == ('f', 'second') and self.is_key(mk('fld', mk('deref', r[1]), 'first'))


def bare_vec(t):
    while t.op == 'with' and t.args[1] == 'i':
        t = t.args[0]
    return t


def powers(cx, P, f, cached):
    W = Powers(cx, P, f)
    op, I, s, n = W.op, W.I, W.s, W.n
    known9 = lambda q: known(q) or q in ('obake::operator*', 'obake::safe_convert', 'std::any_cast', 'empty', 'size') or q.startswith(('std::unordered_map::', 'std::vector::', 'obake::series::'))
    t = clean(I.rewrite(I.ret))
    Z = eq(C(0), n)
    thr = W.atoms(throw_cond(I, lambda e: e.q != 'rethrow'))
    for c, v in leaf_cases(t):
        g = W.atoms(c)
        if logic.implies(W.ASSUME, lor(lnot(g), thr)):
            continue
        g = land(g, lnot(thr))
        x = unany(v)
        what = 'the result is %s if %s' % (show(x, 5)[:200], show(g, 5)[:160])
        y = plain(x)
        bad = False if definite(x, known9) and definite(g, known9) else None
        if x.op == 'ctor' and x.args[0].startswith('obake::series<') and is_call(y, 'hx::pow'):
            a, b = y.args[1], y.args[2]
            want = None
            if b is not n:
                pass
            elif a is C(0):
                want = land(SINGLE, EMPTY)
            elif a.op == 'fld' and a.args[1] == 'second' and a.args[0].op == 'deref' and series_query(a.args[0].args[0]) in ('begin', 'cbegin') and a.args[0].args[0].args[1] is s:
                want = land(SINGLE, lnot(EMPTY))
            r = want is not None and logic.implies(land(W.ASSUME, g), want)
            op.ob(r or bad, 'power', '', what)
        elif x.op == 'ctor' and x.args[0].startswith('obake::series<') and y is C(1):
            r = logic.implies(land(W.ASSUME, g), land(lnot(SINGLE), Z))
            op.ob(r or bad, 'power', '', what)
        elif x.op == 'idx' and W.is_vec(x.args[0]):
            r = logic.implies(land(W.ASSUME, g), lnot(SINGLE))
            op.ob(r or bad, 'power', '', what)
            k = W.natural(x.args[1])
            sizes = all(z.op in ('lin', 'c', 'size') or W.is_vec(z) for z in shallow(x.args[1], W.is_vec))
            op.ob(True if k else False if sizes else bad, 'power', '', 'the cached power returned is the one of index %s' % show(x.args[1], 4)[:120])
            # The vector is long enough.
            b = x.args[0]
            ok = None
            if b.op == 'lx':
                L = I.loops[b.args[0]]
                last = mk('lv', b.args[0], b.args[1])

                def sz(z):
                    if z.op == 'call' and z.args[0].rsplit('::', 1)[-1] == 'size' and z.args[1] is last or z.op == 'size' and z.args[0] is last:
                        return p('length')
                    return p('index') if z.op == 'upd' and W.natural(z) else None
                if L.cond is not None:
                    q = lnot(truth(subst(unany(clean(L.cond)), sz)))
                    if all(z.op in ('p', 'c', 'lt', 'not', 'and', 'or', 'eq', 'lin') for z in subterms(q)):
                        ok = bool(logic.implies(q, lt(p('index'), p('length')), nonneg=(p('index'), p('length'))))
                    op.ob(ok, 'power', L.loc, 'powers are computed until %s' % show(q, 5)[:200])
            else:
                op.ob(ok, 'power', '', 'the number of cached powers')
        else:
            op.ob(bad, 'power', '', what)
    want = land(lnot(SINGLE), lnot(Z), *([lnot(CONV)] if cached else []))
    r = logic.equiv(thr, want, W.ASSUME)
    op.ob(r if r or definite(thr, known9) else None, 'power', '', 'an error is raised if %s' % show(thr, 5)[:200])
    if not cached:
        return W
    # What is stored in the vector.
    firsts = 0
    for e in I.trace:
        if e.kind not in ('call', 'asg') or not e.places or e.places[0] is None or not W.vec_place(e.places[0]):
            continue
        m = str(e.q).rsplit('::', 1)[-1]
        if m in VECTOR_READS:
            continue
        if e.kind == 'call' and m in ('emplace_back', 'push_back'):
            v = unany(e.args[0])
            k = W.exponent(e.args[1])
            size = [mk('size', v), mk('call', 'size', v)]
            g = unany(land(*[clean(I.rewrite(z)) for z in e.guards]))
            if k is None:
                op.ob(False if definite(unany(e.args[1]), lambda q: known9(q)) else None, 'cache', e.loc, 'the value %s is added to the powers' % show(unany(e.args[1]), 5)[:160])
                continue
            base = bare_vec(v)

            def sz(z):
                if z.op in ('call', 'size') and isinstance(z.args[-1], T) and bare_vec(z.args[-1]) is base and (z.op == 'size' or str(z.args[0]).rsplit('::', 1)[-1] == 'size'):
                    return p('length')
                if z.op in ('call', 'empty') and isinstance(z.args[-1], T) and bare_vec(z.args[-1]) is base and (z.op == 'empty' or str(z.args[0]).rsplit('::', 1)[-1] == 'empty'):
                    return eq(C(0), p('length'))
                return None
            k2, g2 = subst(k, sz), truth(subst(g, sz))
            r = logic.implies(g2, eq(k2, p('length')), nonneg=(p('length'),))
            simple = all(z.op in ('p', 'c', 'lin') for z in subterms(k2))
            op.ob(True if r else False if simple else None, 'cache', e.loc, 'power %s of the base is stored at the end of the list, if %s' % (show(k2, 4)[:100], show(g2, 4)[:100]))
            firsts += k is C(0)
        else:
            op.ob(None, 'cache', e.loc, 'the list of powers is changed by %s' % e.q)
    op.ob(True if firsts else None, 'cache', '', 'the power zero is stored first')
    # The entry belongs to the type.
    for e in I.trace:
        if e.kind == 'call' and str(e.q).endswith('unordered_map::try_emplace') and e.args[0].op == 'glob':
            k = plain(e.args[1])
            ok = k.op == 'typeid' and k.args[0].replace('const ', '').startswith('obake::series<hx::key, hx::cp')
            op.ob(True if ok else False if k.op in ('typeid', 'c') else None, 'cache', e.loc, 'the powers are stored under the type key %s' % show(k, 4)[:120])
    return W


def locking(cx, op, mutexes):
    """Accesses to global state happen while its lock is held."""
    I = op.I
    held = []      # (mutex, place, first event, last event)
    for e in I.trace:
        if e.kind == 'decl' and e.extra and re.match(r'(const )?std::(lock_guard|unique_lock|scoped_lock)<', e.extra):
            v = e.args[0]
            ms = [x for x in subterms(v) if x.op == 'glob']
            if v.op == 'ctor' and ms and len(v.args) == 2:
                held.append([ms[0], e.places[0], e.i, None])
        elif e.kind == 'unlock' or e.kind == 'call' and re.search(r'std::(unique_lock)::unlock$', str(e.q)):
            for h in held:
                if e.places and h[1] == e.places[0] and h[3] is None:
                    h[3] = e.i
        elif e.kind == 'call' and str(e.q) in ('std::mutex::lock', 'std::mutex::unlock'):
            pl = e.places[0]
            if str(e.q).endswith('::lock'):
                held.append([e.args[0], pl, e.i, None])
            else:
                for h in held:
                    if h[1] == pl and h[3] is None:
                        h[3] = e.i
    n = 0
    for e in I.trace:
        if e.kind not in ('call', 'ctor', 'asg') or not e.places:
            continue
        for pl in e.places:
            if pl is None:
                continue
            r = pl.root
            g = None
            if r[0] == 'g':
                g = next((x for a in e.args if isinstance(a, T) for x in subterms(a) if x.op == 'glob' and x.args[0] == r[1]), None)
            elif r[0] == 'd':
                gs = [x for x in subterms(r[1]) if x.op == 'glob']
                g = gs[0] if gs else None
            if g is None and e.args and isinstance(e.args[0], T) and e.args[0].op == 'glob':
                g = e.args[0]
            if g is None or 'mutex' in g.args[0] and any(h[0] is g for h in held):
                continue
            if str(e.q).startswith('std::mutex') or not shared(I, g):
                continue
            n += 1
            h = [h for h in held if h[2] < e.i and (h[3] is None or e.i < h[3])]
            op.ob(bool(h), 'lock', e.loc, 'shared data used by %s %s' % (str(e.q)[-60:], 'without a lock' if not h else 'with the lock held'))
            mutexes.setdefault(show(g, 1), set()).update(x[0] for x in h)
            break
    return n


def shared(I, g):
    """A static map (not a constant)."""
    return any(e.kind == 'call' and re.search(r'unordered_map::(try_emplace|emplace|insert|clear|erase|operator\[\]|find|at)$', str(e.q)) and e.args and e.args[0] is g for e in I.trace)


def anys(cx, P, n, ret):
    """The functions on type-erased series."""
    fs = [f for f in P.funcs.values() if f.get('body') and f['q'].startswith('obake') and len(f.get('params', ())) == n and P.ty(f['ret']) == ret
          and all(re.sub('const | ?&', '', P.ty(q['t'])) == 'std::any' for q in f['params'])]
    return fs


def hashing(cx, P, f):
    """The hash is a sum over the terms of a function of what identical series have in common."""
    I = cx.analyse(P, f, stops=lambda q, n: stops8(q, n) or q in ('obake::hash', 'obake::detail::series_key_hasher::operator()'), exact=True)
    x = mk('x')
    what = 'hash of a series'
    loc = P.loc(f)
    ob = lambda r, d, l='': cx.ob(r, 'hash', what, l or loc, d)
    prm = p(f['params'][0]['n'])
    S = p('series')

    def norm(t):
        t = unany(clean(I.rewrite(t)))
        return subst(t, lambda z: S if z is prm else None)
    t = subst(norm(I.ret), lambda z: S if z is prm else None)
    loops = {z.args[0] for z in subterms(t) if z.op == 'lx'}

    def part(z, lid=None, key=None):
        """Are all the parts determined by the tag, the terms and the symbols?"""
        for q in subterms(z):
            if q is S:
                continue
            if q.op in ('p', 'c', 'call', 'fld', 'elem', 'deref', 'ref', 'lin', 'ctor', 'conv', 'cast', 'lv', 'lx', 'agg', 'ite', 'eq', 'lt', 'not', 'and', 'or'):
                if q.op == 'fld' and q.args[0] is S and q.args[1] not in (N.tag, N.ss):
                    return False
                if q.op == 'call' and q.args[0].startswith('obake::series::') and series_query(q) not in ('size', 'empty', 'begin', 'end', 'get_symbol_set', 'get_symbol_set_fw', 'tag'):
                    return False
                if q.op == 'p' and q is not S:
                    return None
                continue
            return None
        return True
    for lid in sorted(loops):
        L = I.loops[lid]
        r = norm(L.range) if L.range is not None else None
        tab = r is not None and (r is S or r.op == 'elem' and r.args[1] is mk('fld', S, N.tabs) or r is mk('fld', S, N.tabs))
        ob(True if tab else None, 'terms visited: %s' % (show(r, 4)[:120] if r is not None else 'unknown'), L.loc)
        for k, st in L.step.items():
            if not any(z.op == 'lx' and z.args[0] == lid and z.args[1] == k for z in subterms(t)):
                continue
            me = mk('lv', lid, k)
            st = norm(st)
            ob(part(norm(L.init[k])), 'the hash starts from %s' % show(norm(L.init[k]), 5)[:160], L.loc)
            for ex, kind in getattr(L, 'exits', ()) or ():
                if kind not in ('cond', 'throw'):
                    ob(False if mentions(norm(ex), me) else None, 'the terms are left unvisited if %s' % show(norm(ex), 4)[:120], L.loc)
            d = None
            if st.op == 'lin':
                d = sub(st, me)
                if mentions(d, me):
                    d = None
            elif st.op in ('xor', 'bxor') and me in st.args:
                d = [z for z in st.args if z is not me][0] if len([z for z in st.args if z is me]) == 1 else None
            elif st.op == 'lx':
                ob(True, 'nested loops over the tables', L.loc)
                continue
            if d is None:
                arith = all(z.op in ('lv', 'p', 'c', 'call', 'fld', 'elem', 'deref', 'ref', 'lin', 'agg', 'mul', 'xor', 'bxor', 'shl', 'shr', 'and', 'or', 'conv', 'cast', 'ctor') for z in subterms(st))
                ob(False if arith and mentions(st, me) else None, 'the hashes of the terms are combined in an order-dependent way: %s' % show(st, 5)[:160], L.loc)
                continue
            ob(part(d), 'each term contributes %s' % show(d, 5)[:160], L.loc)
    ob(part(t) if not loops else part(subst(t, lambda z: C(0) if z.op == 'lx' else None)), 'the hash depends on %s' % show(t, 4)[:160])


@rule('S09', ['series.cpp'], 'Powers of an arbitrary series, the cache behind them, its comparison, hashing and locking.', min_obligations=20)
def s09(cx):
    P = cx.progs['series.cpp']
    names(P)
    mutexes = {}
    uses = 0
    for f in cx.entry(P, 'hx::power', 2, pred=lambda f: bool(f.get('ta'))):
        cached = 'hx::cp' in f['ta']
        with cx.item(nice(f)):
            W = powers(cx, P, f, cached)
            if cached:
                uses += locking(cx, W.op, mutexes)
    for f in cx.entry(P, 'hx::clear_powers', 1, pred=lambda f: bool(f.get('ta'))):
        with cx.item(nice(f)):
            op = Op(cx, P, f, stops_=stops9)
            k = locking(cx, op, mutexes)
            uses += k
            N0 = p('cached')

            def sz(z):
                if z.op in ('size', 'empty', 'call') and isinstance(z.args[-1], T) and z.args[-1].op == 'glob':
                    m = z.op if z.op != 'call' else z.args[0].rsplit('::', 1)[-1]
                    return {'size': N0, 'empty': eq(C(0), N0)}.get(m)
                return None
            clr = [truth(subst(land(*e.guards), sz)) for e in op.I.trace if e.kind == 'call' and str(e.q).endswith('unordered_map::clear') and e.args[0].op == 'glob']
            r = bool(clr) and logic.implies(lnot(lor(*clr)), eq(C(0), N0), nonneg=(N0,))
            op.ob(True if r else False if clr and definite(lor(*clr), known) or not any(e.kind == 'call' for e in op.I.trace) else None, 'cache', '',
                  'the cache is cleared if %s' % (show(lor(*clr), 4)[:120] if clr else 'never'))
    with cx.item('cache of powers'):
        cx.ob(True if uses else None, 'lock', 'cache of powers', '', '%d accesses' % uses)
        for g, ms in mutexes.items():
            cx.ob(len(ms) == 1 if ms else None, 'lock', 'cache of powers', '', 'locks used for %s: %s' % (g, ', '.join(sorted(show(m, 2) for m in ms))))
    cmps = anys(cx, P, 2, 'bool')
    cx.ob(True if cmps else None, 'comparison', 'cache of powers', '', '%d comparisons of cached bases' % len(cmps))
    for f in cmps:
        for w in WORLDS:
            with cx.item('comparison of cached bases, %s' % w):
                x, y = p('x'), p('y')
                I = cx.analyse(P, f, stops=stops8, exact=True, known=knowing(x, y, w))
                a, b = (p(q['n']) for q in f['params'])
                sw = lambda t: subst(unany(t), lambda z: x if z is a else y if z is b else None)
                I.ret = sw(I.ret)
                for L in I.loops.values():
                    if L.range is not None:
                        L.range = sw(L.range)
                op = Cmp(cx, P, f, I, 'comparison of cached bases, %s' % w)
                if WORLDS[w][0]:
                    same_series(cx, op, w, False)
                else:
                    t = clean(I.rewrite(I.ret))
                    r = True if t is FALSE else False if definite(t, known) or t is TRUE else None
                    if r is None:
                        r = False if any(z.op == 'call' and z.args[0].split('<')[0].endswith('merge_symbol_sets') for z in subterms(t)) else None
                    op.ob(r, 'comparison', '', 'bases with different symbols are the same base if %s' % show(t, 5)[:200])
    hs = anys(cx, P, 1, 'unsigned long')
    cx.ob(True if hs else None, 'hash', 'cache of powers', '', '%d hashes of cached bases' % len(hs))
    for f in hs:
        with cx.item('hash of cached bases'):
            hashing(cx, P, f)


class Cmp:
    def __init__(self, cx, P, f, I, what):
        self.cx, self.P, self.f, self.I, self.what = cx, P, f, I, what
        self.loc = P.loc(f)

    def ob(self, ok, rule, loc='', detail=''):
        return self.cx.ob(ok, rule, self.what, loc or self.loc, detail)

