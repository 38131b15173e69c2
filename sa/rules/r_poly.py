"""Polynomials: generators, substitution, derivatives, integrals, truncation, powers of single terms."""
from .r_series5 import *
from ..poly import *
from ..series import N, names

STOPP = re.compile(OPS + r'|obake::customisation::internal::(pow$|series_default_pow_impl)')


def stopsp(q, n):
    return bool(STOPP.search(q))


def nm(f):
    return '%s %s' % (f['q'], {'mono, hx::ca': 'coefficients with derivatives of another type', 'mono, hx::cb': 'coefficients closed under derivation',
                               'monh, hx::cb': 'homomorphic hashes'}.get(re.sub(r'.*series<hx::(\w+, hx::\w+).*', r'\1', f.get('ta', '')), ''))


def run(cx, P, f, **kw):
    I = cx.analyse(P, f, stops=stopsp, exact=True, **kw)
    return I


def poly_types(P):
    names(P)


VOC = re.compile(r'^hx::|^obake::detail::(sm|ss)_intersect_idx$|^obake::series::|^boost::container::dtl::flat_tree::|^obake::operator|^begin$|^end$')


def definite_(*ts):
    """Every operation is one whose meaning is known."""
    for t in ts:
        if t is None:
            continue
        for y in subterms(t):
            if y.op in ('lv', 'lx', 'upd', 'unknown', 'opaque', 'havoc'):
                return False
            if y.op == 'call' and not VOC.search(base(y.args[0])):
                return False
    return True


def index_norm(ss, s):
    """Rewrites positions of a symbol in a set into index(set, symbol) and its absence into atoms."""
    A = mk('atom', 'absent')

    def f(x):
        if x.op == 'lin' or x.op == 'cast':
            y = strip_cast(x)
            for w in ('find', 'lower_bound'):
                fs = [z for z in subterms(y) if z.op == 'call' and base(z.args[0]).endswith('flat_tree::' + w) and z.args[1] is ss and z.args[2] is s]
                for z in fs:
                    if sub(y, z) is sub(C(0), mk('begin', ss)):
                        return mk('index', ss, s)
        if x.op == 'eq':
            a, b = [strip_cast(z) if isinstance(z, T) else z for z in x.args]
            a, b = (subst(a, f), subst(b, f)) if isinstance(a, T) and isinstance(b, T) else (a, b)
            for u, v in ((a, b), (b, a)):
                if u is mk('size', ss) and v is mk('index', ss, s):
                    return A
                if u is mk('end', ss) and v.op == 'call' and base(v.args[0]).endswith('flat_tree::find') and v.args[1] is ss and v.args[2] is s:
                    return A
        if x.op == 'lt':
            a, b = [subst(strip_cast(z), f) for z in x.args]
            if a is mk('index', ss, s) and b is mk('size', ss):
                return lnot(A)
            if b is mk('index', ss, s) and a is mk('size', ss):
                return FALSE
        if x.op == 'call' and base(x.args[0]).rsplit('::', 1)[-1] in ('contains',) and x.args[1] is ss and x.args[2] is s:
            return lnot(A)
        return None
    return f, A


def lb_form(c, ss, s):
    lbs = [y for y in subterms(c) if y.op == 'call' and base(y.args[0]).endswith('flat_tree::lower_bound') and y.args[1] is ss and y.args[2] is s]
    return lor(eq(lbs[0], mk('end', ss)), lnot(eq(s, mk('deref', lbs[0])))) if lbs else None


def lb_absence(conds, ss, s, A):
    """The absence of the symbol expressed through its lower bound."""
    c = land(*conds)
    lbs = [y for y in subterms(c) if y.op == 'call' and base(y.args[0]).endswith('flat_tree::lower_bound') and y.args[1] is ss and y.args[2] is s]
    if not lbs:
        return c
    lb = lbs[0]
    form = lor(eq(lb, mk('end', ss)), lnot(eq(s, mk('deref', lb))))
    # Case distinction: the two atoms only occur in the combination above.
    e1, e2 = eq(lb, mk('end', ss)), eq(s, mk('deref', lb))
    absent = [assume_in(c, {e1: True}), assume_in(c, {e1: False, e2: False})]
    present = assume_in(c, {e1: False, e2: True})
    if logic.equiv(absent[0], absent[1]) is True:
        return lor(land(A, absent[0]), land(lnot(A), present))
    return c


class Judge:
    def __init__(self, cx, f, rule, P):
        self.cx, self.f, self.rule, self.loc = cx, f, rule, floc(P, f)
        self.what = nm(f)

    def ob(self, ok, detail='', loc=None):
        return self.cx.ob(ok, self.rule, self.what, loc or self.loc, detail)

    def sum(self, R, v, x, want, rw, ss=None, s=None, A=None, assume=TRUE, nonneg=()):
        """The parts of the value are exactly those wanted: [(num, den, key, cond)]."""
        got = []
        for q in v.parts:
            if q.whole is not None and q.key is None:
                self.ob(False if definite_(q.whole) and q.whole.op != 'lv' else None, 'the result contains %r' % q)
                return
            o = R.over(q, x)
            g = lambda t: subst(t, rw) if rw else t
            c = land(*[noex(t) for t in map(g, o.conds)])
            if A is not None:
                c = lb_absence([c], ss, s, A)
            got.append((tuple(sorted(map(g, o.num), key=show)), tuple(sorted(map(g, o.den), key=show)), o.neg, g(o.key), c, q))
        wants = [(tuple(sorted(n, key=show)), tuple(sorted(d, key=show)), False, k, c) for n, d, k, c in want]
        used = set()
        for w in wants:
            ms = [i for i, g in enumerate(got) if g[:4] == w[:4]]
            if not ms:
                others = [g for i, g in enumerate(got)]
                dfn = all(definite_(*(g[0] + g[1] + (g[3], g[4]))) for g in others)
                self.ob(False if dfn else None, 'the contribution %s of a term is missing (found: %s)' % (
                    '*'.join(show(t, 5) for t in w[0]) + ' [%s]' % show(w[3], 5), '; '.join('%r' % g[5] for g in others)[:300]))
                continue
            used |= set(ms)
            # Twice the same contribution under compatible conditions.
            cs = [got[i][4] for i in ms]
            for i in range(len(cs)):
                for j in range(i):
                    if logic.sat(land(cs[i], cs[j], assume)) is not False:
                        self.ob(False if definite_(cs[i], cs[j]) else None, 'the contribution %s is added twice' % '*'.join(show(t, 5) for t in w[0]))
            c = lor(*cs)
            r = logic.equiv(c, w[4], assume)
            self.ob(True if r else False if definite_(c) else None, 'the contribution %s of a term is added if %s, not if %s' % (
                '*'.join(show(t, 5) for t in w[0]), show(c, 5)[:150], show(w[4], 5)[:100]))
        for i, g in enumerate(got):
            if i not in used:
                if logic.sat(land(g[4], assume)) is False:
                    continue
                self.ob(False if definite_(*(g[0] + g[1] + (g[3], g[4]))) else None, 'the result contains %r' % g[5])


def noex(c):
    """Conditions of a normal return: no exception has been thrown in a loop."""
    return subst(c, lambda x: FALSE if x.op == 'ex' else None)


def throws(I, what='std::invalid_argument'):
    return [e for e in I.trace if e.kind == 'throw' and e.q == what]


# ---- generators ----------------------------------------------------------------

def exponents(R, t):
    """{position: exponent} of the nonzero exponents of an array of integers, with its size."""
    over, n = {}, None
    order = []
    while True:
        if t.op == 'with' and t.args[1] == 'i':
            i, v = strip_cast(t.args[2]) if isinstance(t.args[2], T) else C(t.args[2]), t.args[3]
            order.append((R.norm(i), v))
            t = t.args[0]
            continue
        if t.op == 'ctor' and 'std::vector<int' in str(t.args[0]) and len(t.args) in (2, 3):
            n = t.args[1]
            if len(t.args) == 3 and t.args[2].op == 'c' and t.args[2] is not C(0):
                raise LookupError('initial exponents')
            break
        if t.op == 'agg':
            vals = [x for x in t.args[2:] if isinstance(x, T)]
            return {C(i): v for i, v in enumerate(vals)}, C(len(vals))
        raise LookupError('exponents %s' % show(t, 4)[:120])
    for i, v in order:       # the latest write first
        over.setdefault(i, v)
    return {i: v for i, v in over.items() if v is not C(0)}, R.norm(strip_cast(n))


GENS = (('gens_ss', 1, True), ('gens_ss2', 2, True), ('gens_ssc', 1, True), ('gens', 1, False), ('gens2', 2, False), ('gensc', 1, False))


def generators(cx, P, table=GENS, count=3, other=(), value=None, opts=None):
    """other: parameters which are not symbols; value: what is behind the value of a generator."""
    for q, nargs, with_ss in table:
        for f in cx.entry(P, 'hx::' + q, count):
            with cx.item(nm(f)):
                I = run(cx, P, f, **(opts(q) if opts else {}))
                J = Judge(cx, f, 'generators', P)
                ps = [mk('p', x['n']) for x in f['params']]
                ss, syms = (ps[0], ps[1:]) if with_ss else (None, ps)
                syms = [x for x in syms if x.args[0] not in other]
                R = Reader(I)
                arr = clean_(I.ret)
                els = elements(arr)
                if els is None or len(els) != nargs:
                    J.ob(None if els is None else False, 'the generators returned: %s' % show(arr, 4)[:150])
                    continue
                thr = FALSE
                for e, s in zip(els, syms):
                    if value is not None:
                        e = value(J, f, I, q, e)
                    v = R.value(e)
                    name = lambda t: t is s or t.op in ('ctor', 'conv', 'cast') and any(y is s for y in subterms(t)) and definite_(t)
                    if len(v.parts) != 1 or v.parts[0].num or v.parts[0].den or v.parts[0].neg or v.parts[0].conds:
                        J.ob(False if all(definite_(*(x.num + x.den)) for x in v.parts) else None, 'the generator consists of %s' % v.parts)
                        continue
                    J.ob(True)
                    k = deref_(v.parts[0].key)
                    ex, n, whole = key_of(R, k)
                    if with_ss:
                        J.ob(True if v.ss is ss else None if not definite_(v.ss) else False, 'the symbol set of a generator is %s' % show(v.ss, 4)[:120])
                        fnd = [y for y in subterms(mk('t', *ex)) if y.op == 'call' and base(y.args[0]).endswith('flat_tree::find')]
                        good = [y for y in fnd if y.args[1] is ss and name(y.args[2])]
                        want = {sub(y, mk('begin', ss)) for y in good}
                        ok = len(ex) == 1 and list(ex.values())[0] is C(1) and list(ex)[0] in want
                        J.ob(True if ok else False if definite_(*list(ex) + list(ex.values())) and all(x.op in ('lin', 'c') for x in ex) else None,
                             'the exponents of a generator are 1 at its position and 0 elsewhere (found %s)' % '; '.join('%s: %s' % (show(i, 4), show(w, 3)) for i, w in ex.items())[:200])
                        J.ob(True if whole and strip_cast(n) in (mk('size', ss), ) or n.op == 'call' and n.args[1] is mk('size', ss) else None, 'number of exponents %s' % show(n, 4)[:100])
                    else:
                        one = v.ss.op == 'ctor' and [name(y) for y in set_elems(v.ss)] == [True]
                        J.ob(True if one else None, 'the symbol set of a generator is %s' % show(v.ss, 5)[:150])
                        ok = len(ex) == 1 and ex.get(C(0)) is C(1) and n is C(1) and whole
                        J.ob(True if ok else False if definite_(*list(ex) + list(ex.values()) + [n]) and all(x.op == 'c' for x in list(ex) + list(ex.values()) + [n]) else None,
                             'the only exponent of a generator is 1 (found %s of %s)' % ('; '.join('%s: %s' % (show(i, 4), show(w, 3)) for i, w in ex.items())[:200], show(n, 3)))
                if not with_ss:
                    J.ob(True if not throws(I) else None, 'exceptions thrown')
                    continue
                # A name which is not in the set is an error.
                T_ = throws(I)
                base_ok = []
                for s in syms:
                    ths = []
                    for t in T_:
                        own = guard_of(t, ())
                        fs = [y for y in subterms(own) if y.op == 'call' and base(y.args[0]).endswith('flat_tree::find') and y.args[1] is ss and (y.args[2] is s or any(z is s for z in subterms(y.args[2])))]
                        if fs and not any(t is b for b in base_ok):
                            ths.append((t, fs[0]))
                    if len(ths) < 1:
                        J.ob(False, 'a name which is not in the symbol set is accepted')
                        continue
                    t, fnd = ths[0]
                    base_ok.append(t)
                    # What follows requires the negation of the condition: compare with the creation of the key.
                    cond = land(*[clean_(I.rewrite(g)) for g in t.guards])
                    e1 = eq(fnd, mk('end', ss))
                    for e in I.trace:
                        if e.kind == 'call' and any(a is mk('deref', fnd) for a in e.args):
                            g = land(*[clean_(I.rewrite(z)) for z in e.guards])
                            if logic.sat(land(g, e1)) is not False:
                                J.ob(False if definite_(g) else None, 'the symbol found is used although there may be none', e.loc)
                    e2s = [y for y in subterms(cond) if y.op == 'eq' and any(z is mk('deref', fnd) for z in y.args)]
                    e2 = e2s[0] if e2s else None
                    absent = assume_in(cond, {e1: True, **({e2: False} if e2 is not None else {})})
                    present = assume_in(cond, {e1: False, **({e2: True} if e2 is not None else {})})
                    J.ob(True if present is FALSE else False if definite_(present) else None, 'the error is raised for a name in the symbol set if %s' % show(present, 4)[:150], t.loc)
                    rest = [g for g in t.guards if not any(y is fnd for y in subterms(clean_(g)))]
                    J.ob(True if logic.equiv(absent, land(*[clean_(g) for g in rest])) is True else None, 'the error is raised for a name which is not in the symbol set only if %s' % show(absent, 4)[:150], t.loc)


def elements(t):
    """Elements of an array value."""
    t = deref_(t)
    if t.op == 'agg' and 'std::array' in str(t.args[0]):
        a = [x for x in t.args[2:] if isinstance(x, T)]
        return elements(a[0]) if len(a) == 1 and a[0].op == 'agg' else a
    if t.op == 'agg':
        return [x for x in t.args[2:] if isinstance(x, T)]
    return None


def set_elems(t):
    """Elements a flat_set is built from."""
    for a in t.args[1:]:
        if isinstance(a, T):
            if a.op == 'ctor' and 'flat_set' in str(a.args[0]):
                return set_elems(a)
            if a.op == 'agg':
                return [x for x in a.args[2:] if isinstance(x, T)]
    return []


def key_of(R, k):
    """(exponents, size of the array, whole array used)."""
    while k.op == 'ctor' and len(k.args) == 2 and isinstance(k.args[1], T):
        k = deref_(k.args[1])
    if k.op != 'ctor' or len(k.args) != 3:
        raise LookupError('key %s' % show(k, 4)[:120])
    a, b = k.args[1:]
    n = sub(b, a)
    src = array_of(R.I, a)
    ex, size = exponents(R, src)
    whole = False
    if n.op == 'size' and n.args[0] is src:
        n, whole = size, True
    elif n.op == 'c':
        whole = size is n
    else:
        nn = subst(n, lambda x: size if x.op == 'size' and x.args[0] is src else None)
        whole = R.norm(strip_cast(nn)) is strip_cast(size)
        n = size if whole else nn
    return ex, n, whole


def array_of(I, a):
    if a.op == 'addr' and isinstance(a.args[0], tuple) and a.args[0][0] == 'v' and len(a.args[1]) == 1 and a.args[1][0] in (('i', 0), ('i', C(0))):
        v = I.final.store.get(a.args[0])
        if v is not None:
            return v
    if a.op == 'call' and base(a.args[0]).endswith('vector::data'):
        return deref_(a.args[1])
    if a.op in ('ref', 'decay'):
        x = a.args[0]
        if x.op == 'idx' and x.args[1] is C(0):
            return x.args[0]
        return x
    if a.op == 'begin':
        return deref_(a.args[0])
    raise LookupError('array %s' % show(a, 4)[:120])


@rule('P01', ['poly.cpp'], 'symbolic summaries of the factory for each kind of name, with and without a symbol set; the array of exponents is read as a list of writes over zeros', min_obligations=40)
def p01(cx):
    P = cx.progs['poly.cpp']
    poly_types(P)
    generators(cx, P)


# ---- substitution --------------------------------------------------------------

def result(R, I):
    return R.value(clean_(I.ret))


@rule('P02', ['poly.cpp'], 'the result is read as a sum over the terms of the polynomial and compared with the sum of products required', min_obligations=12)
def p02(cx):
    P = cx.progs['poly.cpp']
    poly_types(P)
    for q in ('subs_s', 'subs_m'):
        for f in cx.entry(P, 'hx::' + q, 3):
            with cx.item(nm(f)):
                I = run(cx, P, f)
                J = Judge(cx, f, 'substitution', P)
                x, m = (mk('p', y['n']) for y in f['params'])
                R = Reader(I, [x])
                X = mk('SS', x)
                try:
                    v = result(R, I)
                    si = [y for e in I.trace for a in e.args if isinstance(a, T) for y in subterms(R.norm(a)) if y.op == 'call' and base(y.args[0]) == 'obake::detail::sm_intersect_idx']
                    w = [y for y in si if y.args[1] is m and y.args[2] is X]
                    if not w:
                        J.ob(None, 'the positions of the symbols to be replaced')
                        continue
                    ks = mk('call', 'hx::monomial_subs', TK, w[0], X)
                    J.sum(R, v, x, [([mk('fld', ks, 'first'), mk('call', 'hx::subs', TC, m)], [], mk('fld', ks, 'second'), TRUE)], None)
                    J.ob(True if v.ss in (X, EMPTY) else None, 'the symbol set of the result is %s' % show(v.ss, 4)[:150])
                except Partial as e:
                    J.ob(False, str(e), e.loc)


# ---- derivatives ---------------------------------------------------------------

@rule('P03', ['poly.cpp'], 'the result is read as a sum over the terms of the polynomial and compared with the product rule; positions of the symbol and its absence are normalised', min_obligations=18)
def p03(cx):
    P = cx.progs['poly.cpp']
    poly_types(P)
    for q in ('diff_s', 'diff_m'):
        for f in cx.entry(P, 'hx::' + q, 3):
            with cx.item(nm(f)):
                I = run(cx, P, f)
                J = Judge(cx, f, 'derivative', P)
                x, s = (mk('p', y['n']) for y in f['params'])
                R = Reader(I, [x])
                X = mk('SS', x)
                rw, A = index_norm(X, s)
                try:
                    v = result(R, I)
                    kd = mk('call', 'hx::monomial_diff', TK, mk('index', X, s), X)
                    J.sum(R, v, x, [([mk('call', 'hx::diff', TC, s)], [], TK, TRUE),
                                    ([TC, mk('fld', kd, 'first')], [], mk('fld', kd, 'second'), lnot(A))], rw, X, s, A)
                    J.ob(True if v.ss in (X, EMPTY) else None, 'the symbol set of the result is %s' % show(v.ss, 4)[:150])
                except Partial as e:
                    J.ob(False, str(e), e.loc)


# ---- integrals -----------------------------------------------------------------

def set_with(R, t, X, s):
    """Is the symbol set t the set X with s added?  None if not recognised."""
    lb = None

    def seq(t):
        if t.op == 'ctor':
            a = [y for y in t.args[1:] if isinstance(y, T)]
            if not a:
                return []
            if len(a) == 2:
                return [('range', R.norm(a[0]), R.norm(a[1]))]
            raise LookupError('sequence')
        if t.op == 'upd' and t.args[1] == 0:
            n = base(t.args[0]).rsplit('::', 1)[-1]
            b, r = t.args[2], t.args[3:]
            while len(r) > 1 and not (isinstance(r[-1], T) and r[-1].op != 'c'):
                r = r[:-1]        # defaulted arguments
            if n == 'reserve':
                return seq(b)
            if n in ('push_back', 'emplace_back'):
                return seq(b) + [('one', R.norm(r[0]))]
            if n == 'insert' and len(r) in (2, 3):
                pos = r[0]
                at_end = any(y.op == 'end' for y in [strip_ctor(pos)])
                if not at_end:
                    raise LookupError('position of an insertion')
                return seq(b) + ([('one', R.norm(r[1]))] if len(r) == 2 else [('range', R.norm(r[1]), R.norm(r[2]))])
        raise LookupError('sequence %s %s' % (t.op, show(t, 3)[:200]))
    if t.op == 'upd' and base(t.args[0]).rsplit('::', 1)[-1] == 'adopt_sequence':
        q = seq(t.args[-1])
        lbs = [y for z in q for w in z[1:] for y in subterms(w) if y.op == 'call' and base(y.args[0]).endswith('flat_tree::lower_bound')]
        lbs = [y for y in lbs if y.args[1] is X and y.args[2] is s]
        if not lbs:
            if definite_(*[y for z in q for y in z[1:]]):
                return False
            raise LookupError('the position of the new symbol')
        lb = lbs[0]
        st = lambda y: strip_ctor(y)
        q = [tuple(st(y) if isinstance(y, T) else y for y in z) for z in q]
        want = [('range', mk('begin', X), lb), ('one', s), ('range', lb, mk('end', X))]
        return q == want
    if t.op == 'upd' and base(t.args[0]).rsplit('::', 1)[-1] in ('insert', 'emplace', 'emplace_hint') and R.ss(t.args[2]) is X:
        return R.norm(t.args[-1]) is s
    if t is X:
        return False
    raise LookupError('set %s' % show(t, 4)[:100])


@rule('P04', ['poly.cpp'], 'the result is read, in the two cases of the symbol being present or absent, as a sum over the terms of the (extended) polynomial and compared with the sum required; '
      'the extended symbol set and the insertion map are compared with those required', min_obligations=36)
def p04(cx):
    P = cx.progs['poly.cpp']
    poly_types(P)
    for q in ('int_s', 'int_m'):
        for f in cx.entry(P, 'hx::' + q, 3):
            with cx.item(nm(f)):
                I = run(cx, P, f)
                J = Judge(cx, f, 'integral', P)
                x, s = (mk('p', y['n']) for y in f['params'])
                R = Reader(I, [x])
                X = mk('SS', x)
                rw, A = index_norm(X, s)
                # The polynomials iterated over.
                rng = []
                for L in I.loops.values():
                    y = L.range if L.kind == 'rfor' else None
                    if y is None:
                        for b in L.init.values():
                            if series_query(b) in ('begin', 'cbegin'):
                                y = b.args[1]
                    if y is not None and y not in rng:
                        rng.append(y)
                try:
                    alts = alternatives(clean_(I.ret))
                    seen = {}
                    for c, t in alts:
                        c = lb_absence([subst(R.norm(noex(c)), rw)], X, s, A)
                        if logic.sat(c) is False:
                            continue
                        AA = lb_form(c, X, s) or A
                        absent = logic.implies(c, AA) is True
                        present = logic.implies(c, lnot(AA)) is True
                        v = R.value(t)
                        srcs = [y for y in rng if any(uses(I, q_, y) for q_ in v.parts)]
                        if len(srcs) != 1:
                            J.ob(None, 'the terms used: %s' % v.parts)
                            continue
                        y = srcs[0]
                        seen.setdefault(bool(absent), []).append(c)
                        if y is x:
                            if not present:
                                J.ob(False if definite_(c) else None, 'the symbol is not added to the symbol set if %s' % show(c, 5)[:150])
                                continue
                            S = X
                            idx = mk('index', X, s)
                        else:
                            S = R.value(y).ss
                            w = R.value(y).parts
                            if len(w) != 1 or w[0].whole is None or w[0].whole.op != 'extended' or w[0].whole.args[0] is not x:
                                J.ob(None, 'the terms used are those of %s' % show(y, 3)[:150])
                                continue
                            if not absent:
                                J.ob(False if definite_(c) else None, 'the symbol is added to the symbol set if %s' % show(c, 5)[:150])
                                continue
                            r = set_with(R, S, X, s)
                            J.ob(r, 'the symbol set is extended to %s' % show(S, 8)[:200])
                            mp = subst(w[0].whole.args[1], rw)
                            pr = [z for z in subterms(mp) if z.op == 'agg' and 'std::pair' in str(z.args[0]) and '[' not in str(z.args[0])[-4:]]
                            if len(pr) == 1 and len(pr[0].args) == 4:
                                i, st = pr[0].args[2:]
                                J.ob(True if strip_cast(i) is mk('index', X, s) else False if definite_(i) else None, 'the new symbol is inserted at %s' % show(i, 5)[:150])
                                J.ob(True if set_elems(st) == [s] else None, 'the symbols inserted are %s' % show(st, 5)[:150])
                            else:
                                J.ob(None, 'the insertion map %s' % show(mp, 5)[:150])
                            idx = mk('index', X, s)
                        SN = S if S is X else mk('SS', X, s)
                        rws = lambda z, S=S, SN=SN: SN if z is S else rw(z)
                        ki = mk('call', 'hx::monomial_integrate', TK, idx, SN)
                        J.sum(R, v, y, [([TC], [mk('fld', ki, 'first')], mk('fld', ki, 'second'), c)], rws, X, s, A, assume=c)
                        J.ob(True if v.ss in (S, EMPTY) else None, 'the symbol set of the result is %s' % show(v.ss, 4)[:150])
                        # An error is raised if some coefficient depends on the symbol.
                        ok = None
                        for e in throws(I):
                            if not e.loops:
                                continue
                            g = land(*[clean_(I.rewrite(z)) for z in guard_list(e, I.loops[e.loops[0]].guards)])
                            els = [z for z in subterms(g) if z.op in ('elem', 'deref') and same_el(I, z, y)]
                            if not els:
                                continue
                            g = R.norm(subst(g, lambda z: TERM if z in els else None))
                            wantg = lnot(mk('call', 'hx::is_zero', mk('call', 'hx::diff', TC, s)))
                            ok = logic.equiv(g, wantg)
                            J.ob(True if ok else False if definite_(g) else None, 'the error is raised if %s' % show(g, 5)[:150], e.loc)
                        if ok is None:
                            J.ob(False if not throws(I) else None, 'coefficients which depend on the symbol are accepted')
                    for k in (True, False):
                        J.ob(True if seen.get(k) else None, 'the case of the symbol %s the symbol set is not recognised' % ('absent from' if k else 'in'))
                except Partial as e:
                    J.ob(False, str(e), e.loc)


def guard_list(e, outer):
    o = set(outer)
    return [g for g in e.guards if g not in o]


def same_el(I, z, y):
    from .r_series7 import terms_of
    try:
        return terms_of(I, z, y)[1] == 0
    except (LookupError, Partial):
        return False


def uses(I, q, y):
    for t in q.num + q.den + ((q.key,) if q.key is not None else ()):
        for z in subterms(t):
            if z.op in ('elem', 'deref') and same_el(I, z, y):
                return True
    return False


def alternatives(t, c=TRUE):
    if t.op == 'ite':
        return alternatives(t.args[1], land(c, t.args[0])) + alternatives(t.args[2], land(c, lnot(t.args[0])))
    return [(c, t)]


# ---- truncation ----------------------------------------------------------------

@rule('P05', ['poly.cpp'], 'the predicate handed to the filter is summarised on a symbolic term and compared with the required one', min_obligations=12)
def p05(cx):
    P = cx.progs['poly.cpp']
    poly_types(P)
    for q in ('trunc', 'ptrunc'):
        for f in cx.entry(P, 'hx::' + q, 3):
            with cx.item(nm(f)):
                I = run(cx, P, f)
                J = Judge(cx, f, 'truncation', P)
                ps = [mk('p', y['n']) for y in f['params']]
                x, d = ps[:2]
                R = Reader(I, [x])
                X = mk('SS', x)
                fl = [e for e in I.trace if e.kind == 'call' and base(str(e.q)) == 'obake::filter']
                if len(fl) != 1 or fl[0].args[0] is not x:
                    J.ob(None, 'the terms are not selected by one call of filter()')
                    continue
                g = land(*[clean_(I.rewrite(z)) for z in fl[0].guards])
                J.ob(True if g is TRUE else False if definite_(R.norm(g)) else None, 'the terms are selected only if %s' % show(g, 5)[:150], fl[0].loc)
                cbs = [L for L in I.loops.values() if L.kind == 'cb' and L.range is not None and 'obake::filter' in str(L.range.args[0])]
                if len(cbs) != 1 or cbs[0].result is None:
                    J.ob(None, 'the predicate')
                    continue
                L = cbs[0]
                arg = L.args[0] if getattr(L, 'args', None) else None
                r = R.norm(clean_(L.result))
                r = subst(r, lambda z: TERM if z.op == 'cbarg' and z.args[0] == L.id else None)
                if q == 'trunc':
                    degs = [mk('call', 'hx::key_degree', TK, X)]
                else:
                    si = [y for y in subterms(r) if y.op == 'call' and base(y.args[0]) == 'obake::detail::ss_intersect_idx' and y.args[1] is ps[2] and y.args[2] is X]
                    if not si:
                        J.ob(False if definite_(r) else None, 'a term is kept if %s' % show(r, 6)[:200])
                        continue
                    degs = [mk('call', 'hx::key_p_degree', TK, si[0], X)]
                want = lnot(mk('call', 'hx::operator<', d, degs[0]))
                ok = logic.equiv(truth(r), truth(want))
                J.ob(True if ok else False if definite_(r) else None, 'a term is kept if %s' % show(r, 6)[:200])


# ---- powers --------------------------------------------------------------------

@rule('P06', ['poly.cpp'], 'the summary of the power is split by the number of terms; the single-term case is compared with the required term', min_obligations=9)
def p06(cx):
    P = cx.progs['poly.cpp']
    poly_types(P)
    for f in cx.entry(P, 'hx::pow_s', 3):
        with cx.item(nm(f)):
            I = run(cx, P, f)
            J = Judge(cx, f, 'power', P)
            x, n = (mk('p', y['n']) for y in f['params'])
            R = Reader(I, [x])
            X = mk('SS', x)
            one = eq(mk('call', 'obake::series::size', x), C(1))
            sz = [y for e in I.trace for g in e.guards for y in subterms(g) if called(y, 'obake::series::size')]
            if sz:
                one = eq(sz[0], C(1))
            for c, t in alternatives(clean_(I.ret)):
                r1, r0 = logic.implies(c, one), logic.implies(c, lnot(one))
                gen = t.op == 'call' and re.search(r'customisation::internal::(pow|series_default_pow_impl.*)$', base(t.args[0]))
                if gen:
                    J.ob(True if r0 is True else None, 'the general algorithm is used if %s' % show(c, 5)[:150])
                    a = [y for y in t.args[1:] if isinstance(y, T)]
                    J.ob(True if [strip_ctor(y) for y in a[-2:]] == [x, n] else False if definite_(*a[-2:]) else None, 'the general algorithm computes the power of %s' % [show(y, 4) for y in a[-2:]])
                    continue
                v = R.value(t)
                if not r1:
                    J.ob(False if definite_(c) and r1 is False else None, 'the power of a single term is used if %s' % show(c, 5)[:150])
                    continue
                J.ob(True)
                J.ob(True if v.ss is X else False if v.ss is EMPTY else None, 'the symbol set of the power is %s' % show(v.ss, 4)[:120])
                ok = len(v.parts) == 1
                if not ok:
                    J.ob(None, 'the power is %s' % v.parts)
                    continue
                q = v.parts[0]
                beg = lambda z: TERM if z.op == 'deref' and series_query(z.args[0]) in ('begin', 'cbegin') and z.args[0].args[1] is x else None
                g = lambda t_: R.norm(subst(R.norm(t_), beg))
                key, num = g(q.key), [g(y) for y in q.num]
                J.ob(True if key is mk('call', 'hx::monomial_pow', TK, n, X) else False if definite_(key) else None, 'the monomial of the power is %s' % show(key, 5)[:150])
                J.ob(True if num == [mk('call', 'hx::pow', TC, n)] and not q.den and not q.neg else False if definite_(*num) else None, 'the coefficient of the power is %s' % [show(y, 5) for y in num])
