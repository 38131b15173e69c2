"""Power series: truncation in sums, products, powers and integrals; setting, unsetting and applying it; generators."""
from .r_series5 import *
from ..poly import *
from ..series import N, names
from .r_poly import definite_, generators

KINDS = ('no truncation', 'truncation in the total degree', 'truncation in the partial degree')
STOPW = re.compile(r'obake::detail::series_default_(in_place_)?addsub_impl$|obake::polynomials::detail::(poly_mul_impl_switch|pow_poly_impl|poly_\w+_impl)$|'
                   r'obake::series::(add_term|series|~series|operator=|set_symbol_set|set_symbol_set_fw|set_n_segments|clear|clear_terms|size|empty|swap)$|'
                   r'obake::(filter|filtered|safe_cast)$|^hx::(?!(?:add|sub|mul|set|gen|trunc|tag|tex|int_s|pow_s)\w*$)|obake::detail::ss_intersect_idx$')


class W:
    """Names."""
    trunc = 'trunc'


def wnames(P):
    names(P)
    for r in P.recs:
        if r['q'] == 'obake::power_series::tag':
            for f in r['fields']:
                if 'flyweight<' in P.types[f['t']]:
                    W.trunc = f['n']


def stopw(q, n):
    return bool(STOPW.search(base(q)))


def owner(t):
    """The series whose truncation a flyweight or the value in it is, or None."""
    t = deref_(t)
    if t.op == 'call' and base(t.args[0]).endswith('flyweight::get') or t.op in ('conv', 'cast') and isinstance(t.args[-1], T):
        return owner(t.args[-1])
    if t.op == 'ctor' and 'flyweight' in str(t.args[0]) and len(t.args) == 2 and isinstance(t.args[1], T):
        return owner(t.args[1])
    if t.op == 'TR':
        return t.args[0]
    if t.op == 'fld' and t.args[1] == W.trunc and t.args[0].op == 'fld' and t.args[0].args[1] == N.tag:
        return t.args[0].args[0]
    return None


def norm(t):
    """Truncations and symbol sets in normal form."""
    def f(x):
        x0 = x
        x = deref_(x)
        if x.op == 'call' and base(x.args[0]) == 'obake::series::get_symbol_set':
            return mk('SS', norm(x.args[1]))
        if x.op == 'call' and base(x.args[0]).endswith('flyweight::get'):
            a = deref_(x.args[1])
            s = owner(a)
            if s is not None:
                return mk('TR', norm(s))
            if a.op == 'fld' and a.args[1] == N.ss:
                return mk('SS', norm(a.args[0]))
            if a.op in ('conv', 'ctor') and len(a.args) == 2 and isinstance(a.args[1], T):
                return norm(deref_(a.args[1]))
        return norm(x) if x is not x0 else None
    return clean_(subst(t, f))


def root(t):
    """The value an object was before its fields were assigned."""
    t = deref_(t)
    while t.op in ('with', 'ctor') and isinstance(t.args[-1 if t.op == 'ctor' else 0], T):
        if t.op == 'ctor' and len(t.args) != 2:
            break
        if t.op == 'with' and t.args[0].op == 'new':
            v = [t.args[3]]
            while v and v[0].op == 'fld':
                return root(v[0].args[0])
        t = deref_(t.args[1] if t.op == 'ctor' else t.args[0])
    return t


def limit(s, k):
    """The limits of the truncation of kind k of the series s."""
    v = mk('idx', mk('TR', s), C(k))
    return [v] if k == 1 else [mk('fld', v, 'first'), mk('fld', v, 'second')] if k == 2 else []


def differ(x, y, k):
    return lnot(land(*[eq(a, b) for a, b in zip(limit(x, k), limit(y, k))])) if k else FALSE


def compare(t, worlds):
    """Comparisons of limits, of whole truncations and of tags, in one case of their kinds."""
    def f(x):
        if x.op == 'call' and base(x.args[0]) in ('hx::operator==', 'hx::operator!='):
            c = eq(norm(x.args[1]), norm(x.args[2]))
            return c if base(x.args[0]).endswith('==') else lnot(c)
        if x.op == 'eq' and all(isinstance(a, T) for a in x.args):
            a, b = x.args
            for u, v in ((a, b), (b, a)):
                if u is C(0) and v.op == 'call' and base(v.args[0]) in ('hx::operator==', 'hx::operator!=', 'hx::operator<'):
                    return lnot(truth(f(v) or v))
            if a.op == 'idx' and b.op == 'idx' and a.args[0].op == 'TR' and b.args[0].op == 'TR' and a.args[1] is C(2) and b.args[1] is C(2):
                return land(*[eq(mk('fld', a, n), mk('fld', b, n)) for n in ('first', 'second')])
            o = [owner(a), owner(b)]
            if None not in o:
                k = [worlds(z) for z in o]
                if None not in k:
                    return FALSE if k[0] != k[1] else lnot(differ(norm(o[0]), norm(o[1]), k[0]))
        return None
    return truth(clean_(subst(norm(t), f)))


class Run:
    """One operation on power series, in one case of the kinds of truncation of its operands."""

    def __init__(self, cx, P, f, kinds, rule, result=None):
        self.cx, self.P, self.f, self.kinds, self.rule, self.result = cx, P, f, kinds, rule, result
        ps = [mk('p', y['n']) for y in f['params']]
        self.ps = ps
        self.what = '%s, %s' % (f['q'].replace('hx::', ''), ' and '.join(KINDS[k] for k in kinds.values())) if kinds else f['q'].replace('hx::', '')
        self.loc = floc(P, f)
        self.I = cx.analyse(P, f, stops=stopw, exact=True, alts=self.alts, same_object=lambda q: 'in_place' in q)
        for e in self.I.trace:
            if e.loc and build.in_repo(e.loc) and not e.loc.endswith('series.hpp'):
                self.loc = e.loc

    def kind_of(self, s):
        r = root(norm(s))
        if r in self.kinds:
            return self.kinds[r]
        return self.result

    def alts(self, v):
        s = owner(v)
        return self.kind_of(s) if s is not None else None

    def ob(self, ok, detail='', loc=None):
        return self.cx.ob(ok, self.rule, self.what, loc or self.loc, detail)

    def guard(self, e):
        return compare(land(*[clean_(self.I.rewrite(g)) for g in e.guards if not has_caught(g)]), self.kind_of)

    def live(self, e, under=TRUE):
        return not any(has_caught(g) for g in e.guards) and logic.sat(land(self.guard(e), under)) is not False

    def throws(self, want):
        """Exceptions exactly if the condition holds."""
        ts = [e for e in self.I.trace if e.kind == 'throw' and not any(has_caught(g) for g in e.guards)]
        c = lor(*[self.guard(e) for e in ts]) if ts else FALSE
        r = logic.equiv(c, want)
        loc = ts[0].loc if ts else None
        self.ob(r if r or definite(c) else None, 'an exception is thrown if %s, it has to be if %s' % (show(c, 6)[:200], show(want, 6)[:200]), loc)
        for e in ts:
            self.ob('invalid_argument' in str(e.q), 'the exception is of type %s' % e.q, e.loc)
        return c

    def events(self, *qs):
        return [e for e in self.I.trace if e.kind == 'call' and base(str(e.q)) in qs and not any(has_caught(g) for g in e.guards)]

    def truncated(self, R, allowed, under=TRUE, need=True, after=-1):
        """The terms of the object R above the limit of one of the allowed (kind, limits) are removed, and no others."""
        I = self.I
        fl = [e for e in self.events('obake::filter') if self.live(e, under)]
        if not fl:
            if not need:
                return True
            other = [e for e in I.trace if e.kind == 'call' and not e.q.startswith(('hx::', 'std::', 'boost::', 'begin', 'end', 'size')) and e.i > after
                     and base(str(e.q)) not in ('obake::safe_cast', 'obake::series::clear', 'obake::series::~series')]
            other = [e for e in other if not STOPW.search(base(str(e.q)))]
            return self.ob(None if other or I.unknown or any(L.kind != 'cb' for L in I.loops.values()) else False, 'no terms are removed')
        for e in fl:
            a = norm(e.args[0])
            self.ob(True if root(a) is R and e.i > after else None, 'the terms are removed from %s' % show(a, 3)[:150], e.loc)
            g = self.guard(e)
            r = logic.implies(under, g)
            self.ob(r if r or definite(g) or membership(g) else None, 'the terms are removed only if %s' % show(g, 5)[:200], e.loc)
            L = [L for L in I.loops.values() if L.kind == 'cb' and L.range is not None and base(L.range.args[0]) == 'obake::filter'
                 and any(z is y for z in getattr(L, 'args', ()) for y in e.args if y.op == 'clo')]
            if len(L) != 1 or L[0].result is None:
                self.ob(None, 'the predicate is not recognised', e.loc)
                continue
            L = L[0]
            t = norm(L.result)
            K = mk('K')
            t = subst(t, lambda z: K if z.op == 'fld' and z.args[1] == 'first' and z.args[0].op == 'cbarg' and z.args[0].args[0] == L.id else None)
            t = compare(t, self.kind_of)
            S = [y.args[0] for y in subterms(t) if y.op == 'SS']
            ok = None
            wants = []
            for k, lim in allowed:
                for s in S:
                    if root(s) is not R:
                        continue
                    X = mk('SS', s)
                    if k == 1:
                        d = mk('call', 'hx::key_degree', K, X)
                    else:
                        d = mk('call', 'hx::key_p_degree', K, mk('call', 'obake::detail::ss_intersect_idx', lim[1], X), X)
                    w = lnot(mk('call', 'hx::operator<', lim[0], d))
                    wants.append(truth(w))
            t = simple(t)
            for w in wants:
                if logic.equiv(t, simple(w)) is True:
                    ok = True
            if ok is None and wants and definite(t):
                ok = False
            self.ob(ok, 'a term is kept if %s' % show(t, 7)[:250], e.loc)
        return True

    def tag(self, t, allowed, under=TRUE, detail=''):
        """The truncation of the result is one of those allowed."""
        g = unwith(t, [N.tag])
        ok = None
        g = norm(g)
        if g.op == 'fld' and g.args[1] == N.tag:
            ok = any(norm(g.args[0]) is a or a == 'base' and g.args[0] is root(norm(t)) for a in allowed)
            if not ok and not definite(g):
                ok = None
        elif g.op == 'ctor' and len(g.args) == 1 or g.op == 'with' and g.args[0].op == 'ctor' and len(g.args[0].args) == 1 and g.args[3].op == 'ctor' and len(g.args[3].args) == 1:
            ok = 'none' in allowed
        return self.ob(ok, '%sthe truncation of the result is that of %s' % (detail, show(g, 4)[:150]))


VOCW = re.compile(r'^hx::|^obake::detail::ss_intersect_idx$|^obake::safe_cast$|^obake::detail::series_default_|^obake::polynomials::detail::|flyweight::get$|^std::variant::index$')


MEMBER = re.compile(r'^boost::container::(dtl::flat_tree|flat_set)::(contains|count)$')


def membership(g):
    """A condition on which symbols a series has, and nothing else."""
    if g.op in ('and', 'or', 'not'):
        return all(membership(x) for x in g.args)
    if g.op in ('eq', 'lt') and any(x.op == 'c' for x in g.args):
        return all(x.op == 'c' or membership(x) for x in g.args)
    return g.op == 'call' and bool(MEMBER.search(base(g.args[0]))) and g.args[1].op == 'SS'


def definite(*ts):
    for t in ts:
        for y in subterms(t):
            if y.op in ('lv', 'lx', 'unknown', 'opaque', 'havoc', 'opq', 'elem'):
                return False
            if y.op == 'call' and not VOCW.search(base(y.args[0])):
                return False
    return True


def simple(t):
    """Names of calls without template arguments."""
    return subst(t, lambda x: mk('call', base(x.args[0]), *[simple(a) if isinstance(a, T) else a for a in x.args[1:]])
                 if x.op == 'call' and base(x.args[0]) != x.args[0] else None)


def paths(t, under=TRUE):
    t = deref_(t)
    if t.op == 'ite':
        c = truth(t.args[0])
        for a, u in ((t.args[1], land(under, c)), (t.args[2], land(under, lnot(c)))):
            if logic.sat(u) is not False:
                yield from paths(a, u)
    else:
        yield t, under


PAIRS = [(a, b) for a in range(3) for b in range(3)]


def operation(cx, P, f, rule, primitive, sign=None, inplace=False, filtered=True):
    """A binary operation of power series, for each combination of the kinds of truncation."""
    x, y = (mk('p', q['n']) for q in f['params'][:2])
    for k0, k1 in PAIRS:
        with cx.item('%s %s' % (f['q'], (k0, k1))):
            r = Run(cx, P, f, {x: k0, y: k1}, rule)
            if k0 and k1 and k0 != k1:
                r.throws(TRUE)
                continue
            want = differ(x, y, k0) if k0 == k1 else FALSE
            r.throws(want)
            ok = lnot(want)
            val = r.I.final.store.get(('a', 0)) if inplace else r.I.ret
            if val is None:
                r.ob(None, 'no result')
                continue
            ev = [e for e in r.events(*primitive) if r.live(e, ok)]
            for t, u in paths(clean_(r.I.rewrite(val)), ok):
                t = deref_(t)
                R = root(norm(t))
                mine = [e for e in ev if R.op in ('call', 'upd') and base(R.args[0]) == base(str(e.q))]
                if len(mine) != 1:
                    r.ob(None if not (R in (x, y) and definite(R)) else False, 'the result is %s' % show(R, 4)[:200])
                    continue
                e = mine[0]
                a = [deref_(norm(z)) for z in e.args]
                r.ob(True if a[:2] == [x, y] else False if definite(*a[:2]) else None, 'the operands are %s' % [show(z, 3)[:60] for z in a[:2]], e.loc)
                if sign is not None:
                    s = (e.ta or '').lstrip('<').split(',')[0].strip()
                    r.ob(s == sign, 'the operation is %s' % ('an addition' if s == 'true' else 'a subtraction'), e.loc)
                k = k0 or k1
                allowed = [z for z, kk in ((x, k0), (y, k1)) if kk == k]
                r.tag(t, allowed + (['base', 'none'] if not k else []), u)
                lims = [(k, limit(z, k)) for z in allowed]
                if not k:
                    r.ob(True if len(a) == 2 else None, 'the product is truncated', e.loc)
                    fl = [z for z in r.events('obake::filter') if r.live(z, ok)]
                    r.ob(True if not fl else None, 'terms are removed', fl[0].loc if fl else None)
                    continue
                if len(a) > 2:
                    L = a[2:]
                    ok2 = any(len(L) == len(w) and all(p is q for p, q in zip(L, w)) for _k, w in lims)
                    r.ob(True if ok2 else False if definite(*L) else None, 'the product is truncated to %s' % [show(z, 4)[:60] for z in L], e.loc)
                r.truncated(R, lims, u, need=(k0 != k1 or 'series_mul' in rule or not filtered) and len(a) == 2, after=e.i)


ADDS = [('add', 'true', False), ('sub', 'false', False), ('add_m', 'true', False), ('sub_m', 'false', False),
        ('iadd', 'true', True), ('isub', 'false', True), ('iadd_m', 'true', True), ('isub_m', 'false', True)]
PRIM = ('obake::detail::series_default_addsub_impl', 'obake::detail::series_default_in_place_addsub_impl')


@rule('W01', ['power.cpp'], 'sums and differences are summarised for each of the nine combinations of the kinds of truncation of the operands; '
      'conditions for exceptions, the truncation of the result and the predicate of the terms kept are compared with the required ones', [], 150)
def w01(cx):
    P = cx.progs['power.cpp']
    wnames(P)
    for q, sign, inp in ADDS:
        for f in cx.entry(P, 'hx::' + q, 1):
            operation(cx, P, f, 'sum', PRIM, sign, inp)
    # Terms inserted as scalars.
    for q, sign, inp in (('add_c', 'true', False), ('sub_c', 'false', False), ('c_sub', 'false', False), ('iadd_c', 'true', True), ('isub_c', 'false', True)):
        for f in cx.entry(P, 'hx::' + q, 1):
            a = [mk('p', y['n']) for y in f['params']]
            x = a[1] if q == 'c_sub' else a[0]
            for k in range(3):
                with cx.item('%s %d' % (q, k)):
                    r = Run(cx, P, f, {x: k}, 'sum with a scalar', result=k)
                    r.throws(FALSE)
                    val = r.I.final.store.get(('a', 0)) if inp else r.I.ret
                    if val is None:
                        r.ob(None, 'no result')
                        continue
                    R = root(norm(clean_(r.I.rewrite(val))))
                    ev = [e for e in r.events(*PRIM) if R.op in ('call', 'upd') and base(R.args[0]) == base(str(e.q))]
                    if len(ev) != 1:
                        r.ob(None, 'the result is %s' % show(R, 4)[:150])
                        continue
                    e = ev[0]
                    b = [deref_(norm(z)) for z in e.args]
                    r.ob(True if b == a else False if definite(*b) else None, 'the operands are %s' % [show(z, 3)[:60] for z in b], e.loc)
                    s = (e.ta or '').lstrip('<').split(',')[0].strip()
                    r.ob(s == sign, 'the operation is %s' % ('an addition' if s == 'true' else 'a subtraction'), e.loc)
                    if not k:
                        fl = r.events('obake::filter')
                        r.ob(True if not fl else None, 'terms are removed', fl[0].loc if fl else None)
                        continue
                    r.truncated(R, [(k, limit(z, k)) for z in (x, R)], after=e.i)


@rule('W02', ['power.cpp'], 'the product is summarised for each of the nine combinations of the kinds of truncation of the operands; conditions for exceptions, '
      'the limits handed to the truncated product and the truncation of the result are compared with the required ones', [], 30)
def w02(cx):
    P = cx.progs['power.cpp']
    wnames(P)
    for f in cx.entry(P, 'hx::mul', 1):
        operation(cx, P, f, 'product', ('obake::polynomials::detail::poly_mul_impl_switch',), None, False, filtered=False)


@rule('W03', ['power.cpp'], 'the operations which set, unset, read and apply the truncation are summarised for each kind of truncation; the terms kept, '
      'the truncation stored and what happens on failure are compared with the required ones', [], 40)
def w03(cx):
    P = cx.progs['power.cpp']
    wnames(P)
    for q in ('trunc_d', 'trunc_p'):
        for f in cx.entry(P, 'hx::' + q, 1):
            for k in range(3):
                with cx.item(q):
                    a = [mk('p', y['n']) for y in f['params']]
                    r = Run(cx, P, f, {a[0]: k}, 'explicit truncation')
                    r.throws(FALSE)
                    r.truncated(a[0], [(len(a) - 1, a[1:])])
    for f in cx.entry(P, 'hx::trunc', 1):
        for k in range(3):
            with cx.item('trunc %d' % k):
                x = mk('p', f['params'][0]['n'])
                r = Run(cx, P, f, {x: k}, 'truncation')
                r.throws(FALSE)
                if k:
                    r.truncated(x, [(k, limit(x, k))])
                else:
                    fl = r.events('obake::filter')
                    r.ob(True if not fl else None, 'terms are removed from a series without truncation', fl[0].loc if fl else None)
    for f in cx.entry(P, 'hx::get', 1):
        with cx.item('get'):
            x = mk('p', f['params'][0]['n'])
            r = Run(cx, P, f, {x: 1}, 'truncation read')
            v = norm(deref_(r.I.ret))
            r.ob(True if v is mk('TR', x) else False if definite(v) else None, 'the truncation read is %s' % show(v, 4)[:150])
    for q in ('set_d', 'set_l', 'set_p', 'set_pl', 'unset'):
        for f in cx.entry(P, 'hx::' + q, 1):
            for k in range(3):
                with cx.item('%s %d' % (q, k)):
                    a = [mk('p', y['n']) for y in f['params']]
                    x = a[0]
                    r = Run(cx, P, f, {x: k}, 'truncation set')
                    r.throws(FALSE)
                    v = r.I.final.store.get(('a', 0))
                    if v is None:
                        r.ob(None, 'no result')
                        continue
                    tr = unwith(norm(clean_(r.I.rewrite(v))), [N.tag, W.trunc])
                    stored(r, tr, a, q)
                    if q == 'unset':
                        fl = r.events('obake::filter')
                        r.ob(True if not fl else False, 'terms are removed', fl[0].loc if fl else None)
                        continue
                    sc = r.events('obake::safe_cast')
                    D = [mk('call', e.q + (e.ta or ''), *e.args) for e in sc]
                    lims = [(len(a) - 1, [d] + a[2:]) for d in conversions(r, a[1])]
                    r.truncated(x, lims)
                    failure(r, x)


def conversions(r, d):
    """The limit converted to a degree."""
    out = {d} if 'lim' not in r.P.ty(r.f['params'][[p['n'] for p in r.f['params']].index(d.args[0])]['t']) else set()
    for e in r.I.trace:
        for t in e.args:
            if isinstance(t, T):
                out |= {y for y in subterms(norm(t)) if y.op == 'call' and base(y.args[0]) == 'obake::safe_cast' and deref_(y.args[-1]) is d}
    return sorted(out, key=str)


def stored(r, tr, a, q):
    """The truncation stored in the series is the one asked for."""
    t = tr
    for _ in range(6):
        t = deref_(t)
        if t.op in ('conv', 'cast'):
            t = t.args[-1]
        elif t.op == 'ctor' and ('flyweight' in str(t.args[0]) or 'std::variant' in str(t.args[0])) and len(t.args) == 2 and isinstance(t.args[1], T):
            t = t.args[1]
        else:
            break
    t = norm(t)
    if q == 'unset':
        none = t.op == 'ctor' and len(t.args) == 1 and ('flyweight' in str(t.args[0]) or 'std::variant' in str(t.args[0])) or 'no_truncation' in str(t.args[:1])
        return r.ob(True if none else False if definite(t) else None, 'the truncation becomes %s' % show(t, 4)[:150])
    D = conversions(r, a[1])
    if len(a) == 2:
        ok = any(t is d for d in D)
    else:
        vs = parts(t)
        ok = vs is not None and any(vs[0] is d for d in D) and vs[1] is a[2]
    return r.ob(True if ok else False if definite(t) else None, 'the truncation becomes %s' % show(t, 5)[:200])


def parts(t):
    """The members of a pair."""
    t = deref_(t)
    if t.op in ('agg', 'ctor') and 'std::pair' in str(t.args[0]):
        vs = [deref_(y) for y in t.args if isinstance(y, T)]
        return vs if len(vs) == 2 else None
    if t.op == 'call' and base(t.args[0]) == 'std::make_pair':
        vs = [deref_(y) for y in t.args if isinstance(y, T)]
        return vs if len(vs) == 2 else None
    return None


def failure(r, x):
    """If something fails once the terms are being removed, the series ends up empty."""
    I = r.I
    fl = r.events('obake::filter')
    if not fl:
        return
    for e in fl:
        r.ob(bool(e.tries) or None if I.unknown else bool(e.tries), 'a failure leaves the series partly truncated', e.loc)
    cl = [e for e in I.trace if e.kind == 'call' and base(str(e.q)) == 'obake::series::clear' and any(has_caught(g) for g in e.guards) and e.args and root(norm(e.args[0])) is x]
    r.ob(True if cl else False, 'the series is not cleared when the truncation fails')
    rt = [e for e in I.trace if e.kind == 'throw' and any(has_caught(g) for g in e.guards)]
    r.ob(True if rt else False, 'the failure is not reported')
    for e in r.events('obake::safe_cast'):
        r.ob(True if not e.tries else None, 'a limit that cannot be converted clears the series', e.loc)


@rule('W04', ['power.cpp'], 'powers and integrals are summarised for each kind of truncation of the operand; the truncation of the result and the terms kept are '
      'compared with the required ones', [], 20)
def w04(cx):
    P = cx.progs['power.cpp']
    wnames(P)
    for q, prim in (('pow_s', 'obake::polynomials::detail::pow_poly_impl'), ('int_s', 'obake::polynomials::detail::poly_integrate_impl')):
        for f in cx.entry(P, 'hx::' + q, 1):
            a = [mk('p', y['n']) for y in f['params']]
            x = a[0]
            for k in range(3):
                with cx.item('%s %d' % (q, k)):
                    r = Run(cx, P, f, {x: k}, 'power' if q == 'pow_s' else 'integral', result=k)
                    r.throws(FALSE)
                    if r.I.ret is None:
                        r.ob(None, 'no result')
                        continue
                    t = clean_(r.I.rewrite(r.I.ret))
                    R = root(norm(t))
                    ev = [e for e in r.events(prim) if R.op == 'call' and base(R.args[0]) == base(str(e.q))]
                    if len(ev) != 1:
                        r.ob(None, 'the result is %s' % show(R, 4)[:150])
                        continue
                    e = ev[0]
                    b = [deref_(norm(z)) for z in e.args]
                    r.ob(True if b == a else False if definite(*b) else None, 'the operands are %s' % [show(z, 3)[:60] for z in b], e.loc)
                    if q == 'pow_s':
                        r.tag(t, [x] if k else [x, 'base', 'none'])
                    else:
                        r.tag(t, [x, 'base'])
                    if k:
                        r.truncated(R, [(k, limit(z, k)) for z in ((x,) if q == 'pow_s' else (x, R))], after=e.i)
                    else:
                        fl = r.events('obake::filter')
                        r.ob(True if not fl else None, 'terms are removed', fl[0].loc if fl else None)


GENW = [('gens', 0), ('gensc', 0), ('gens_ss', 0), ('gens_ssc', 0), ('gens_ss2', 0), ('gens_t', 1), ('gens_tc', 1), ('gens_t_ss', 1), ('gens_t_ss2', 1),
        ('gens_p', 2), ('gens_pc', 2), ('gens_p_ss', 2), ('gens_p_ss2', 2)]


def is_degree(t, d):
    """The argument d converted to a degree."""
    t = deref_(t)
    while t.op == 'call' and base(t.args[0]) == 'obake::safe_cast' or t.op in ('conv', 'cast'):
        t = deref_(t.args[-1])
    return t is d


@rule('W05', ['power.cpp'], 'the functions which create generators are summarised; the terms, the symbol set and the truncation of the result are compared with the '
      'required ones, and so are the terms kept and the conditions of the exceptions', [], 60)
def w05(cx):
    P = cx.progs['power.cpp']
    wnames(P)
    kinds = dict(GENW)

    def opts(q):
        return dict(alts=lambda v: kinds[q] if owner(v) is not None else None)

    def value(J, f, I, q, e):
        """The generator before it was given its truncation."""
        k = kinds[q]
        R = root(e)
        ps = [mk('p', y['n']) for y in f['params']]
        by = {y['n']: mk('p', y['n']) for y in f['params']}
        tg = unwith(clean_(e), [N.tag])
        r = Run.__new__(Run)
        r.cx, r.P, r.f, r.kinds, r.rule, r.result, r.I, r.ps, r.what, r.loc = J.cx, P, f, {}, 'generators', k, I, ps, J.what, J.loc
        if not k:
            J.ob(True if not r.events('obake::filter') and R is deref_(e) else None, 'the truncation of a generator is %s' % show(tg, 3)[:120])
            return e
        t = plain(unwith(norm(clean_(e)), [N.tag, W.trunc]))
        v = [t] if k == 1 else parts(t)
        ok = v is not None and is_degree(v[0], by['d']) and (k == 1 or deref_(v[1]) is by['ts'])
        known = definite(t) and not (t.op == 'fld' and t.args[0].op not in ('p', 'ctor'))
        J.ob(True if ok else False if known or tg.op == 'fld' and tg.args[0] is R else None, 'the truncation of a generator is %s' % show(t, 4)[:150])
        lims = []
        for z in subterms(mk('t', *[y for L in I.loops.values() if L.result is not None for y in subterms(norm(L.result)) if y.op == 'call'])):
            if z.op == 'call' and is_degree(z, by['d']):
                lims.append([z] if k == 1 else [z, by['ts']])
        own = [x for x in r.events('obake::filter') if root(norm(x.args[0])) is norm(R)]
        if not own:
            J.ob(None if r.events('obake::filter') else False, 'the truncation is not applied to the generator')
        else:
            all_ = I.trace
            I.trace = [x for x in all_ if x.kind != 'call' or base(str(x.q)) != 'obake::filter' or x in own]
            try:
                new = [x for x in all_ if x.kind == 'call' and base(str(x.q)) == 'obake::series::add_term' and R.op == 'upd' and tuple(x.args) == R.args[2:]]
                r.truncated(norm(R), [(k, z) for z in lims], r.guard(new[0]) if new else TRUE)
            finally:
                I.trace = all_
        return R

    table = [(q, 2 if q.endswith('2') else 1, '_ss' in q) for q, k in GENW]
    generators(cx, P, table, 1, ('d', 'ts'), value, opts)


def plain(t):
    for _ in range(6):
        t = deref_(t)
        if t.op in ('conv', 'cast'):
            t = t.args[-1]
        elif t.op == 'ctor' and ('flyweight' in str(t.args[0]) or 'std::variant' in str(t.args[0])) and len(t.args) == 2 and isinstance(t.args[1], T):
            t = t.args[1]
        else:
            break
    return norm(t)


@rule('W06', ['power.cpp'], 'comparison, hashing, exchange and output of truncations are summarised, for each kind; the functions by which shared truncations are '
      'compared and hashed are those of the type under which they are shared', [], 12)
def w06(cx):
    P = cx.progs['power.cpp']
    wnames(P)
    fy = [P.types[x['t']] for r in P.recs if r['q'] == 'obake::power_series::tag' for x in r['fields'] if 'flyweight<' in P.types[x['t']]]
    F = lambda z: mk('fld', mk('p', z), W.trunc)

    def value(t):
        """Truncations of tags in normal form."""
        def f(y):
            if y.op == 'call' and base(y.args[0]).endswith('flyweight::get'):
                a = deref_(y.args[1])
                return mk('V', a.args[0]) if a.op == 'fld' and a.args[1] == W.trunc else None
            return None
        return clean_(subst(norm(t), f))

    for q in ('tag_eq', 'tag_ne'):
        for f in cx.entry(P, 'hx::' + q, 1):
            with cx.item(q):
                I = cx.analyse(P, f, exact=True)
                a = value(I.ret)
                e = [eq(F('x'), F('y')), eq(mk('V', mk('p', 'x')), mk('V', mk('p', 'y')))]
                want = [lnot(z) if q == 'tag_ne' else z for z in e]
                ok = any(logic.equiv(truth(a), w) is True for w in want)
                cx.ob(True if ok else False if definite(a) else None, 'equality', q, floc(P, f), 'the comparison yields %s' % show(a, 5)[:150])
    for f in [g for g in P.find('obake::power_series::swap') if g.get('body') is not None]:
        with cx.item('swap'):
            I = cx.analyse(P, f, exact=True)
            ps = [y['n'] for y in f['params']]
            for i in (0, 1):
                v = deref_(unwith(clean_(I.rewrite(I.final.store.get(('a', i), mk('p', ps[i])))), [W.trunc]))
                ok = v is F(ps[1 - i])
                cx.ob(True if ok else False if definite(v) else None, 'exchange', 'operand %d' % i, floc(P, f), 'the truncation becomes %s' % show(v, 4)[:150])
    kindv = lambda k: lambda v: k if any(y.op == 'fld' and y.args[1] == W.trunc or y.op == 'p' for y in subterms(v)) else None
    # The functors under which equal truncations share their storage.
    for ft in fy:
        m = re.search(r'hashed_factory<([\w:]+)<.*?>, ([\w:]+)<', ft)
        if not m:
            cx.ob(None, 'sharing', ft[:80], '', 'how truncations are shared')
            continue
        hs = [g for g in P.find(m.group(1) + '::operator()') if g.get('body') is not None]
        for k in range(3):
            for f in hs + (cx.entry(P, 'hx::tag_hash', 1)):
                with cx.item('hash %d' % k):
                    I = cx.analyse(P, f, exact=True, alts=kindv(k))
                    v = value(I.ret)
                    bad = None
                    for y in subterms(v):
                        if y.op in ('addr', 'opaque', 'unknown', 'lv', 'lx', 'glob'):
                            bad = y
                    src = {y for y in subterms(v) if y.op == 'idx' or y.op == 'p' or y.op == 'V'}
                    cx.ob(True if bad is None else False if bad.op in ('addr', 'glob') else None, 'hash', '%s, %s' % (f['q'], KINDS[k]), floc(P, f), 'the hash depends on %s' % (show(bad, 3)[:100] if bad is not None else ''))
        for f in [g for g in P.find(m.group(2) + '::operator()') if g.get('body') is not None]:
            with cx.item('comparer'):
                I = cx.analyse(P, f, exact=True)
                a = [mk('p', y['n']) for y in f['params']]
                v = value(I.ret)
                ok = logic.equiv(truth(v), eq(*a)) is True
                cx.ob(True if ok else False if definite(v) else None, 'sharing', f['q'], floc(P, f), 'truncations are shared if %s' % show(v, 4)[:150])
    for f in cx.entry(P, 'hx::tag_stream', 1):
        for k in (1, 2):
            with cx.item('output %d' % k):
                I = cx.analyse(P, f, exact=True, alts=kindv(k), stops=lambda q, n: base(q).endswith('detail::to_string'))
                n0 = [y['n'] for y in f['params']]
                out = value(I.rewrite(I.final.store.get(('a', 0), mk('p', n0[0]))))
                written = {deref_(y) for z in subterms(out) if z.op in ('upd', 'call') for y in z.args[2:] if isinstance(y, T)}
                written |= {deref_(y) for e in I.trace if e.kind == 'call' and ('operator<<' in str(e.q) or 'to_string' in str(e.q) or 'format' in str(e.q)) for y in map(value, e.args) if not any(g is FALSE for g in e.guards)}
                V = mk('idx', mk('V', mk('p', n0[1])), C(k))
                for part in ([V] if k == 1 else [mk('fld', V, 'first'), mk('fld', V, 'second')]):
                    cx.ob(True if part in written else None if I.unknown else False, 'output', KINDS[k], floc(P, f), '%s is not written' % show(part, 3))


# ---- derivatives, integrals, substitutions ---------------------------------------

KEEP = re.compile(r'^obake::series::(add_term|set_symbol_set|set_symbol_set_fw|set_n_segments|reserve|clear_terms)$|^obake::detail::series_sym_extender$|^obake::filter(ed)?$|^obake::truncate')


class Carried:
    """The truncations a series may carry: 'x' that of the operand, 'none', None unknown."""

    def __init__(self, I, x):
        self.I, self.x, self.env, self.busy = I, x, {}, set()

    def scalar(self, t):
        t = norm(t)
        while t.op in ('conv', 'cast'):
            t = t.args[-1]
        if t.op == 'c':
            return True
        if t.op == 'call' and str(t.args[0]).startswith('hx::'):
            return True
        if t.op == 'fld' and t.args[1] in ('first', 'second'):
            return True
        return False

    def of(self, t):
        t = deref_(t)
        if t is self.x:
            return {'x'}
        if t.op == 'with':
            if t.args[1] == 'f' and t.args[2] == N.tag:
                v = norm(t.args[3])
                while v.op == 'ctor' and len(v.args) == 2 and isinstance(v.args[1], T):
                    v = norm(v.args[1])
                if v.op == 'fld' and v.args[1] == N.tag:
                    return self.of(v.args[0])
                if v.op == 'ctor' and len(v.args) == 1:
                    return {'none'}
                return {None}
            return self.of(t.args[0])
        if t.op == 'ite':
            return self.of(t.args[1]) | self.of(t.args[2])
        if t.op == 'ctor' and 'obake::series' in str(t.args[0]):
            a = [y for y in t.args[1:] if isinstance(y, T)]
            if not a or len(a) == 1 and self.scalar(a[0]):
                return {'none'}
            return self.of(a[0]) if len(a) == 1 else {None}
        if t.op in ('conv', 'cast') and isinstance(t.args[-1], T):
            return {'none'} if self.scalar(t.args[-1]) else self.of(t.args[-1])
        if t.op in ('upd', 'call'):
            q = base(t.args[0])
            a = t.args[2:] if t.op == 'upd' else t.args[1:]
            if t.op == 'upd' and t.args[1] == 0 and KEEP.search(q):
                return self.of(a[0])
            m = re.match(r'obake::operator([-+*/])=?$', q)
            if m and len(a) == 2 and (t.op == 'call' or t.args[1] == 0):
                s = [self.scalar(y) for y in a]
                if all(s):
                    return {None}
                r = [self.of(y) for y, z in zip(a, s) if not z]
                if len(r) == 1:
                    return r[0]
                return {'x' if {u, v} <= {'x', 'none'} and 'x' in (u, v) else 'none' if u == v == 'none' else None for u in r[0] for v in r[1]}
            return {None}
        if t.op in ('lv', 'lx') and len(t.args) == 2:
            return self.loop(t)
        return {None}

    def loop(self, t):
        k = (t.args[0], t.args[1])
        if k in self.env:
            return self.env[k]
        L = self.I.loops.get(t.args[0])
        if L is None or t.args[1] not in L.init or t.args[1] not in L.step:
            return {None}
        i = self.of(L.init[t.args[1]])
        self.env[k] = i
        s = once = self.of(L.step[t.args[1]])
        if s - i:
            self.env[k] = i | s
            s = s | self.of(L.step[t.args[1]])
        del self.env[k]
        # A sum which starts from zero: without terms there is nothing to be truncated.
        return s - i if i == {'none'} and t.op == 'lx' and once == {'x'} else i | s


@rule('W07', ['power.cpp'], 'the results of differentiation, integration and substitution are summarised, and the truncation of each series they are made from is followed through '
      'copies, insertions, scalings and sums: on every path it is that of the operand', min_obligations=5)
def w07(cx):
    from .r_poly import stopsp
    P = cx.progs['power.cpp']
    wnames(P)
    for q, n in (('diff_s', 2), ('int_s', 2), ('subs_s', 1)):
        for f in cx.entry(P, 'hx::' + q, n):
            with cx.item(q):
                I = cx.analyse(P, f, stops=stopsp, exact=True)
                x = mk('p', f['params'][0]['n'])
                r = Carried(I, x).of(clean_(I.rewrite(I.ret)))
                cx.ob(None if None in r else r == {'x'}, 'truncation of the result', '%s %s' % (q, f.get('ta', '')[:80]), floc(P, f),
                      'the result may be made from a series without the truncation of the operand')


# ---- the text of a power series ------------------------------------------------------

class TexText:
    """What has been written to a stream: literal text, ('value', v), ('terms', s), ('each', loop, place)."""

    def __init__(self, I):
        self.I, self.bad = I, None

    def read(self, t):
        from ..text import text, isop, Unknown
        t = deref_(t)
        if t.op == 'p':
            return []
        if t.op == 'upd' and t.args[1] == 0:
            q = str(t.args[0])
            b, a = t.args[2], t.args[3:]
            if base(q).endswith('detail::series_stream_terms_impl') and len(a) == 1:
                return self.read(b) + [('terms', norm(a[0]))]
            if base(q) in ('hx::tex_stream_insert', 'hx::operator<<', 'obake::tex_stream_insert') and len(a) == 1:
                return self.read(b) + [('tex' if 'tex' in q else 'value', norm(a[0]))]
            if isop(q, '<<') and len(a) == 1:
                r = self.read(b)
                v = a[0]
                if v.op == 'call' and re.match(r'std::basic_o?stringstream(<.*>)?::str$', str(v.args[0])):
                    return r + self.closed(self.read(v.args[1]))
                return r + [y if isinstance(y, str) else ('value', norm(y)) for y in text(v)]
            if re.match(r'std::(ios_base|basic_ios(<.*>)?|basic_ostream(<.*>)?)::(flags|exceptions|precision|flush|setf|unsetf|imbue)$', q):
                return self.read(b)
            if re.search(r'::seekp$', q) and len(a) == 2 and a[0] is C(0) and a[1] is mk('glob', 'std::ios_base::end'):
                return [y[1] if isinstance(y, tuple) and y[0] == 'initial' else y for y in self.read(b)]
            raise LookupError('the stream is changed by %s' % q)
        if t.op == 'ctor' and 'stringstream' in str(t.args[0]):
            a = [y for y in t.args[1:] if isinstance(y, T)]
            r = []
            at = False
            for y in a:
                if y.op == 'glob':
                    continue
                if y.op == 'c' or y.op in ('or', 'bor', 'call'):
                    if 'ate' in show(y, 4) or 'app' in show(y, 4):
                        at = True
                        continue
                    raise LookupError('stream opened with %s' % show(y, 3))
                r += [z for z in text(y)]
            at = at or any(y.op == 'glob' and str(y.args[0]).endswith(('::ate', '::app')) for y in a)
            return r if at or not r else [('initial', r[0])] + r[1:]
        if t.op in ('lx', 'lv'):
            L = self.I.loops.get(t.args[0])
            if t.op == 'lx' and L is not None and t.args[1] in L.init:
                return self.read(L.init[t.args[1]]) + [('each', L, t.args[1])]
            return [('before', t)]
        raise LookupError('stream %s' % show(t, 3)[:120])

    def closed(self, r):
        for i, y in enumerate(r):
            if isinstance(y, tuple) and y[0] == 'initial':
                if len(r) > i + 1:
                    self.bad = 'the text %r is overwritten by what is written next' % y[1]
                r[i] = y[1]
        return r


def merged(r):
    out = []
    for y in r:
        if isinstance(y, str) and out and isinstance(out[-1], str):
            out[-1] += y
        elif y != '':
            out.append(y)
    return out


@rule('W08', ['power.cpp'], 'what is written is derived, for each kind of truncation, from the summary of the TeX output as a sequence of literal text and values; the loop over the '
      'symbols is compared with one which writes each of them once, with separators between them', min_obligations=12)
def w08(cx):
    from ..text import Unknown
    P = cx.progs['power.cpp']
    wnames(P)
    kindv = lambda k: lambda v: k if any(y.op == 'fld' and y.args[1] == W.trunc or y.op == 'p' for y in subterms(v)) else None
    stop = lambda q, n: base(q).endswith(('detail::to_string', 'detail::series_stream_terms_impl')) or str(q).startswith('hx::') and 'hx::tex' != base(q)
    for f in cx.entry(P, 'hx::tex', 1):
        os_, x = [mk('p', y['n']) for y in f['params']]
        for k in range(3):
            ob = lambda ok, d='', loc=None: cx.ob(ok, 'text', 'TeX, ' + KINDS[k], loc or here, d)
            with cx.item('tex %d' % k):
                I = cx.analyse(P, f, exact=True, alts=kindv(k), stops=stop)
                here = floc(P, f)
                for e in I.trace:
                    if e.loc and build.in_repo(e.loc) and 'power_series' in e.loc:
                        here = e.loc
                ev = [e for e in I.trace if e.kind == 'call' and base(str(e.q)).endswith('series_stream_terms_impl')]
                for e in ev:
                    ob(True if re.match(r'<(true|1)\b', e.ta or '') else False if re.match(r'<(false|0)\b', e.ta or '') else None, 'the terms are written with the options %s' % e.ta, e.loc)
                R = TexText(I)
                try:
                    r = merged(R.read(clean_(I.rewrite(I.final.store.get(('a', 0), os_)))))
                except (LookupError, Unknown) as e:
                    ob(None, str(e))
                    continue
                if R.bad:
                    ob(False, R.bad)
                V = mk('idx', mk('TR', x), C(k))
                val = lambda t: deref_(clean_(norm(t)))
                shown_ = ', '.join(repr(y) if isinstance(y, str) else y[0] + (' ' + show(y[1], 3) if isinstance(y[1], T) else '') for y in r)[:300]
                kinds = [y if isinstance(y, str) else y[0] for y in r]
                ob(True if r and kinds[0] == 'terms' and r[0][1] is x and kinds.count('terms') == 1 else False if all(isinstance(y, str) for y in r) else None, 'written: ' + shown_)
                rest = r[1:]
                if k == 0:
                    ob(True if not rest else False, 'without a truncation, something follows the terms: ' + shown_)
                    continue
                vals = [val(y[1]) for y in rest if not isinstance(y, str) and y[0] in ('tex', 'value')]
                want = [V] if k == 1 else [mk('fld', V, 'first')]
                ob(True if vals == want else False if all(definite(v) for v in vals) and (len(vals) != 1 or vals[0] is not want[0]) else None,
                   'written after the terms: %s' % '; '.join(show(v, 4) for v in vals)[:200])
                ob(True if all(y[0] == 'tex' for y in rest if not isinstance(y, str) and y[0] in ('tex', 'value')) else False, 'a value is not written in TeX: ' + shown_)
                lits = ''.join(y for y in rest if isinstance(y, str))
                ob(lits.count('\\left') == lits.count('\\right') and lits.count('{') == lits.count('}'), 'the brackets are not balanced: ' + shown_)
                ob(bool(isinstance(rest[0], str) and rest[0].lstrip().startswith(('+', '-'))) if rest else False, 'the order of the truncation is not separated from the terms: ' + shown_)
                if k == 1:
                    continue
                es = [(i, y) for i, y in enumerate(rest) if not isinstance(y, str) and y[0] == 'each']
                if len(es) != 1:
                    ob(False if not es and all(isinstance(y, str) or y[0] in ('tex', 'value') for y in rest) else None, 'the symbols are not written: ' + shown_)
                    continue
                i, (_, L, place) = es[0]
                ob(isinstance(rest[i - 1], str) and rest[i - 1].strip() != '' if i else False, 'nothing between the limit and the symbols: ' + shown_)
                S = mk('fld', V, 'second')
                if L.kind == 'rfor':
                    ob(None, 'the separators between the symbols')
                    continue
                its = [p for p in L.step if p != place and p in L.init and val(L.init[p]) is mk('begin', S)]
                if len(its) != 1 or len(L.step) != 2:
                    ob(None, 'the loop over the symbols starts from %s' % '; '.join(show(v, 4) for p, v in L.init.items() if p != place)[:200])
                    continue
                it = mk('lv', L.id, its[0])
                one = add(it, C(1))
                last = eq(one, mk('end', S))
                ob(val(L.step[its[0]]) is one or None, 'the step of the loop is %s' % show(L.step[its[0]], 4))
                c = subst(truth(val(L.cond)), lambda y: None) if L.cond is not None else None
                r_ = logic.equiv(c, lnot(eq(it, mk('end', S)))) if c is not None else None
                ob(True if r_ else None, 'the loop over the symbols goes on while %s' % show(c, 5))
                st = val(L.step[place])
                sym = [('value', norm(mk('deref', it))), ('value', it)]
                for is_last, w in ((True, 'last'), (False, 'other')):
                    v = clean_(assume_in(st, {last: is_last}))
                    try:
                        z = merged(R.read(v))
                    except (LookupError, Unknown) as e:
                        ob(None, str(e))
                        continue
                    sh = ', '.join(repr(y) if isinstance(y, str) else show(y[1], 3) for y in z)[:200]
                    good = len(z) == (2 if is_last else 3) and z[0] == ('before', mk('lv', L.id, place)) and z[1] in sym and (
                        is_last or isinstance(z[2], str) and z[2].strip() != '')
                    ob(True if good else False if all(isinstance(y, str) or y[0] == 'before' or y in sym for y in z) else None,
                       'for the %s symbol, written: %s' % (w, sh))
