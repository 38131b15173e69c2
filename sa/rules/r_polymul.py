"""Polynomials: products, truncated products."""
from .r_poly import *
from .r_series7 import terms_of
from ..interp import Interp

STOPM = re.compile(OPS.replace('operator[-+*/]=?', 'operator[-+/]=?') +
                   r'|obake::customisation::internal::(pow$|series_default_pow_impl)|poly_mul_impl_mt_hm$')
EXT = re.compile(r'obake::detail::container_it_diff_check$')


def stopsm(q, n):
    return bool(STOPM.search(q))


def cl(t):
    def f(x):
        if x.op == 'upd' and x.args[1] == 0 and EXT.search(base(str(x.args[0]))):
            return cl(x.args[2])
        if x.op == 'deref' and x.args[0].op == 'ref' and isinstance(x.args[0].args[0], T):
            return cl(x.args[0].args[0])
        return None
    return subst(clean_(t), f)


class Seq:
    """The terms of a series, in the order of a permutation, mapped by an expression of TERM."""

    def __init__(self, src, perm, expr):
        self.src, self.perm, self.expr = src, perm, expr


REF = mk('ref', TERM)


class Seqs:
    def __init__(self, P, I, R, operands):
        self.P, self.I, self.R = P, I, R
        self.operands = operands
        self.memo = {}
        self.fun = {}
        self.locals = None

    def functor(self, F, a):
        """The value of a function object of the repository for an argument."""
        F = deref_(strip_ctor(F))
        if F.op != 'agg':
            raise LookupError('function object %s' % show(F, 3)[:100])
        cls = str(F.args[0])
        ptr = a.op == 'ref'
        for g in self.P.find(base(cls) + '::operator()'):
            if g.get('body') is None or len(g['params']) != 1:
                continue
            if g['id'] not in self.fun:
                J = Interp(self.P, stopsm)
                J.exact = True
                self.fun[g['id']] = cl(J.run(g))
            v = self.fun[g['id']]
            pv = mk('p', g['params'][0]['n'])
            if (mk('deref', pv) in set(subterms(v))) != ptr:
                continue
            names_ = F.args[1] if len(F.args) > 1 and isinstance(F.args[1], tuple) else ()
            vals = dict(zip(names_, F.args[2:]))

            def f(x):
                if x is pv:
                    return a
                if x.op == 'fld' and x.args[0] is mk('p', 'this'):
                    y = vals.get(x.args[1])
                    if y is None:
                        raise LookupError('member %s' % x.args[1])
                    return y
                return None
            r = subst(subst(v, f), self.local)
            return cl(subst(r, lambda z: mk('ref', a) if z.op == 'addr' and z.args[0] == ('a', 0) and not z.args[1] else None))
        raise LookupError('function object %s' % cls[:100])

    def local(self, z):
        """Constants captured by address."""
        if z.op == 'deref' and z.args[0].op == 'addr' and z.args[0].args[1] == ():
            if self.locals is None:
                self.locals = {}
                for e in self.I.trace:
                    if e.kind == 'decl' and e.places and str(e.extra).startswith('const ') and e.args and isinstance(e.args[0], T):
                        self.locals[e.places[0].root] = e.args[0]
            v = self.locals.get(z.args[0].args[0])
            return cl(v) if v is not None else None
        return None

    def seq(self, v):
        v = cl(v)
        if v not in self.memo:
            try:
                self.memo[v] = self.seq0(v)
            except LookupError as e:
                self.memo[v] = e
        r = self.memo[v]
        if isinstance(r, LookupError):
            raise r
        return r

    def seq0(self, v):
        v = deref_(v)
        while v.op in ('conv', 'cast', 'moved', 'copy') and isinstance(v.args[-1], T):
            v = deref_(v.args[-1])
        if v.op == 'ctor' and 'vector' in str(v.args[0]):
            a = [x for x in v.args[1:] if isinstance(x, T)]
            if a and a[-1].op == 'ctor' and 'allocator' in str(a[-1].args[0]):
                a = a[:-1]
            if len(a) == 1:
                return self.seq(a[0])
            if len(a) == 2:
                return self.range(*a)
        if v.op == 'lx':
            L = self.I.loops[v.args[0]]
            st, i0 = L.step.get(v.args[1]), L.init.get(v.args[1])
            lv = mk('lv', L.id, v.args[1])
            if st is not None and i0 is not None:
                i0, st = cl(i0), cl(st)
                while i0.op == 'upd' and base(i0.args[0]).endswith('vector::reserve') and i0.args[1] == 0:
                    i0 = i0.args[2]
                empty = i0.op == 'ctor' and 'vector' in str(i0.args[0]) and len(i0.args) == 1
                if empty and st.op == 'upd' and st.args[1] == 0 and re.search(r'vector::(push|emplace)_back$', base(st.args[0])) and st.args[2] is lv and len(st.args) == 4:
                    x = st.args[3]
                    x = subst(x, lambda z: mk('ref', mk('elem', z.args[0][1], self.I.loops[z.args[0][1]].range)) if z.op == 'addr' and z.args[0][0] == 'e' and z.args[1] == () else None)
                    els = [y for y in subterms(x) if y.op in ('elem', 'deref')]
                    if L.kind == 'rfor' and mk('elem', L.id, L.range) in els and not L.exits:
                        return Seq(cl(L.range), None, cl(subst(x, lambda z: TERM if z.op == 'elem' and z.args[0] == L.id else None)))
                    for y in els:
                        for src in self.operands():
                            try:
                                A, n = terms_of(self.I, y, src)
                            except LookupError:
                                continue
                            if n or A.exits:
                                raise Partial(A.loc, 'some terms are skipped')
                            if A is L:
                                return Seq(src, None, subst(x, lambda z: TERM if z is y else None))
        raise LookupError('sequence %s' % show(v, 4)[:120])

    def range(self, a, b):
        a, b = cl(deref_(a)), cl(deref_(b))
        for w in ('make_transform_iterator', 'make_permutation_iterator'):
            if a.op == 'call' and b.op == 'call' and base(a.args[0]).endswith('::' + w) and base(b.args[0]).endswith('::' + w):
                s = self.range(a.args[1], b.args[1])
                if w.startswith('make_t'):
                    F = a.args[2]
                    if F is not b.args[2]:
                        raise LookupError('different functions')
                    e = self.functor(F, s.expr)
                    return Seq(s.src, s.perm, cl(e))
                if s.perm is not None:
                    raise LookupError('permuted twice')
                i, j = a.args[2], b.args[2]
                if i.op == 'begin' and j.op == 'end' and i.args[0] is j.args[0]:
                    return Seq(s.src, i.args[0], s.expr)
                raise LookupError('permutation from %s to %s' % (show(i, 2)[:60], show(j, 2)[:60]))
        if a.op == 'begin' and b.op == 'end' and a.args[0] is b.args[0]:
            return self.seq(a.args[0])
        if series_query(a) in ('begin', 'cbegin') and series_query(b) in ('end', 'cend'):
            if a.args[1] is not b.args[1]:
                raise LookupError('iterators of different series')
            return Seq(a.args[1], None, TERM)
        if a.op == 'lin' and a.args[0] > 0 and series_query(sub(a, C(a.args[0]))) in ('begin', 'cbegin'):
            raise Partial('', 'the first terms are skipped')
        raise LookupError('range %s' % show(a, 4)[:120])


def count_loop(I, L, k):
    """(from, bound expression of the guard i < bound) of a loop with unit step, or LookupError."""
    lv = mk('lv', L.id, k)
    st = L.step.get(k)
    if st is None or strip_cast(cl(st)) is not add(lv, C(1)):
        if st is not None and cl(st).op == 'lin' and sub(cl(st), lv).op == 'c':
            raise Partial(L.loc, 'the index advances by %s' % show(sub(cl(st), lv), 2))
        raise LookupError('the index advances to %s' % (show(st, 4)[:100] if st is not None else 'unknown'))
    c = truth(cl(L.cond))
    if c.op == 'lt' and c.args[0] is lv:
        return cl(L.init[k]), c.args[1]
    if c.op == 'not' and c.args[0].op == 'eq' and lv in c.args[0].args:
        return cl(L.init[k]), [x for x in c.args[0].args if x is not lv][0]
    if c.op == 'not' and c.args[0].op == 'lt' and c.args[0].args[1] is lv:
        raise Partial(L.loc, 'the iteration continues while %s' % show(c, 4)[:120])
    raise LookupError('iteration condition %s' % show(c, 4)[:120])


class Merge:
    """Symbol sets merged: which operand is which."""

    def __init__(self, R, x, y):
        self.R, self.x, self.y = R, x, y

    def part(self, t):
        """(merge call, index) of a component of the merged result."""
        t = deref_(t)
        while t.op in ('conv', 'cast', 'moved') or t.op == 'ctor' and len(t.args) == 2 and isinstance(t.args[1], T):
            t = deref_(t.args[-1])
        if t.op == 'call' and re.search(r'^(std::)?get$', base(t.args[0])):
            n = re.search(r'get<(\d)', t.args[0])
            m = deref_(t.args[1])
            if n and called(m, 'obake::detail::merge_symbol_sets'):
                return m, int(n.group(1))
        if t.op in ('fld', 'idx', 'tget', 'get') and called(deref_(t.args[0]), 'obake::detail::merge_symbol_sets'):
            n = t.args[1]
            n = n.args[0] if isinstance(n, T) and n.op == 'c' else n
            return deref_(t.args[0]), int(re.sub(r'\D', '', str(n)) or -1)
        raise LookupError('component %s' % show(t, 4)[:100])


KW = dict(mul='product', tmul='truncated product', tpmul='partially truncated product')


class Product:
    def __init__(self, cx, P, f, kind):
        self.cx, self.P, self.f, self.kind = cx, P, f, kind
        self.I = I = cx.analyse(P, f, stops=stopsm, exact=True)
        self.J = Judge(cx, f, KW[kind], P)
        self.ob = self.J.ob
        ps = [mk('p', y['n']) for y in f['params']]
        self.x, self.y = ps[:2]
        self.lim = ps[2] if len(ps) > 2 else None
        self.s = ps[3] if len(ps) > 3 else None
        self.R = Reader(I, ps[:2])
        self.S = Seqs(P, I, self.R, self.operands)
        self.m = self.a = self.b = None
        self.srcs = []
        self.X, self.Y = mk('SS', self.x), mk('SS', self.y)
        self.throwlits = set()
        self.atoms = {}
        for e in I.trace:
            if e.kind == 'throw' and e.guards and not e.loops:
                self.throwlits.add(truth(lnot(truth(cl(I.rewrite(e.guards[-1]))))))

    def operands(self):
        return [self.x, self.y] + self.srcs

    def norm(self, t):
        t = cl(t)
        for _ in range(5):
            u = self.merged(self.R.norm(t))
            if u is t:
                break
            t = u
        return t

    # ---- terms of the operands
    def element(self, E):
        """(sequence, loop, index) of a term."""
        I = self.I
        E = deref_(E)
        if E.op == 'deref' and E.args[0].op == 'idx':
            v, i = E.args[0].args[:2]
            s = self.S.seq(v)
            if s.expr is not REF:
                raise LookupError('elements of %s' % show(s.expr, 3)[:60])
            return s, v, i
        if E.op == 'deref' and E.args[0].op == 'elem':
            v = E.args[0].args[1]
            s = self.S.seq(v)
            if s.expr is not REF:
                raise LookupError('elements of %s' % show(s.expr, 3)[:60])
            return s, v, E.args[0]
        if E.op == 'idx':
            s = self.S.seq(E.args[0])
            return s, E.args[0], E.args[1]
        if E.op in ('elem', 'deref'):
            for src in self.operands():
                try:
                    L, n = terms_of(I, E, src)
                except LookupError:
                    continue
                if n:
                    raise Partial(L.loc, 'the first terms are skipped')
                return Seq(src, None, TERM), None, L
            if E.op == 'elem':
                s = self.S.seq(E.args[1])
                return s, E.args[1], E
        raise LookupError('term %s' % show(E, 4)[:120])

    def degree(self, t):
        """Is t the degree of TERM?  True, False or None."""
        want = mk('call', 'hx::key_degree', TK, self.sset) if self.kind == 'tmul' else None
        t = self.norm(t)
        if want is not None:
            return True if t is want else False if definite_(t) else None
        if called(t, 'hx::key_p_degree') and t.args[1] is TK and self.same_ss(t.args[3]):
            si = t.args[2]
            if called(si, 'obake::detail::ss_intersect_idx') and len(si.args) == 3:
                return True if si.args[1] is self.s and self.same_ss(si.args[2]) else False if definite_(si) else None
            return None
        return False if definite_(t) else None

    def same_ss(self, t):
        t = self.norm(t)
        return t is self.sset or {t, self.sset} == {self.X, self.Y} and self.raw

    def sorted_by_degree(self, s, loc):
        """The order of the sequence is that of ascending degrees: True, False or None, with an explanation."""
        if s.perm is None:
            return False, 'the terms are not sorted'
        I = self.I
        srt = [e for e in I.trace if e.kind == 'call' and base(str(e.q)) in ('std::sort', 'std::stable_sort') and cl(e.args[0]) is mk('begin', s.perm)]
        iot = [e for e in I.trace if e.kind == 'call' and base(str(e.q)) == 'std::iota' and cl(e.args[0]) is mk('begin', s.perm)]
        if not srt:
            return None, 'the order of the terms'
        if not iot or cl(iot[0].args[1]) is not mk('end', s.perm) or cl(srt[0].args[1]) is not mk('end', s.perm):
            return None, 'the indices sorted'
        if cl(iot[0].args[2]) is not C(0):
            return False, 'the indices sorted start from %s' % show(cl(iot[0].args[2]), 2)
        res = None
        for L in I.loops.values():
            if L.kind == 'cb' and L.range is not None and len(L.range.args) > 1 and 'sort' in str(L.range.args[0]) and isinstance(L.range.args[1], T) \
                    and cl(L.range.args[1]) is mk('begin', s.perm) and L.result is not None:
                r = cl(L.result)
                args = [mk('cbarg', L.id, i) for i in (0, 1)]
                r = subst(r, lambda z: args[z.args[1]] if z.op == 'cbarg' and z.args[0] == L.id and z.args[1] in (0, 1) and len(z.args) > 2 else None)
                if r.op == 'call' and base(r.args[0]).endswith('operator<') and all(z.op == 'idx' for z in r.args[1:3]) and r.args[1].args[0] is r.args[2].args[0]:
                    d = self.S.seq(r.args[1].args[0])
                    if d.src is not s.src:
                        return False, 'the terms are sorted by the degrees of another series'
                    k = self.degree(d.expr)
                    if d.perm is not None or not k:
                        return (None if d.perm is not None or k is None else False), 'the terms are sorted by %s' % show(d.expr, 4)[:100]
                    ok = [z.args[1] for z in r.args[1:3]] == args
                    rev = [z.args[1] for z in r.args[1:3]] == args[::-1]
                    return (True if ok else False if rev else None), 'the terms are sorted by %s' % show(r, 3)[:100]
                return None, 'the terms are sorted by %s' % show(r, 4)[:150]
        return None, 'the order of the terms'

    def deg_at(self, t, s, i):
        """Is t the degree of the term at index i of the sequence?"""
        t = cl(t)
        if t.op == 'idx' and t.args[1] is i:
            try:
                d = self.S.seq(t.args[0])
            except LookupError:
                return None
            if d.src is s.src and d.perm is s.perm:
                return self.degree(d.expr)
            return False
        return None

    def fits(self, r, terms):
        """r says that the sum of the degrees is above the limit: True, False (definitely something else) or None."""
        if r.op == 'call' and base(r.args[0]).endswith('operator<') and len(r.args) == 3:
            a, b = r.args[1:]
            add_ = lambda z: z.op == 'call' and base(z.args[0]).endswith('operator+') and len(z.args) == 3
            if a is self.lim and add_(b):
                got = []
                for z in b.args[1:]:
                    got.append([k for k, fn in enumerate(terms) if fn(z)])
                if any(not g for g in got):
                    return None
                return len(got) == 2 and set(got[0]) | set(got[1]) == {0, 1} and got[0] != got[1]
            if b is self.lim and add_(a):
                return False
        return None

    def case(self, src):
        src = deref_(src)
        if src in (self.x, self.y):
            return 'raw', src, None, mk('SS', src)
        t = src
        while t.op in ('conv', 'cast', 'moved', 'copy') and isinstance(t.args[-1], T):
            t = deref_(t.args[-1])
        if t.op == 'upd' and base(t.args[0]) == 'obake::detail::series_sym_extender' and t.args[1] == 0 and len(t.args) >= 5:
            w = deref_(t.args[3])
            if w in (self.x, self.y):
                return 'ext', w, cl(deref_(t.args[4])), self.norm(self.R.value(t).ss)
        raise LookupError('operand %s' % show(src, 4)[:150])

    def merged(self, t):
        """Components of the merged symbol sets as ('MS'), ('MM', set)."""
        def f(z):
            if z.op == 'idx' and called(deref_(z.args[0]), 'obake::detail::merge_symbol_sets'):
                m = deref_(z.args[0])
                n = z.args[1].args[0] if isinstance(z.args[1], T) else z.args[1]
                ab = [self.R.norm(cl(q)) for q in m.args[1:3]]
                if n == 0:
                    return mk('MS', *sorted(ab, key=show))
                if n in (1, 2):
                    return mk('MM', ab[n - 1], ab[2 - n])
            if called(z, 'obake::series::empty') and z.args[1] not in (self.x, self.y):
                try:
                    return mk('call', 'obake::series::empty', self.case(z.args[1])[1])
                except LookupError:
                    return None
            if called(z, 'obake::series::empty'):
                return mk('call', 'obake::series::empty', z.args[1])
            if called(z, 'obake::series::size'):
                return mk('call', 'obake::series::size', z.args[1])
            return None
        return subst(t, f)

    def run(self):
        I = self.I
        evs = [e for e in I.trace if e.kind == 'call' and base(str(e.q)) == 'hx::monomial_mul']
        if not evs:
            self.ob(None, 'monomials are not multiplied')
            return
        for z in (x for e in evs for a in e.args if isinstance(a, T) for x in subterms(cl(a))):
            if series_query(z) == 'begin' and z.args[1] not in self.srcs:
                self.srcs.append(z.args[1])
        self.cases = []
        for e in evs:
            self.e = e
            try:
                self.one(e)
            except Partial as z:
                self.ob(False, str(z), z.loc or e.loc)
            except LookupError as z:
                self.ob(None, str(z), e.loc)
        for e in I.trace:
            if e.kind == 'call' and base(str(e.q)).endswith('::poly_mul_impl_mt_hm') and not e.loops:
                try:
                    self.other(e)
                except LookupError as z:
                    self.ob(None, str(z), e.loc)
        self.coverage()

    def other(self, e):
        """The parallel algorithm is used on the same operands, with the same limits."""
        I, ob, R = self.I, self.ob, self.R
        self.e = e
        a = [cl(deref_(z)) for z in e.args]
        c1, c2 = self.case(a[1]), self.case(a[2])
        ob(True if c1[1] is not c2[1] else False, 'both factors are %s' % show(c1[1], 2), e.loc)
        rest = [z for z in (self.lim, self.s) if z is not None]
        ob(True if a[3:] == rest else False if len(a[3:]) != len(rest) or all(z in (self.lim, self.s) for z in a[3:]) else None, 'the limits are %s' % [show(z, 3) for z in a[3:]], e.loc)
        self.extended(e, c1, c2)
        gs = [truth(cl(I.rewrite(z))) for z in e.guards]
        self.cases.append((c1, c2, [self.norm(z) for z in gs if z not in self.throwlits]))

    def extended(self, e, c1, c2):
        for c in (c1, c2):
            if c[0] == 'ext':
                own = mk('SS', c[1])
                oth = self.Y if own is self.X else self.X
                mm = self.merged(c[2])
                self.ob(True if mm is mk('MM', own, oth) else False if mm.op == 'MM' else None, 'the terms of %s are extended with %s' % (show(c[1], 2), show(mm, 4)[:150]), e.loc)
                ms = self.merged(c[3])
                self.ob(True if ms is mk('MS', *sorted((self.X, self.Y), key=show)) else False if definite_(ms) else None, 'a factor is extended to the symbols %s' % show(ms, 4)[:150], e.loc)

    def one(self, e):
        I, ob, R = self.I, self.ob, self.R
        if len(e.loops) != 2:
            raise LookupError('monomials multiplied in %d loops' % len(e.loops))
        A, B = (I.loops[l] for l in e.loops)
        tmp, k1, k2, ss = (cl(a) for a in e.args)
        els = []
        for k in (k1, k2):
            if not (k.op == 'fld' and k.args[1] == 'first'):
                raise LookupError('monomial %s' % show(k, 4)[:100])
            E = k.args[0]
            s, v, i = self.element(E)
            L = i if not isinstance(i, T) else I.loops[i.args[0]] if i.op in ('lv', 'elem') else None
            if L is None:
                raise Partial(e.loc, 'the term used is always that of index %s' % show(i, 2)) if i.op == 'c' else LookupError('index %s' % show(i, 3)[:80])
            els.append((E, s, v, i, L))
        if els[0][4] is els[1][4]:
            raise Partial(e.loc, 'only terms in corresponding positions are multiplied')
        if {els[0][4].id, els[1][4].id} != {A.id, B.id}:
            raise LookupError('loops over the terms')
        if els[0][4] is B:
            els.reverse()
        (E1, s1, v1, i1, _), (E2, s2, v2, i2, _) = els
        c1, c2 = self.case(s1.src), self.case(s2.src)
        ob(True if c1[1] is not c2[1] else False, 'both factors are terms of %s' % show(c1[1], 2), e.loc)
        self.raw = c1[0] == c2[0] == 'raw'
        self.sset = self.norm(ss)
        # The symbol set.
        okss = self.sset in (self.X, self.Y) if self.raw else self.sset is mk('MS', *sorted((self.X, self.Y), key=show))
        if not self.raw and not okss:
            # A factor which needs no extension has the merged symbol set.
            okss = any(c[0] == 'raw' and self.sset is c[3] for c in (c1, c2))
        ob(True if okss else False if definite_(self.merged(self.sset)) else None, 'the symbol set is %s' % show(self.sset, 4)[:150], e.loc)
        self.extended(e, c1, c2)
        # All the pairs of terms.
        J = None
        for (E, s, v, i, L) in els:
            if isinstance(i, T) and i.op == 'lv':
                lo, hi = count_loop(I, L, i.args[1])
                n = strip_cast(hi)
                sizes = [mk('size', cl(v)), mk('size', v)]
                whole = n in sizes or n.op == 'size' and self.same_len(n.args[0], s) or series_query(n) == 'size' and n.args[1] is s.src
                ob(True if lo is C(0) else False if lo.op == 'c' else None, 'the terms visited start from %s' % show(lo, 2), L.loc)
                if not whole:
                    if L is B and self.kind != 'mul':
                        J = (n, L)
                    else:
                        cnt = all(z.op in ('lin', 'size', 'c', 'cast') or z in set(subterms(v)) for z in subterms(n))
                        ob(False if cnt and sub(n, sizes[0]).op == 'c' else self.other_size(n, s), 'the terms visited are those up to %s' % show(n, 4)[:150], L.loc)
        # Which pairs are multiplied.
        gs = [truth(cl(I.rewrite(z))) for z in e.guards]
        loopconds = {truth(cl(l.cond)) for l in (A, B) if l.cond is not None} | {truth(cl(I.rewrite(l.cond))) for l in (A, B) if l.cond is not None}
        inner, outer = [], []
        for z in gs:
            if z in loopconds:
                continue
            (inner if any(y.op in ('lv', 'elem') and y.args[0] in (A.id, B.id) for y in subterms(z)) else outer).append(z)
        exits = []
        for L in (A, B):
            for c, kind in L.exits:
                c = truth(cl(c))
                if kind == 'throw' or c is FALSE:
                    continue
                exits.append((L, c))
        terms = [lambda z: self.deg_at(z, s1, i1), lambda z: self.deg_at(z, s2, i2)]
        limited = False
        if J is not None:
            n, L = J
            r, cb = self.bound(n, v2, s2)
            if r is None:
                ob(None, 'the terms visited are those up to %s' % show(n, 4)[:150], L.loc)
            else:
                ok = self.fits(r, [lambda z: self.deg_at(z, s1, i1), lambda z: z is cb])
                ob(True if ok else False if ok is False or self.degs_known(r) else None, 'the terms visited end where %s' % show(r, 4)[:150], L.loc)
                k, why = self.sorted_by_degree(s2, L.loc)
                ob(k, 'the search of the last term: ' + why, L.loc)
                limited = True
        for L, c in exits:
            lits = [z for z in conj(c) if z not in loopconds]
            neg = set(map(lnot, lits))
            inner = [z for z in inner if z not in neg]
            if L is A and J is not None and any(self.is_zero_of(z, J[0]) for z in lits):
                k, why = self.sorted_by_degree(s1, L.loc)
                ob(k, 'the iteration stops at the first term with no partner: ' + why, L.loc)
                continue
            if L is B and self.kind != 'mul':
                fs = [self.fits(z, terms) for z in lits]
                if any(fs):
                    k, why = self.sorted_by_degree(s2, L.loc)
                    ob(k, 'the iteration stops at the first term above the limit: ' + why, L.loc)
                    limited = True
                    continue
            num = J is not None and L is A and len(lits) == 1 and lits[0].op in ('lt', 'eq', 'not') and all(
                y.op in ('c', 'lt', 'eq', 'not', 'cast') for y in subterms(subst(lits[0], lambda z: C(0) if z is J[0] else None)))
            ob(False if self.kind == 'mul' or num else None, 'the iteration over the terms stops if %s' % show(c, 4)[:150], L.loc)
        rest = []
        for z in inner:
            if self.kind != 'mul' and z.op == 'not' and self.fits(z.args[0], terms):
                limited = True
            elif self.kind != 'mul' and z.op == 'not' and J is not None and self.is_zero_of(z.args[0], J[0]):
                pass
            else:
                rest.append(z)
        if J is not None and any(L is A for L, _ in exits):
            # The same exit before the first iteration.
            sk = self.skeleton(J[0])
            outer = [z for z in outer if not (z.op == 'not' and any(self.is_zero_of(z.args[0], y) and self.skeleton(y) is sk for y in map(strip_cast, z.args[0].args) if isinstance(y, T)))]
        ob(True if not rest else None, 'terms are multiplied only if %s' % show(land(*rest), 4)[:150], e.loc)
        if self.kind != 'mul':
            ob(True if limited else False if not rest and not exits and J is None else None, 'terms are multiplied whatever their degrees', e.loc)
        # The coefficient.
        self.insertion(e, (E1, E2))
        self.overflow(e, (s1, s2), outer)
        self.zeros(e, A)
        self.cases.append((c1, c2, [self.norm(z) for z in outer if z not in self.throwlits]))

    def skeleton(self, n):
        return subst(strip_cast(n), lambda z: mk('p', 'predicate') if z.op == 'clo' else None)

    def degs_known(self, r):
        return definite_(subst(r, lambda z: TERM if z.op in ('idx', 'cbarg') else None))

    def same_len(self, v, s):
        try:
            return self.S.seq(v).src is s.src
        except LookupError:
            return False

    def other_size(self, n, s):
        """The number of terms of the other operand."""
        try:
            return False if (n.op == 'size' and self.S.seq(n.args[0]).src is not s.src or series_query(n) == 'size' and n.args[1] is not s.src) else None
        except LookupError:
            return None

    def is_zero_of(self, z, n):
        if z.op == 'eq':
            a, b = z.args
            return a is C(0) and strip_cast(b) is n or b is C(0) and strip_cast(a) is n
        if z.op == 'lt':
            return strip_cast(z.args[0]) is n and z.args[1] is C(1)
        return False

    def bound(self, n, v, s):
        """(condition, element) for the first index at which the condition holds."""
        n = strip_cast(n)
        a = b = None
        if n.op == 'call' and base(n.args[0]).endswith('operator-') and len(n.args) == 3:
            a, b = n.args[1:]
        elif called(n, 'std::distance'):
            b, a = n.args[1:]
        else:
            for z in subterms(n):
                if z.op == 'call' and base(z.args[0]) in ('std::upper_bound', 'std::lower_bound', 'std::partition_point') and z.args[1].op == 'begin' \
                        and sub(n, z) is sub(C(0), z.args[1]):
                    a, b = z, z.args[1]
        if a is None or a.op != 'call' or b.op != 'begin':
            return None, None
        w = base(a.args[0]).rsplit('::', 1)[-1]
        if w not in ('upper_bound', 'lower_bound', 'partition_point') or a.args[1] is not b or a.args[2].op != 'end' or a.args[2].args[0] is not b.args[0]:
            return None, None
        try:
            d = self.S.seq(b.args[0])
        except LookupError:
            return None, None
        if d.src is not s.src and self.degree(d.expr):
            raise Partial(self.e.loc, 'the last term is searched among the degrees of another series')
        if d.src is s.src and d.perm is not s.perm and self.degree(d.expr):
            raise Partial(self.e.loc, 'the last term is searched among degrees in another order')
        if d.src is not s.src or d.perm is not s.perm or not self.degree(d.expr):
            return None, None
        cands = []
        for L in self.I.loops.values():
            if L.kind == 'cb' and L.result is not None and L.range is not None and w in str(L.range.args[0]) and any(
                    isinstance(z, T) and cl(z) is b for z in L.range.args[1:]) and self.clo_of(L, a):
                cands.append(L)
        if not cands:
            return None, None
        L = cands[-1]
        r = cl(L.result)
        if w == 'upper_bound':
            if a.args[3] is not self.lim:
                return None, None
            lim, el = 0, 1
        elif w == 'lower_bound':
            if a.args[3] is not self.lim:
                return None, None
            lim, el = 1, 0
        else:
            lim, el = None, 0
        cb = mk('cbel', L.id)
        r = subst(r, lambda z: (self.lim if z.args[1] == lim else cb) if z.op == 'cbarg' and z.args[0] == L.id else None)
        if w != 'upper_bound':
            r = truth(lnot(truth(r)))
        return r, cb

    def clo_of(self, L, a):
        """The callback of this call of the algorithm."""
        e = self.e
        return not L.parent or L.parent in (e.loops[0],) or True if L.id < e.loops[1] + 1 and L.id > e.loops[0] else False

    # ---- coefficients
    def insertion(self, e, E):
        I, ob = self.I, self.ob
        prod = [mk('call', 'hx::operator*', mk('fld', a, 'second'), mk('fld', b, 'second')) for a, b in (E, E[::-1])]
        cs = [mk('fld', a, 'second') for a in E]
        ins = [x for x in I.trace if x.kind == 'call' and x.loops == e.loops and re.search(r'::(try_emplace|emplace|insert|find|operator\[\]|at|insert_or_assign)$', base(str(x.q)))
               and len(x.args) > 1 and x.i > e.i and 'flat_map' in str(x.q)]
        if len(ins) != 1 or not base(str(ins[0].q)).endswith(('try_emplace', 'emplace')):
            ob(None if ins else False, 'the product of two terms is not inserted by one operation', e.loc)
            return
        x = ins[0]
        key = cl(x.args[1])
        while key.op == 'ctor' and len(key.args) == 2 or key.op in ('moved', 'copy'):
            key = key.args[-1]
        want = [cl(a) for a in e.args]
        ok = key.op == 'upd' and base(key.args[0]) == 'hx::monomial_mul' and key.args[1] == 0 and [key.args[2]] + list(key.args[3:]) == want
        ob(True if ok else False if key.op in ('lv', 'fld') or definite_(key) else None, 'the monomial of the new term is %s' % show(key, 3)[:120], x.loc)
        gx = [g for g in x.guards if g not in e.guards]
        ob(True if not gx else None, 'the product of two terms is added only if %s' % show(land(*map(cl, gx)), 4)[:120], x.loc)
        self.table = cl(x.args[0])
        rest = [cl(a) for a in x.args[2:]]
        res = mk('call', x.q, *x.args) if x.res is None else x.res
        res = cl(res)
        new = old = None      # value assigned to a new coefficient; value added to an existing one
        if len(rest) == 1:
            new = strip_ctor(rest[0])
        bad = False
        for z in I.trace:
            if z.kind != 'call' or z.i <= x.i or z.loops != e.loops or not z.args:
                continue
            b = base(str(z.q))
            if not re.search(r'operator([-+*]?=)$|::fma3$|::fms3$', b):
                continue
            t = cl(z.args[0])
            if not (t.op == 'fld' and t.args[1] == 'second' and any(y is res or y.op == 'call' and 'flat_map::' in str(y.args[0]) and re.search('emplace$', base(str(y.args[0]))) for y in subterms(t))):
                continue
            g = [truth(cl(I.rewrite(q))) for q in z.guards if q not in x.guards]
            flag = [q for q in g if (q.args[0] if q.op == 'not' else q).op == 'fld' and (q.args[0] if q.op == 'not' else q).args[1] == 'second']
            if len(g) > 1 or len(flag) != len(g):
                ob(None, 'a coefficient is updated if %s' % show(land(*g), 4)[:120], z.loc)
                return
            inserted = None if not g else g[0].op != 'not'
            v = [strip_ctor(cl(q)) for q in z.args[1:]]
            if b.endswith(('fma3', 'fms3')):
                v = [mk('call', 'hx::operator*', *v)]
            if b.endswith(('::operator=',)):
                if inserted is True:
                    new = v[0]
                else:
                    old = ('=', v[0], z)
                    if inserted is None:
                        new = v[0]
            elif b.endswith('operator+=') or b.endswith('fma3'):
                if inserted is True:
                    ob(None, 'a new coefficient is accumulated into', z.loc)
                    return
                if inserted is None:
                    ob(None, 'a new coefficient is accumulated into', z.loc)
                    return
                old = ('+', v[0], z)
            else:
                ob(False, 'a coefficient is combined with the product of two others by %s' % b, z.loc)
                bad = True
        if bad:
            return
        if new is None:
            ob(False if not rest else None, 'the coefficient of a new term is not set', x.loc)
        else:
            ob(True if new in prod else False if self.coef(new, cs) else None, 'the coefficient of a new term is %s' % show(new, 5)[:120], x.loc)
        if old is None:
            ob(False, 'the product is discarded if its monomial is already present', x.loc)
        else:
            ob(True if old[0] == '+' and old[1] in prod else False if old[0] == '=' or self.coef(old[1], cs) else None,
               '%s is %s an existing coefficient' % (show(old[1], 5)[:120], 'added to' if old[0] == '+' else 'assigned to'), old[2].loc)

    def coef(self, t, cs):
        return all(y in cs or any(y in set(subterms(c)) for c in cs) or y.op == 'call' and base(y.args[0]).startswith('hx::') or y.op == 'c' for y in subterms(t))

    # ---- overflow
    def overflow(self, e, ss_, outer):
        I, ob = self.I, self.ob
        ch = [z for z in outer if any(y.op == 'call' and base(y.args[0]) == 'hx::monomial_range_overflow_check' for y in subterms(z))]
        if not ch:
            ob(False, 'the exponents are not checked for overflow before multiplying', e.loc)
            return
        for z in ch:
            if not (z.op == 'call'):
                ob(False if z.op == 'not' and z.args[0].op == 'call' else None, 'terms are multiplied if %s' % show(z, 3)[:100], e.loc)
                continue
            r = []
            for a in z.args[1:3]:
                a = cl(deref_(a))
                its = [y for y in a.args[1:] if isinstance(y, T)] if a.op == 'agg' else []
                if len(its) == 1 and its[0].op == 'agg':
                    its = [y for y in its[0].args[1:] if isinstance(y, T)]
                if len(its) != 2:
                    ob(None, 'the monomials checked for overflow are %s' % show(a, 3)[:120], e.loc)
                    return
                r.append(self.S.range(*its))
            ok = {r[0].src, r[1].src} == {s.src for s in ss_} and all(y.expr in (TK, mk('ref', TK)) for y in r)
            ob(True if ok else False if all(definite_(y.expr) for y in r) else None, 'the monomials checked for overflow are %s of %s and %s of %s' % (
                show(r[0].expr, 3), show(r[0].src, 2), show(r[1].expr, 3), show(r[1].src, 2)), e.loc)
            ob(True if self.same_ss(z.args[3]) else None, 'symbol set of the check', e.loc)
            neg = lnot(z)
            th = [x for x in I.trace if x.kind == 'throw' and any(truth(cl(I.rewrite(g))) is neg for g in x.guards)]
            ob(True if any(x.q == 'std::overflow_error' for x in th) else False if not th else None, 'no overflow error is raised', e.loc)

    # ---- zeros
    def zeros(self, e, A):
        I, ob = self.I, self.ob
        er = [x for x in I.trace if x.kind == 'call' and x.i > e.i and re.search(r'flat_map::erase$|erase_if$', base(str(x.q))) and self.after(x, A)]
        if not er:
            ob(False, 'terms whose coefficient is zero are left in the result', e.loc)
            return
        for x in er:
            if len(x.loops) != 1 or len(x.args) != 2:
                ob(None, 'removal of terms', x.loc)
                continue
            L = I.loops[x.loops[0]]
            it = cl(x.args[1])
            if it.op == 'call' and base(it.args[0]).endswith('operator++') and len(it.args) > 1:
                it = it.args[1]
            if it.op != 'lv' or it.args[0] != L.id:
                ob(None, 'the term removed is %s' % show(it, 3)[:100], x.loc)
                continue
            k = it.args[1]
            i0 = cl(L.init[k])
            tab = i0.args[-1] if i0.op == 'begin' or is_call(i0, 'begin') else None
            c = truth(cl(L.cond))
            en = [z for z in c.args[0].args if z is not it] if c.op == 'not' and c.args[0].op == 'eq' and it in c.args[0].args else []
            full = tab is not None and en and (en[0].op == 'end' or is_call(en[0], 'end'))
            first = i0.op == 'lin' and any(z.op == 'begin' or is_call(z, 'begin') for z in subterms(i0))
            ob(True if full else False if first else None, 'the terms tested run from %s while %s' % (show(i0, 3)[:80], show(c, 3)[:80]), L.loc)
            st = leaves(L.step[k]) if L.step.get(k) is not None else []
            ob(True if st and all(cl(z) is add(it, C(1)) for z in st) else False if any(cl(z) is add(it, C(2)) for z in st) else None, 'the iterator advances by one', L.loc)
            lits = [truth(cl(I.rewrite(g))) for g in x.guards]
            lc = {truth(cl(I.rewrite(L.cond))), c}
            mine = [boolz(z) for z in lits if z not in lc and any(y is it for y in subterms(z))]
            want = mk('call', 'hx::is_zero', mk('fld', mk('deref', it), 'second'))
            ok = len(mine) == 1 and mine[0] is want
            rev = len(mine) == 1 and mine[0] is lnot(want) or not mine
            ob(True if ok else False if rev else None, 'a term is removed if %s' % show(land(*mine), 4)[:120], x.loc)
            ex = [cc for cc, kind in L.exits if kind != 'throw' and truth(cl(cc)) is not FALSE]
            ob(True if not ex else False, 'the removal stops early', L.loc)
            out = {y.args[0] for y in subterms(cl(I.ret)) if y.op == 'lx'}
            ob(True if L.id in out else None, 'the table returned', L.loc)

    def after(self, x, A):
        """The operation is on the table filled by the loop."""
        for l in x.loops:
            L = self.I.loops[l]
            for v in L.init.values():
                if isinstance(v, T) and any(y.op == 'lx' and y.args[0] == A.id for y in subterms(v)):
                    return True
        return any(y.op == 'lx' and y.args[0] == A.id for a in x.args if isinstance(a, T) for y in subterms(a))

    # ---- cases
    def coverage(self):
        ob = self.ob
        if not self.cases:
            return
        a, b = (eq(C(0), mk('size', mk('MM', u, v))) for u, v in ((self.X, self.Y), (self.Y, self.X)))
        E = {eq(self.X, self.Y), eq(self.Y, self.X)}
        empties = [mk('call', 'obake::series::empty', z) for z in (self.x, self.y)]
        for same, ea, eb in ((True, None, None), (False, True, False), (False, False, True), (False, False, False)):
            def f(z):
                if z in E:
                    return TRUE if same else FALSE
                if z.op == 'call' and base(z.args[0]) == 'hx::monomial_range_overflow_check':
                    return TRUE
                return None

            def atoms(z):
                if not same:
                    if z is a:
                        return C(int(ea))
                    if z is b:
                        return C(int(eb))
                    if z.op == 'shl' and z.args[1].op == 'c':
                        y = subst(z.args[0], atoms)
                        return C(y.args[0] << z.args[1].args[0]) if y.op == 'c' else None
                return None
            total = FALSE
            name = 'the symbols are the same' if same else '%s and %s symbols are added' % ('no' if ea else 'some', 'no' if eb else 'some')
            for c1, c2, g in self.cases:
                r = []
                for z in g:
                    z = subst(z, f)
                    z = truth(self.num(z, atoms))
                    r.append(self.opaque(z))
                r = land(*r)
                if r is FALSE or logic.sat(r) is False:
                    continue
                for c in (c1, c2):
                    needs = not same and not (ea if c[1] is self.x else eb)
                    ob(False if needs and c[0] == 'raw' else True if needs == (c[0] == 'ext') else None, '%s: the terms of %s are%s extended' % (
                        name, show(c[1], 2), '' if c[0] == 'ext' else ' not'), self.e.loc)
                total = lor(total, r)
            want = land(*map(lnot, empties))
            k = logic.implies(want, total)
            ob(True if k else False if self.plain(total) else None, '%s: the series are multiplied only if %s' % (name, show(total, 4)[:150]), self.e.loc)

    def plain(self, t):
        return all(y.op in ('c', 'and', 'or', 'not', 'lt', 'eq', 'p', 'true', 'false') or called(y, 'obake::series::size', 'obake::series::empty') for y in subterms(t))

    def opaque(self, z):
        """Conditions which choose between algorithms are arbitrary."""
        if z.op in ('not', 'and', 'or'):
            ps = [self.opaque(y) for y in z.args]
            return lnot(ps[0]) if z.op == 'not' else land(*ps) if z.op == 'and' else lor(*ps)
        if z.op in ('eq', 'lt') and not self.plain(z):
            return self.atoms.setdefault(z, mk('atom', 'condition %d' % len(self.atoms)))
        return z

    def num(self, z, atoms):
        """Replaces tests used as numbers, or as conditions."""
        if z.op in ('not', 'and', 'or'):
            ps = [self.num(y, atoms) for y in z.args]
            return lnot(ps[0]) if z.op == 'not' else land(*ps) if z.op == 'and' else lor(*ps)
        y = atoms(z)
        if y is not None and y.op == 'c':
            return TRUE if y.args[0] else FALSE
        return subst(z, atoms)


def conj(c):
    return list(c.args) if c.op == 'and' else [c]


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if t.op == 'ite' else [t]


def is_call(t, n):
    return t.op == 'call' and base(t.args[0]).rsplit('::', 1)[-1] == n


def boolz(t):
    def f(x):
        if x.op == 'eq' and x.args[0] is C(0) and called(x.args[1], 'hx::is_zero'):
            return lnot(x.args[1])
        return None
    return truth(subst(t, f))


def products(cx, kinds):
    P = cx.progs['poly.cpp']
    poly_types(P)
    for q in kinds:
        for f in cx.entry(P, 'hx::' + q, 3):
            with cx.item(nm(f)):
                Product(cx, P, f, q).run()


@rule('P07', ['poly.cpp'], 'every multiplication of monomials is traced back to the terms of the operands, the loops over them, the insertion of the product and the removal of zeros; '
      'the cases of the symbol sets are shown to cover all', min_obligations=100)
def p07(cx):
    products(cx, ('mul',))
    from .r_polypar import parallel
    parallel(cx, ('mul',))


@rule('P08', ['poly.cpp'], 'the order of the terms and the bound of the inner iteration are read as expressions of the degrees and compared with the limit', min_obligations=200)
def p08(cx):
    products(cx, ('tmul', 'tpmul'))
    from .r_polypar import parallel
    parallel(cx, ('tmul', 'tpmul'))
