"""Products of polynomials: the parallel algorithm over the segments of the result."""
from .r_polymul import *
from ..terms import _lin as terms_lin, scale
from .r_polymul import Seq, Seqs, Product, count_loop, conj, leaves, is_call, cl, KW

FUN = 'obake::polynomials::detail::poly_mul_impl_mt_hm'
STOPP = re.compile(r'poly_mul_estimate_product_size$|poly_mul_impl_estimate_average_term_size$|poly_mul_impl_par_make_idx_vector$|make_(p_)?degree_vector$')
NS = mk('p', 'number of segments')
WIDE = ('unsigned long', 'long', 'unsigned long long', 'long long')
CALL_ = re.compile(r'^(std::)?(upper_bound|lower_bound)$')


def stopsp(q, n):
    return stopsm(q, n) or bool(STOPP.search(base(q)))


def call_(t, *names):
    return t.op == 'call' and base(str(t.args[0])).rsplit('::', 1)[-1] in names


def comp(t):
    """(range of a segment, 0 for its start, 1 for its end, 2 for its number)"""
    if t.op == 'idx' and t.args[1].op == 'c':
        return t.args[0], t.args[1].args[0]
    return None, None


def diff_(t):
    """Distance between two iterators."""
    c, d = terms_lin(t)
    if c == 0 and len(d) == 2 and all(z.op == 'pos' for z in d):
        (a, m), (b, n) = d.items()
        if (m, n) == (1, -1):
            return a.args[0], b.args[0]
        if (m, n) == (-1, 1):
            return b.args[0], a.args[0]
    return None, None


def pos_(z):
    """Distances as differences of positions."""
    if call_(z, 'operator-') and len(z.args) == 3 and str(z.args[0]).startswith('__gnu_cxx::'):
        return sub(mk('pos', z.args[1]), mk('pos', z.args[2]))
    if call_(z, 'distance') and len(z.args) == 3:
        return sub(mk('pos', z.args[2]), mk('pos', z.args[1]))
    return None


def same_order(a, b):
    """Two comparisons which only differ by the side of their addends."""
    if a is b:
        return True
    if a.op == 'not' and b.op == 'not':
        return same_order(a.args[0], b.args[0])
    if a.op != b.op or a.op not in ('lt', 'eq'):
        return False
    x, y = sub(*a.args), sub(*b.args)
    return x is y or a.op == 'eq' and x is scale(y, -1)


def value(t, env):
    """Value of an expression over numbers of segments, or None."""
    M = 1 << 64
    if t in env:
        return env[t]
    if t.op == 'c':
        return int(t.args[0]) % M
    if t is TRUE or t is FALSE:
        return int(t is TRUE)
    if t.op == 'lin':
        c, d = terms_lin(t)
        vs = [(k, value(z, env)) for z, k in d.items()]
        return None if any(v is None for _, v in vs) else (c + sum(k * v for k, v in vs)) % M
    if t.op == 'ite':
        c = value(t.args[0], env)
        return None if c is None else value(t.args[1 if c else 2], env)
    if t.op in ('mod', 'div', 'lt', 'eq', 'and', 'or', 'not', 'band', 'min', 'max'):
        v = [value(z, env) for z in t.args]
        if any(x is None for x in v) or t.op in ('mod', 'div') and not v[1]:
            return None
        return {'mod': lambda: v[0] % v[1], 'div': lambda: v[0] // v[1], 'lt': lambda: int(v[0] < v[1]), 'eq': lambda: int(v[0] == v[1]), 'and': lambda: int(all(v)),
                'or': lambda: int(any(v)), 'not': lambda: 1 - bool(v[0]), 'band': lambda: v[0] & v[1], 'min': lambda: min(v), 'max': lambda: max(v)}[t.op]()
    return None


class SeqsP(Seqs):
    """Sequences which the parallel tasks may also have reordered."""

    def __init__(self, X):
        Seqs.__init__(self, X.P, X.I, X.R, X.operands)
        self.X = X

    def range(self, a, b):
        s = Seqs.range(self, a, b)
        e = s.expr
        if isinstance(e, T) and e.op == 'agg' and 'pair' in str(e.args[0]) and [z for z in e.args if isinstance(z, T)] == [mk('fld', TERM, 'first'), mk('fld', TERM, 'second')]:
            # A copy of the term.
            s.expr = TERM
        return s

    def seq0(self, v):
        X = self.X
        w = deref_(v)
        if w.op in ('lx', 'lv'):
            L = self.I.loops[w.args[0]]
            if L.kind == 'cb' and 'parallel_invoke' in str(L.q):
                t = (L.step if w.op == 'lx' else L.init).get(w.args[1])
                if t is None:
                    t = L.init.get(w.args[1])
                if t is None:
                    raise LookupError('sequence %s' % show(v, 4)[:120])
                return self.seq(cl(t))
        if call_(w, 'make_degree_vector', 'make_p_degree_vector'):
            a = [cl(z) for z in w.args[1:]]
            s = self.range(a[0], a[1])
            if s.expr is not TERM:
                raise LookupError('degrees of %s' % show(s.expr, 3)[:80])
            part = call_(w, 'make_p_degree_vector')
            if part != (X.kind == 'tpmul'):
                raise Partial('', 'the degrees compared are %s' % ('partial' if part else 'total'))
            if not X.same_ss(a[2]):
                raise LookupError('symbols of the degrees')
            if part and a[3] is not X.s:
                raise LookupError('symbols of the partial degrees')
            return Seq(s.src, s.perm, X.DEG)
        return Seqs.seq0(self, v)


class Par(Product):
    DEG = mk('call', 'degree', TERM)

    def __init__(self, cx, P, f, kind):
        self.cx, self.P, self.f, self.kind = cx, P, f, kind
        names = ['retval', 'x', 'y', 'limit', 'symbols'][:len(f['params'])]
        ps = [mk('p', n) for n in names]
        self.I = I = cx.analyse(P, f, stops=stopsp, exact=True, args=ps)
        self.J = Judge(cx, f, 'parallel ' + KW[kind], P)
        self.ob = self.J.ob
        self.x, self.y = ps[1:3]
        self.lim = ps[3] if len(ps) > 3 else None
        self.s = ps[4] if len(ps) > 4 else None
        self.R = Reader(I, ps[1:3])
        self.S = SeqsP(self)
        self.m = self.a = self.b = None
        self.srcs = []
        self.X, self.Y = mk('SS', self.x), mk('SS', self.y)
        self.raw = True
        self.throwlits = set()
        self.atoms = {}
        self.segs = {}
        self.N = None
        for e in I.trace:
            if e.kind == 'throw' and e.guards and not e.loops:
                self.throwlits.add(truth(lnot(truth(cl(I.rewrite(e.guards[-1]))))))
        q = [e for e in I.trace if e.kind == 'call' and base(str(e.q)).endswith('series::set_n_segments')]
        if len(q) != 1 or q[0].loops:
            raise LookupError('number of segments')
        self.N = cl(mk('shl', C(1), q[0].args[1]))
        self.log2 = self.N.args[1] if self.N.op == 'shl' else None
        self.cap(cl(q[0].args[1]), q[0].loc)
        self.ret = mk('p', 'retval')
        self.sset = self.norm(mk('call', 'obake::series::get_symbol_set', self.ret))

    def cap(self, t, loc):
        """The number of segments is among those allowed."""
        if t.op == 'c':
            self.ob(t.args[0] < 64 or None, 'the logarithm of the number of segments is %s' % show(t, 2), loc)
        else:
            self.ob(True if t.op == 'min' and any(z.op == 'c' or call_(z, 'get_max_s_size') for z in t.args) else None, 'the logarithm of the number of segments is %s' % show(t, 3)[:100], loc)

    def same_ss(self, t):
        t = self.norm(cl(t))
        return t is self.sset or t in (self.X, self.Y)

    def degree(self, t):
        return True if t is self.DEG else Product.degree(self, t)

    # ---- terms
    def ab(self, t):
        t = subst(cl(t), lambda z: NS if z is self.N else None)

        def f(z):
            if z.op == 'shl' and z.args[0] is C(1) and self.log2 is not None and sub(z.args[1], self.log2).op == 'c':
                return mk('p', 'number of segments times 2^%d' % sub(z.args[1], self.log2).args[0])
            if z.op == 'cast' and z.args[0] in WIDE:
                return subst(z.args[1], f)
            if z.op == 'band' and len(z.args) == 2 and add(NS, C(-1)) in z.args:
                return mk('mod', subst([y for y in z.args if y is not add(NS, C(-1))][0], f), NS)
            return None
        for _ in range(3):
            u = subst(subst(t, f), pos_)
            if u is t:
                break
            t = u
        return t

    def bucket(self, t):
        """The term whose segment is t."""
        if t.op == 'mod' and t.args[1] is NS and called(t.args[0], 'hx::hash') and t.args[0].args[1].op == 'fld' and t.args[0].args[1].args[1] == 'first':
            return t.args[0].args[1].args[0]
        return None

    def vocab(self, t):
        return all(z.op in ('lin', 'c', 'mod', 'div', 'shl', 'band', 'idx', 'lv', 'lx', 'elem', 'cbarg', 'p', 'lt', 'eq', 'not', 'and', 'or', 'ite', 'size', 'min', 'max', 'fld', 'begin', 'end', 'cast', 'deref', 'pos')
                   or call_(z, 'hash', 'data', 'upper_bound', 'lower_bound') for z in subterms(t))

    def known(self, t):
        return False if self.vocab(t) else None

    def pos(self, E):
        """(vector, loop, first index, last index) of a term visited by position."""
        I = self.I
        at = E.args[0] if E.op == 'deref' else None
        if E.op == 'idx' and E.args[1].op == 'lv':
            V, i = E.args[:2]
            L = I.loops[i.args[0]]
            lo, hi = count_loop(I, L, i.args[1])
            return V, L, self.ab(lo), self.ab(hi)
        if at is not None:
            at = self.ab(at)
            if at.op == 'lv':
                L = I.loops[at.args[0]]
                lo, hi = (self.ab(z) for z in count_loop(I, L, at.args[1]))
                V = self.origin(lo)
                return V.args[-1], L, sub(lo, V), sub(hi, V)
            V = self.origin(at)
            i = sub(at, V)
            if i.op == 'lv':
                L = I.loops[i.args[0]]
                lo, hi = count_loop(I, L, i.args[1])
                return V.args[-1], L, self.ab(lo), self.ab(hi)
        raise LookupError('term %s' % show(E, 4)[:120])

    def origin(self, t):
        for z in ([t] if t.op != 'lin' else list(subterms(t))):
            if (call_(z, 'data') or z.op == 'begin') and not any(y is z for y in subterms(sub(t, z))):
                return z
        raise LookupError('position %s' % show(t, 4)[:120])

    # ---- segmentation of the terms
    def segmentation(self, S, src):
        """S lists the ranges of terms of a vector which belong to each segment: is it complete (dense)?"""
        if S not in self.segs:
            self.segs[S] = self.segmentation0(S)
        V, dense, loc = self.segs[S]
        s = self.S.seq(V)
        if s.src is not src:
            raise Partial(loc, 'the ranges of terms used for %s are those of %s' % (show(src, 2), show(s.src, 2)))
        return dense

    def calls_(self, name, parent, args):
        """The comparisons of a binary search."""
        r = [q for q in self.I.loops.values() if q.kind == 'cb' and q.parent == parent and base(str(q.q)).endswith(name)]
        m = [q for q in r if q.args and [self.ab(z) for z in q.args[:3] if isinstance(z, T)] == list(args[:3])]
        if not m:
            raise LookupError('%s: comparison' % name)
        # The last one: the others are those of the first iteration.
        return m[-1:]

    def segmentation0(self, S):
        I, ob = self.I, self.ob
        S = deref_(S)
        t, task = S, None
        if S.op == 'lx' and I.loops[S.args[0]].kind == 'cb':
            task = I.loops[S.args[0]]
            t = self.ab(task.step.get(S.args[1]))
        dense, V, loc = True, None, ''
        for z in leaves(t):
            v, d, L = self.ranges(z)
            if V is not None and v is not V:
                raise LookupError('ranges of terms of different vectors')
            V, dense, loc = v, dense and d, L.loc
            self.sorted_by_segment(v, L)
        return V, dense, loc

    def ranges(self, t):
        I, ob = self.I, self.ob
        if t.op != 'lx':
            raise LookupError('ranges of terms %s' % show(t, 4)[:120])
        L = I.loops[t.args[0]]
        k = t.args[1]
        i0, st, lv = self.ab(L.init[k]), self.ab(L.step[k]), mk('lv', L.id, k)
        while i0.op == 'upd' and base(i0.args[0]).endswith('vector::reserve'):
            i0 = i0.args[2]
        if not (i0.op == 'ctor' and len(i0.args) == 1):
            raise LookupError('first range of terms')
        if any(c is not FALSE and kd != 'throw' for c, kd in L.exits):
            raise Partial(L.loc, 'the terms are no longer assigned to segments if %s' % show(lor(*[c for c, kd in L.exits if kd != 'throw']), 4)[:150])
        if not (st.op == 'upd' and st.args[1] == 0 and re.search(r'vector::(push|emplace)_back$', base(st.args[0])) and st.args[2] is lv):
            if st.op == 'ite':
                a, b = leaves(st.args[1]), leaves(st.args[2])
                if lv in a + b:
                    raise LookupError('ranges which are added only if %s' % show(st.args[0], 4)[:100])
            raise LookupError('range added %s' % show(st, 4)[:120])
        r = list(st.args[3:])
        if len(r) == 1 and r[0].op in ('ctor', 'agg'):
            r = [z for z in r[0].args[1:] if isinstance(z, T)]
        if len(r) != 3:
            raise LookupError('range added %s' % show(st, 4)[:120])
        lo, hi, nb = r
        # The iterator which goes on to the end of each range.
        a, b = diff_(hi)
        if a is None or b.op != 'begin' or not call_(a, 'upper_bound'):
            raise LookupError('end of a range: %s' % show(hi, 4)[:120])
        V = b.args[0]
        it, end, val = a.args[1:4]
        Lc = self.calls_('upper_bound', L.id, a.args[1:])
        if it.op != 'lv' or it.args[0] != L.id:
            raise LookupError('search of the end of a range')
        res = self.ab(Lc[0].result)
        ok = res.op == 'lt' and res.args[0].op == 'cbarg' and res.args[0].args[1] == 0 and self.bucket(res.args[1]) is not None and self.bucket(res.args[1]).op == 'cbarg' and self.bucket(res.args[1]).args[1] == 1
        ob(True if ok else self.known(res), 'a range ends where %s' % show(res, 4)[:150], Lc[0].loc)
        ob(True if end is mk('end', V) else self.known(end), 'the end of a range is searched until %s' % show(end, 4)[:100], L.loc)
        k2 = it.args[1]
        ini, nxt = self.ab(L.init[k2]), self.ab(L.step[k2])
        ob(True if ini is mk('begin', V) else self.known(ini), 'the first range starts from %s' % show(ini, 4)[:100], L.loc)
        ob(True if nxt is a else self.known(nxt), 'the range after starts from %s' % show(nxt, 4)[:100], L.loc)
        # Where a range starts.
        c, d = diff_(lo)
        if c is not None:
            ok = c is it and d is mk('begin', V)
        elif lo.op == 'lv' and lo.args[0] == L.id:
            ok = self.ab(L.init[lo.args[1]]) is C(0) and self.ab(L.step[lo.args[1]]) is hi
        else:
            ok = False
        ob(True if ok else self.known(lo), 'a range starts from %s' % show(lo, 4)[:100], L.loc)
        cond = truth(self.ab(L.cond))
        if cond.op == 'not' and cond.args[0].op == 'eq' and set(cond.args[0].args) == {it, mk('end', V)}:
            w = self.bucket(nb)
            ob(True if w is mk('deref', it) else self.known(nb), 'a range is said to belong to the segment %s' % show(nb, 4)[:100], L.loc)
            ob(True if val is nb else self.known(val), 'a range ends after the segment %s' % show(val, 4)[:100], L.loc)
            return V, False, L
        if nb.op == 'lv' and nb.args[0] == L.id:
            f, n = (self.ab(z) for z in count_loop(I, L, nb.args[1]))
            ob(True if f is C(0) else self.known(f), 'the first segment is %s' % show(f, 3), L.loc)
            ob(True if n is NS else self.known(n), 'the segments visited are those up to %s' % show(n, 3)[:100], L.loc)
            ob(True if val is nb else self.known(val), 'a range ends after the segment %s' % show(val, 4)[:100], L.loc)
            return V, True, L
        raise LookupError('iteration over the ranges: %s' % show(cond, 4)[:120])

    def sorted_by_segment(self, V, L):
        I, ob = self.I, self.ob
        first = min([e.i for e in I.trace if L.id in e.loops] or [0])
        for e in I.trace:
            if e.kind == 'call' and re.search(r'(^|::)(parallel_|stable_)?sort$', base(str(e.q))) and len(e.args) >= 2 and self.ab(e.args[0]) is mk('begin', V):
                if e.i > first:
                    raise Partial(e.loc, 'the terms are sorted by segment after their ranges have been determined')
                if self.ab(e.args[1]) is not mk('end', V):
                    raise Partial(e.loc, 'only some of the terms are sorted by segment')
                Lc = [q for q in I.loops.values() if q.kind == 'cb' and 'sort' in str(q.q) and isinstance(q.range, T) and any(isinstance(z, T) and self.ab(z) is mk('begin', V) for z in q.range.args[1:])
                      and q.parent == (e.loops[-1] if e.loops else None)]
                if not Lc:
                    raise LookupError('order of the terms')
                r = self.ab(Lc[0].result)
                if r.op == 'lt':
                    bs = [self.bucket(z) for z in r.args]
                    if all(z is not None and z.op == 'cbarg' for z in bs):
                        ob(bs[0].args[1] == 0 and bs[1].args[1] == 1, 'the terms are sorted in descending order of segment', Lc[0].loc)
                        return
                ob(self.known(r), 'the terms are sorted by %s' % show(r, 4)[:150], Lc[0].loc)
                return
        raise Partial(L.loc, 'the terms are not sorted by segment')

    def sorted_by_degree(self, s, loc):
        """Within each range, the terms follow one another by degree."""
        I = self.I
        if s.perm is None:
            return False, 'the terms are not sorted by degree'
        p = self.ab(s.perm)
        if not call_(p, 'poly_mul_impl_par_make_idx_vector'):
            return None, 'the order of the terms'
        for e in I.trace:
            if e.kind != 'call' or base(str(e.q)) not in ('std::sort', 'std::stable_sort'):
                continue
            try:
                V = self.origin(self.ab(e.args[0]))
            except LookupError:
                continue
            if self.ab(V.args[-1]) is not p:
                continue
            lo, hi = (self.ab(sub(self.ab(z), V)) for z in e.args[:2])
            (r0, n0), (r1, n1) = comp(lo), comp(hi)
            if r0 is None or r0 is not r1 or (n0, n1) != (0, 1):
                return self.known(mk('lin_', lo, hi)) if False else None, 'the positions sorted are those from %s to %s' % (show(lo, 3), show(hi, 3))
            if r0.op != 'elem':
                return None, 'the ranges sorted'
            rng = self.ab(r0.args[1])
            if rng.op == 'cbarg':
                task = I.loops[rng.args[0]]
                br = self.ab([z for z in task.range.args if isinstance(z, T)][0])
                if not (br.op == 'ctor' and len(br.args) >= 3 and br.args[1].op == 'begin' and br.args[2].op == 'end' and br.args[1].args[0] is br.args[2].args[0]):
                    return None, 'the ranges sorted are %s' % show(br, 4)[:100]
                rng = br.args[1].args[0]
            else:
                task = I.loops[r0.args[0]]
            vs = {self.ranges_of(z) for z in leaves(rng)}
            if len(vs) != 1 or self.S.seq(list(vs)[0]).src is not s.src:
                return None, 'the ranges sorted'
            loops = [I.loops[l] for l in e.loops]
            if any(L.exits for L in loops if L.kind != 'cb'):
                return None, 'only some of the ranges are sorted by degree'
            Lc = [q for q in I.loops.values() if q.kind == 'cb' and base(str(q.q)) == base(str(e.q)) and q.parent == e.loops[-1]]
            if not Lc:
                return None, 'the order of the terms'
            r = self.ab(Lc[0].result)
            if r.op == 'call' and base(r.args[0]).endswith('operator<') and all(z.op == 'idx' for z in r.args[1:3]) and r.args[1].args[0] is r.args[2].args[0]:
                D = r.args[1].args[0]
                d = self.S.seq(D)
                if d.src is not s.src:
                    return False, 'the terms are sorted by the degrees of another series'
                if d.perm is not None or not self.degree(d.expr):
                    return None, 'the terms are sorted by %s' % show(d.expr, 4)[:100]
                n = [z.args[1].args[1] if z.args[1].op == 'cbarg' else None for z in r.args[1:3]]
                return (True if n == [0, 1] else False if n == [1, 0] else None), 'the terms are sorted by %s' % show(r, 3)[:100]
            return None, 'the terms are sorted by %s' % show(r, 4)[:150]
        return False, 'the terms are not sorted by degree'

    def ranges_of(self, z):
        """The vector of terms divided in ranges."""
        for S, (V, d, loc) in list(self.segs.items()):
            t = deref_(S)
            if t.op == 'lx' and self.I.loops[t.args[0]].kind == 'cb':
                t = self.ab(self.I.loops[t.args[0]].step.get(t.args[1]))
            if z in leaves(t):
                return V
        return self.ranges(z)[0]

    # ---- the products of a segment
    def run(self):
        I = self.I
        evs = [e for e in I.trace if e.kind == 'call' and base(str(e.q)) == 'hx::monomial_mul']
        if not evs:
            self.ob(None, 'monomials are not multiplied')
            return
        self.cover = []
        for e in evs:
            self.e = e
            try:
                self.kernel(e)
            except Partial as z:
                self.ob(False, str(z), z.loc or e.loc)
            except LookupError as z:
                self.ob(None, str(z), e.loc)
        c = lor(*self.cover)
        k = logic.equiv(c, TRUE)
        if len(self.cover) == len(evs):
            self.ob(True if k else False if self.vocab(c) else None, 'the terms are multiplied only if %s' % show(c, 4)[:150])

    def kernel(self, e):
        I, ob = self.I, self.ob
        if len(e.loops) != 5:
            raise LookupError('monomials multiplied in %d loops' % len(e.loops))
        TK_, SG, RL, A, B = (I.loops[l] for l in e.loops)
        tmp, k1, k2, ss = (self.ab(z) for z in e.args)
        E = []
        for k in (k1, k2):
            if not (k.op == 'fld' and k.args[1] == 'first'):
                raise LookupError('monomial %s' % show(k, 4)[:100])
            E.append(k.args[0])
        els = [self.pos(z) for z in E]
        if els[0][1] is els[1][1]:
            raise Partial(e.loc, 'only terms in corresponding positions are multiplied')
        if {els[0][1].id, els[1][1].id} != {A.id, B.id}:
            raise LookupError('loops over the terms')
        if els[0][1] is B:
            els.reverse()
        (Va, _, alo, ahi), (Vb, _, blo, bhi) = els
        sa, sb = self.S.seq(Va), self.S.seq(Vb)
        if sa.expr is not TERM or sb.expr is not TERM:
            raise LookupError('terms of the operands')
        ob({sa.src, sb.src} == {self.x, self.y} if sa.src is sb.src or {sa.src, sb.src} <= {self.x, self.y} else None, 'both factors are terms of %s' % show(sa.src, 2), e.loc)
        ob(True if self.same_ss(ss) else None, 'the symbol set is %s' % show(ss, 3)[:100], e.loc)
        # All the segments of the result.
        seg = self.task(TK_, SG)
        # The ranges of terms.
        Ra, n0 = comp(alo)
        Rb, m0 = comp(blo)
        if Ra is None or Rb is None:
            bad = [z for z in (alo, blo) if comp(z)[0] is None]
            y = next((comp(q)[0] for q in subterms(bad[0]) if comp(q)[0] is not None and comp(q)[1] == 0), None)
            if y is not None and sub(bad[0], mk('idx', y, C(0))).op == 'c':
                raise Partial(e.loc, 'the first terms of a range are skipped')
            raise LookupError('first term of a range: %s' % show(bad[0], 3)[:100])
        ob(n0 == 0 and m0 == 0, 'the terms visited start from %s and %s' % (show(alo, 3)[:80], show(blo, 3)[:80]), e.loc)
        ob(True if ahi is mk('idx', Ra, C(1)) else self.known(ahi), 'the terms visited are those up to %s' % show(ahi, 4)[:150], A.loc)
        conds = {truth(self.ab(L.cond)) for L in (SG, RL, A, B) if L.cond is not None} | {truth(self.ab(I.rewrite(L.cond))) for L in (SG, RL, A, B) if L.cond is not None}
        gs = [truth(self.ab(I.rewrite(z))) for z in e.guards]
        ids = {SG.id, RL.id, A.id, B.id}
        inner, outer = [], []
        for z in gs:
            if z in conds:
                continue
            (inner if any(y.op in ('lv', 'elem') and y.args[0] in ids for y in subterms(z)) else outer).append(z)
        exits = []
        for L in (SG, RL, A, B):
            for c, kind in L.exits:
                c = truth(self.ab(c))
                if kind != 'throw' and c is not FALSE:
                    exits.append((L, c))
        # The limit.
        full = bhi is mk('idx', Rb, C(1))
        if self.kind == 'mul' or full or diff_(bhi)[0] is None:
            ob(True if full and self.kind == 'mul' else False if full else self.known(bhi) if self.kind == 'mul' else None,
               'terms are multiplied whatever their degrees' if full else 'the terms visited are those up to %s' % show(bhi, 4)[:150], B.loc)
        else:
            self.limit(e, bhi, Rb, sa, sb, A, B)
            none = {eq(blo, bhi), lnot(lt(blo, bhi))}
            ex = [c for L, c in exits if L is A and none & set(conj(c))]
            if ex:
                k, why = self.sorted_by_degree(sa, A.loc)
                ob(k, 'the iteration stops at the first term with no partner: ' + why, A.loc)
                exits = [(L, c) for L, c in exits if not (L is A and none & set(conj(c)))]
            inner = [z for z in inner if lnot(z) not in none]
        # Which ranges are combined.
        self.notfound = []
        if Ra.op == 'idx' and Ra.args[1].op == 'lv' and Ra.args[1].args[0] == RL.id:
            Sa, i = Ra.args
            lo, hi = (self.ab(z) for z in count_loop(I, RL, i.args[1]))
            ob(True if lo is C(0) else self.known(lo), 'the ranges visited start from %s' % show(lo, 3), RL.loc)
            ob(True if hi in (NS, mk('size', Sa)) else self.known(hi), 'the ranges visited are those up to %s' % show(hi, 3)[:100], RL.loc)
        elif Ra.op == 'elem' and Ra.args[0] == RL.id:
            Sa, i = self.ab(Ra.args[1]), None
        else:
            raise LookupError('range of terms %s' % show(Ra, 4)[:120])
        da = self.segmentation(Sa, sa.src)
        if Rb.op == 'idx':
            Sb, j = Rb.args
            db = self.segmentation(Sb, sb.src)
            if i is None:
                raise LookupError('ranges of terms combined')
            want = ite(lt(seg, i), add(sub(NS, i), seg), sub(seg, i))
            if j is not want:
                self.index(j, want, seg, i, e)
            else:
                ob(True)
            for S, d in ((Sa, da), (Sb, db)):
                if not d:
                    z = eq(mk('size', S), NS)
                    k = z in [y for g in outer for y in conj(g)] or logic.implies(land(*outer), z)
                    mine = [g for g in outer if any(y is mk('size', S) for y in subterms(g))]
                    ob(True if k else False if all(self.vocab(g) for g in mine) else None, 'ranges are used by position although those without terms may have been left out', e.loc)
        elif Rb.op == 'deref' and call_(Rb.args[0], 'lower_bound'):
            found = self.search(e, Rb.args[0], Ra, sb, seg, RL, exits)
            inner = [z for z in inner if z not in found]
        else:
            raise LookupError('range of terms %s' % show(Rb, 4)[:120])
        lim_ = {A.id, B.id}
        for L, c in exits:
            own = any(y.op == 'lv' and y.args[0] in lim_ for y in subterms(c)) if L in (A, B) else True
            parts = c.args if c.op == 'or' else [c]
            none = L is RL and self.notfound and all(any(same_order(z, y) for y in self.notfound) for z in parts)
            ob(False if none or (self.kind == 'mul' and own or L is RL) and self.vocab(c) else None, 'the iteration over the terms stops if %s' % show(c, 4)[:150], L.loc)
            inner = [z for z in inner if z not in set(map(lnot, conj(c)))]
        for z in inner:
            skip = any(y.op == 'lv' and y.args[0] in lim_ for y in subterms(z)) and all(y.op in ('lv', 'c', 'mod', 'band', 'lin', 'eq', 'lt', 'not') for y in subterms(z))
            ob(False if skip else None, 'terms are multiplied only if %s' % show(z, 4)[:150], e.loc)
        self.insertion(e, tuple(cl(k).args[0] for k in e.args[1:3]))
        t = self.ab(self.table) if getattr(self, 'table', None) is not None else None
        ob(True if t is not None and t.op == 'idx' and t.args[1] is seg else self.known(t.args[1]) if t is not None and t.op == 'idx' else None, 'the product is added to the segment %s' % (show(t, 3)[:100] if t is not None else '?'), e.loc)
        self.overflow(e, (sa, sb), [truth(cl(I.rewrite(z))) for z in e.guards])
        self.zeros_of(e, seg, SG)
        est = lambda z: (z.args[0] if z.op == 'not' else z)
        rest = [z for z in outer if z not in self.throwlits and not any(y.op == 'ex' for y in subterms(z)) and not any(
            y.op == 'call' and base(y.args[0]) == 'hx::monomial_range_overflow_check' for y in subterms(z))]
        if self.kind != 'mul':
            rest = [z for z in rest if not (call_(est(z), 'is_zero') and any(call_(y, 'poly_mul_estimate_product_size') for y in subterms(z)))]
        self.cover.append(land(*rest))

    def task(self, TK_, SG):
        I, ob = self.I, self.ob
        if TK_.kind != 'cb' or not str(TK_.q).endswith('parallel_for'):
            raise LookupError('tasks')
        br = self.ab([z for z in TK_.range.args if isinstance(z, T)][0])
        if not (br.op == 'ctor' and 'blocked_range' in str(br.args[0]) and len(br.args) >= 3):
            raise LookupError('tasks over %s' % show(br, 3)[:100])
        lo, hi = br.args[1:3]
        ob(True if lo is C(0) else self.known(lo), 'the segments computed start from %s' % show(lo, 3), TK_.loc)
        ob(True if hi is NS else self.known(hi), 'the segments computed are those up to %s' % show(hi, 3)[:100], TK_.loc)
        for k in SG.step:
            st = SG.step[k]
            if isinstance(st, T) and SG.cond is not None and mk('lv', SG.id, k) in set(subterms(SG.cond)):
                lo, hi = (self.ab(z) for z in count_loop(I, SG, k))
                a = call_(lo, 'begin') and lo.args[1].op == 'cbarg' and lo.args[1].args[0] == TK_.id
                b = call_(hi, 'end') and hi.args[1].op == 'cbarg' and hi.args[1].args[0] == TK_.id
                un = next((z for z in subterms(lo) if call_(z, 'begin')), None)
                ob(True if a else False if un is not None and sub(lo, un).op == 'c' else None, 'a task computes the segments from %s' % show(lo, 3)[:80], SG.loc)
                un = next((z for z in subterms(hi) if call_(z, 'end')), None)
                ob(True if b else False if un is not None and sub(hi, un).op == 'c' else None, 'a task computes the segments up to %s' % show(hi, 3)[:80], SG.loc)
                return mk('lv', SG.id, k)
        raise LookupError('segments of a task')

    def index(self, j, want, seg, i, e):
        """The position of the second range."""
        f = lambda t: subst(t, lambda z: mk('p', 'segment') if z is seg else mk('p', 'i') if z is i else None)
        g, w = f(j), f(want)
        if not self.vocab(g):
            self.ob(None, 'the second range is the one at %s' % show(j, 4)[:150], e.loc)
            return
        # The expressions are piecewise linear with unit slopes, modulo the number of segments: a few numbers of segments have all the cases.
        S_, I_ = mk('p', 'segment'), mk('p', 'i')
        for n in (1, 2, 4, 8, 16):
            for a in range(n):
                for b in range(n):
                    v = value(g, {NS: n, S_: a, I_: b})
                    if v is None:
                        self.ob(None, 'the second range is the one at %s' % show(j, 4)[:150], e.loc)
                        return
                    if v != (a - b) % n:
                        self.ob(False, 'the second range is the one at %s: with %d segments, %d for the segment %d of the result and the range %d of the first factor' % (
                            show(g, 4)[:150], n, v, a, b), e.loc)
                        return
        self.ob(True)

    def search(self, e, it, Ra, sb, seg, RL, exits):
        """The range with which another one is combined is looked up by its segment."""
        I, ob = self.I, self.ob
        first, last, val = it.args[1:4]
        if first.op != 'begin':
            y = [z for z in subterms(first) if z.op == 'begin']
            if y and sub(first, y[0]).op == 'c':
                raise Partial(RL.loc, 'the first ranges are not searched')
            raise LookupError('range searched from %s' % show(first, 3)[:100])
        Sb = first.args[0]
        self.segmentation(Sb, sb.src)
        bi = mk('idx', Ra, C(2))
        past = lt(seg, bi)
        # Variables carried from one range to the next.
        carried = {z.args[1]: z for t in (last, val) for z in subterms(t) if z.op == 'lv' and z.args[0] == RL.id and not (Ra.op == 'idx' and Ra.args[1] is z)}
        flags, ends = [], []
        for k, z in carried.items():
            i0 = self.ab(RL.init[k])
            if i0 in (TRUE, FALSE) or i0 in (C(0), C(1)) and truth(z) in set(subterms(last)) | set(subterms(val)):
                flags.append((k, z, i0))
            else:
                ends.append((k, z, i0))
        if len(flags) > 1 or len(ends) > 1:
            raise LookupError('variables carried over')
        W = flags[0] if flags else None
        wv = [W[1], truth(W[1])] if W else []

        def case(t, w, p):
            """Value for a ramification: flag set, segment already passed."""
            def f(z):
                if z in wv:
                    return TRUE if w else FALSE
                if z is past:
                    return TRUE if p else FALSE
                return None
            return self.simp(subst(t, f))
        CASES = ((False, False), (False, True), (True, True))
        if W:
            ob(True if W[2] in (FALSE, C(0)) else False, 'segments are supposed to have been passed before the first range', RL.loc)
            st = truth(self.ab(RL.step[W[0]]))
            for w, p in CASES:
                v = truth(case(st, w, p))
                ob((v is TRUE) == p if v in (TRUE, FALSE) else None, 'whether the segment has been passed becomes %s' % show(v, 4)[:100], RL.loc)
        for w, p in CASES:
            v = case(val, w, p)
            want = add(seg, NS) if p else seg
            ob(True if v is want else self.known(v), 'the numbers of the two segments have to add up to %s where %s is required' % (show(v, 4)[:80], show(want, 3)), e.loc)
            v = case(last, w, p)
            okk = {mk('end', Sb)} | ({ends[0][1]} if ends and (w == p) else set())
            ob(True if v in okk else False if ends and v is ends[0][1] else self.known(v), 'the search stops at %s%s' % (
                show(v, 3)[:80], ' although the one of the segments before has nothing to do with it' if ends and v is ends[0][1] else ''), e.loc)
        if ends:
            k, z, i0 = ends[0]
            ob(True if i0 is mk('end', Sb) else self.known(i0), 'the first search stops at %s' % show(i0, 3)[:80], RL.loc)
            for v in leaves(self.simp(self.ab(RL.step[k]))):
                ob(True if v in (it, mk('end', Sb), z) or v is last or v in leaves(last) else self.known(v), 'the next search stops at %s' % show(v, 3)[:80], RL.loc)
        Lc = self.calls_('lower_bound', RL.id, it.args[1:])
        r = self.ab(Lc[0].result)
        el = [z for z in subterms(r) if z.op == 'cbarg' and z.args[1] == 0]
        vl = [z for z in subterms(r) if z.op == 'cbarg' and z.args[1] == 1]
        ok = el and vl and same_order(r, lt(add(mk('idx', el[0], C(2)), bi), vl[0]))
        ob(True if ok else self.known(r), 'ranges are searched by %s' % show(r, 4)[:120], Lc[0].loc)
        # The range found is the right one.
        sumeq = eq(val, add(bi, mk('idx', mk('deref', it), C(2))))
        gs = [truth(self.ab(I.rewrite(z))) for z in e.guards]
        here = eq(it, last)
        self.notfound = [here, lnot(sumeq)]
        ok = sumeq in gs or any(same_order(z, sumeq) for z in gs)
        ob(True if ok else None if any(z is it for g in gs for y in subterms(g) if y.op == 'idx' and y.args[1] is C(2) for z in subterms(y)) else False,
           'a range is used although its segment is not the one searched', e.loc)
        ob(True if lnot(here) in gs else None if any(here in set(subterms(g)) for g in gs) else False, 'a range is used although none has been found', e.loc)
        drop = [z for z in gs if z is sumeq or z is lnot(here) or same_order(z, sumeq)]
        return drop

    def simp(self, t):
        """Conditions decided by the case are removed."""
        def f(z):
            if z.op == 'ite':
                c = truth(subst(z.args[0], f))
                c = self.boole(c)
                if c is TRUE:
                    return subst(z.args[1], f)
                if c is FALSE:
                    return subst(z.args[2], f)
            if z.op in ('and', 'or', 'not'):
                return self.boole(z)
            return None
        return subst(t, f)

    def boole(self, c):
        if c.op == 'not':
            return lnot(self.boole(c.args[0]))
        if c.op == 'and':
            return land(*map(self.boole, c.args))
        if c.op == 'or':
            return lor(*map(self.boole, c.args))
        return c

    def limit(self, e, bhi, Rb, sa, sb, A, B):
        I, ob = self.I, self.ob
        u, b = diff_(bhi)
        if not call_(u, 'upper_bound') or b.op != 'begin':
            raise LookupError('the terms visited are those up to %s' % show(bhi, 4)[:150])
        D = b.args[0]
        d = self.S.seq(D)
        if d.expr is not self.DEG:
            raise LookupError('search among %s' % show(d.expr, 3)[:80])
        if d.src is not sb.src:
            raise Partial(B.loc, 'the last term is searched among the degrees of another series')
        if d.perm is not sb.perm:
            raise Partial(B.loc, 'the last term is searched among degrees in another order')
        lo, hi = (sub(self.ab(z), mk('begin', D)) for z in u.args[1:3])
        ob(True if lo is mk('idx', Rb, C(0)) else self.known(lo), 'the last term is searched from %s' % show(lo, 3)[:80], B.loc)
        ob(True if hi is mk('idx', Rb, C(1)) else self.known(hi), 'the last term is searched up to %s' % show(hi, 3)[:80], B.loc)
        if u.args[3] is not self.lim:
            raise LookupError('limit')
        Lc = self.calls_('upper_bound', A.id, u.args[1:])
        r = self.ab(Lc[0].result)
        cb = mk('cbel', Lc[0].id)
        r = subst(r, lambda z: (self.lim if z.args[1] == 0 else cb) if z.op == 'cbarg' and z.args[0] == Lc[0].id else None)
        ix = [k for k in A.step if A.cond is not None and mk('lv', A.id, k) in set(subterms(A.cond))]
        i1 = mk('lv', A.id, ix[0]) if ix else None
        ok = self.fits(r, [lambda z: self.deg_at(z, sa, i1), lambda z: z is cb])
        ob(True if ok else False if ok is False or self.degs_known(r) else None, 'the terms visited end where %s' % show(r, 4)[:150], B.loc)
        k, why = self.sorted_by_degree(sb, B.loc)
        ob(k, 'the search of the last term: ' + why, B.loc)

    def zeros_of(self, e, seg, SG):
        I, ob = self.I, self.ob
        er = [x for x in I.trace if x.kind == 'call' and x.i > e.i and re.search(r'flat_map::erase$|erase_if$', base(str(x.q))) and x.loops[:2] == e.loops[:2]]
        if not er:
            ob(False, 'terms whose coefficient is zero are left in the result', e.loc)
            return
        for x in er:
            if len(x.loops) != 3 or len(x.args) != 2:
                ob(None, 'removal of terms', x.loc)
                continue
            L = I.loops[x.loops[2]]
            it = self.ab(x.args[1])
            if it.op != 'lv' or it.args[0] != L.id:
                ob(None, 'the term removed is %s' % show(it, 3)[:100], x.loc)
                continue
            k = it.args[1]
            i0, c = self.ab(L.init[k]), truth(self.ab(L.cond))
            tab = i0.args[-1] if i0.op == 'begin' or is_call(i0, 'begin') else None
            en = [z for z in c.args[0].args if z is not it] if c.op == 'not' and c.args[0].op == 'eq' and it in c.args[0].args else []
            full = tab is not None and en and (en[0].op == 'end' or is_call(en[0], 'end'))
            first = i0.op == 'lin' and any(z.op == 'begin' or is_call(z, 'begin') for z in subterms(i0))
            ob(True if full else False if first else None, 'the terms tested run from %s while %s' % (show(i0, 3)[:80], show(c, 3)[:80]), L.loc)
            ob(True if tab is not None and tab.op == 'idx' and tab.args[1] is seg else None, 'the table tested', L.loc)
            st = leaves(L.step[k]) if L.step.get(k) is not None else []
            ob(True if st and all(cl(z) is add(it, C(1)) for z in st) else False if any(cl(z) is add(it, C(2)) for z in st) else None, 'the iterator advances by one', L.loc)
            lits = [truth(cl(I.rewrite(g))) for g in x.guards]
            mine = [boolz(z) for z in lits if any(y is it for y in subterms(z)) and truth(self.ab(z)) is not c]
            want = mk('call', 'hx::is_zero', mk('fld', mk('deref', it), 'second'))
            ok = len(mine) == 1 and mine[0] is want
            rev = len(mine) == 1 and mine[0] is lnot(want) or not mine
            ob(True if ok else False if rev else None, 'a term is removed if %s' % show(land(*mine), 4)[:120], x.loc)
            ex = [cc for cc, kind in L.exits if kind != 'throw' and truth(cl(cc)) is not FALSE]
            ob(True if not ex else False, 'the removal stops early', L.loc)


def parallel(cx, kinds):
    """The parallel algorithm, for the products of these kinds."""
    P = cx.progs['poly.cpp']
    n = {'mul': 3, 'tmul': 4, 'tpmul': 5}
    fs = [f for f in P.find(FUN) if f.get('body') is not None]
    for q in kinds:
        mine = [f for f in fs if len(f['params']) == n[q]]
        if not mine:
            cx.ob(None, 'parallel ' + KW[q], FUN, '', 'the function is not there')
        for f in mine:
            with cx.item('parallel ' + KW[q]):
                Par(cx, P, f, q).run()
