"""Polynomial values: chains of public operations on series read as sums of terms over the terms of the operands."""
from .rlib import *
from .series import Partial
from . import logic

OPS = (r'obake::series::(add_term|series|~series|operator=|set_symbol_set|set_symbol_set_fw|set_n_segments|reserve|clear_terms|clear|size|empty|'
       r'get_symbol_set|get_symbol_set_fw|get_s_size|begin|end|cbegin|cend|swap)$|obake::(operator[-+*/]=?|filter|filtered|swap)$|^hx::|'
       r'obake::detail::(merge_symbol_sets|ss_intersect_idx|sm_intersect_idx|series_sym_extender)$|obake::safe_cast')
_OPS = re.compile(OPS)


def stops_poly(q, n):
    return bool(_OPS.search(q))


def base(q):
    """Qualified name without template arguments."""
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == '<' and not q[:i].endswith('operator') and not q[:i].endswith('operator<'):
            d += 1
        elif c == '>' and d:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def called(t, *names):
    return isinstance(t, T) and t.op == 'call' and base(t.args[0]) in names


def deref_(t):
    while t.op == 'deref' and t.args[0].op == 'ref':
        t = t.args[0].args[0]
    return t


class Part:
    """num / den * key, for every term of the loops, under the conditions."""

    def __init__(self, num=(), den=(), neg=False, key=None, loops=(), conds=(), whole=None, loc=''):
        self.num, self.den, self.neg, self.key = tuple(num), tuple(den), neg, key
        self.loops, self.conds, self.whole = tuple(loops), tuple(conds), whole

    def but(self, **kw):
        d = dict(num=self.num, den=self.den, neg=self.neg, key=self.key, loops=self.loops, conds=self.conds, whole=self.whole)
        d.update(kw)
        return Part(**d)

    def __repr__(self):
        s = '-' if self.neg else ''
        s += '*'.join(show(x, 5) for x in self.num) or '1'
        for x in self.den:
            s += '/' + show(x, 5)
        s += ' [%s]' % (show(self.key, 5) if self.key is not None else show(self.whole, 4))
        if self.conds:
            s += ' if ' + show(land(*self.conds), 4)
        return s


class Poly:
    def __init__(self, ss=None, parts=(), src=None):
        self.ss, self.parts = ss, list(parts)


EMPTY = mk('emptyss')


class Reader:
    def __init__(self, I, series=()):
        self.I = I
        self.series = set(series)     # terms known to be series operands
        self.memo = {}

    # ---- symbol sets
    def ssof(self, t):
        """The symbol set of a series value."""
        while t.op in ('ref', 'deref') and t.args and isinstance(t.args[0], T):
            t = t.args[0]
        try:
            v = self.value(t)
            if v.ss is not None:
                return v.ss
        except LookupError:
            pass
        return mk('SS', t)

    def ss(self, t):
        """The symbol set a handle or set stands for."""
        t = deref_(t)
        if t.op in ('conv', 'cast'):
            return self.ss(t.args[1])
        if called(t, 'obake::series::get_symbol_set', 'obake::series::get_symbol_set_fw'):
            return self.ssof(t.args[1])
        if t.op == 'ctor' and ('flyweight' in str(t.args[0]) or 'flat_set' in str(t.args[0])) and len(t.args) == 2 and isinstance(t.args[1], T):
            a = deref_(t.args[1])
            if a.op != 'agg':
                return self.ss(a)
        if t.op == 'call' and base(t.args[0]).endswith('flyweight::get'):
            return self.ss(t.args[1])
        return t

    def norm(self, t):
        """Symbol sets in normal form inside a term."""
        def f(x):
            x0 = x
            x = deref_(x)
            if called(x, 'obake::series::get_symbol_set', 'obake::series::get_symbol_set_fw'):
                return self.ssof(x.args[1])
            return self.norm(x) if x is not x0 else None
        return clean_(subst(t, f))

    # ---- scalars
    def factors(self, t):
        """(numerators, denominators, negated) of a product of scalars; a zero is None."""
        t = strip_ctor(t)
        if t.op == 'c':
            if t.args[0] == 0:
                return None
            if t.args[0] == 1:
                return (), (), False
            if t.args[0] == -1:
                return (), (), True
            return (t,), (), False
        if t.op == 'call' and len(t.args) == 3:
            b = base(t.args[0])
            if b.endswith('::operator*') or b.endswith('::operator/'):
                x, y = self.factors(t.args[1]), self.factors(t.args[2])
                if x is None:
                    return None
                if y is None:
                    if b.endswith('*'):
                        return None
                    raise LookupError('division by zero')
                if b.endswith('*'):
                    return x[0] + y[0], x[1] + y[1], x[2] != y[2]
                return x[0] + y[1], x[1] + y[0], x[2] != y[2]
        return (t,), (), False

    # ---- polynomials
    def value(self, t):
        if t in self.memo:
            v = self.memo[t]
            if v is None:
                raise LookupError('recursive value')
            if isinstance(v, LookupError):
                raise v
            return v
        self.memo[t] = None
        try:
            v = self.value0(t)
        except LookupError as e:
            self.memo[t] = e
            raise
        self.memo[t] = v
        return v

    def is_series(self, t):
        try:
            self.value(t)
            return True
        except LookupError:
            return False

    def value0(self, t):
        I = self.I
        if t.op == 'deref' and t.args[0].op == 'ref':
            return self.value(t.args[0].args[0])
        if t in self.series:
            return Poly(mk('SS', t), [Part(whole=t)])
        if t.op == 'ctor' and 'obake::series<' in str(t.args[0]):
            a = [x for x in t.args[1:] if isinstance(x, T)]
            if not a:
                return Poly(EMPTY, [])
            if len(a) == 1:
                if self.is_series(a[0]):
                    return self.value(a[0])
                f = self.factors(a[0])
                return Poly(EMPTY, [] if f is None else [Part(f[0], f[1], f[2], key=mk('UNIT'))])
        if t.op in ('conv', 'cast', 'moved', 'copy') and isinstance(t.args[-1], T):
            return self.value(t.args[-1])
        if t.op == 'with' and str(t.args[2]) == 'm_tag':
            return self.value(t.args[0])
        if t.op == 'upd' and t.args[1] == 0:
            b, x, rest = base(t.args[0]), t.args[2], t.args[3:]
            n = b.rsplit('::', 1)[-1]
            if b in ('obake::series::set_symbol_set', 'obake::series::set_symbol_set_fw'):
                v = self.value(x)
                if v.parts:
                    raise LookupError('symbol set of a series with terms')
                return Poly(self.ss(rest[0]), [])
            if b in ('obake::series::reserve', 'obake::series::set_n_segments'):
                return self.value(x)
            if b == 'obake::series::clear_terms':
                return Poly(self.value(x).ss, [])
            if b == 'obake::series::add_term':
                v = self.value(x)
                f = self.factors(rest[1]) if len(rest) == 2 else ((mk('ctor', *rest[1:]),), (), False)
                if f is None:
                    return v
                return Poly(v.ss, v.parts + [Part(f[0], f[1], f[2] != ('add_term<false' in t.args[0]), key=rest[0])])
            if b in ('obake::operator+=', 'obake::operator-='):
                return self.plus(self.value(x), self.value(rest[0]), b.endswith('-='))
            if b in ('obake::operator*=', 'obake::operator/='):
                return self.scale(self.value(x), rest[0], b.endswith('/='))
            if b == 'obake::detail::series_sym_extender':
                v = self.value(x)
                if v.parts:
                    raise LookupError('series extended into one with terms')
                w = self.value(rest[0])
                return Poly(v.ss, [Part(whole=mk('extended', rest[0], self.norm(rest[1]), v.ss))])
        if t.op == 'call' and len(t.args) == 3:
            b = base(t.args[0])
            if b in ('obake::operator+', 'obake::operator-'):
                return self.plus(self.value(t.args[1]), self.value(t.args[2]), b.endswith('-'))
            if b == 'obake::operator*':
                x, y = t.args[1:]
                sx, sy = self.is_series(x), self.is_series(y)
                if sx and sy:
                    raise LookupError('product of series')
                if sy:
                    return self.scale(self.value(y), x, False)
                if sx:
                    return self.scale(self.value(x), y, False)
            if b == 'obake::operator/':
                return self.scale(self.value(t.args[1]), t.args[2], True)
        if t.op == 'ite':
            c, a, b = t.args
            va, vb = self.value(a), self.value(b)
            if va.ss is not vb.ss and EMPTY not in (va.ss, vb.ss):
                raise LookupError('symbol sets differ')
            common = [x for x in va.parts if any(x is y for y in vb.parts)]
            return Poly(va.ss if vb.ss is EMPTY else vb.ss,
                        common + [x.but(conds=x.conds + (c,)) for x in va.parts if not any(x is y for y in common)] +
                        [x.but(conds=x.conds + (lnot(c),)) for x in vb.parts if not any(x is y for y in common)])
        if t.op == 'lv':
            L = I.loops[t.args[0]]
            if t.args[1] not in L.init:
                raise LookupError('loop value')
            v = self.value(L.init[t.args[1]])
            st = L.step.get(t.args[1])
            if not v.parts and st is not None:
                # Emptied before the end of every iteration.
                self.memo[t] = Poly(v.ss, [Part(whole=t)])
                try:
                    if not Reader(I, self.series | {t}).value(clean_(st)).parts:
                        return Poly(v.ss, [])
                except LookupError:
                    pass
            return Poly(v.ss, [Part(whole=t)])
        if t.op == 'lx':
            L = I.loops[t.args[0]]
            k = t.args[1]
            if k not in L.init or k not in L.step:
                raise LookupError('loop value')
            v = self.value(L.init[k])
            lv = mk('lv', L.id, k)
            w = self.value(clean_(L.step[k]))
            own = [x for x in w.parts if x.whole is lv]
            if own and (any(x.num or x.den or x.neg for x in own)):
                raise LookupError('the sum is scaled in the loop')
            if not own:
                raise Partial(L.loc, 'only the last term is kept')
            c = lor(*[land(*x.conds) for x in own])
            if logic.equiv(c, TRUE) is not True:
                raise LookupError('the sum is discarded if %s' % show(lnot(c), 4)[:120])
            r = [x for x in w.parts if x.whole is not lv]
            for x in r:
                if x.whole is not None and x.whole.op == 'lv' and x.whole.args[0] == L.id:
                    raise Partial(L.loc, 'the contribution of a term includes what is left of the previous ones')
            if any(y.op == 'lv' and y.args[0] == L.id and y.args[1] in L.step and self.lvs(y) for x in r for z in x.num + x.den + ((x.key,) if x.key is not None else (x.whole,))
                   for y in subterms(z)):
                raise LookupError('values carried from one iteration to the next')
            if L.exits and any(g is not FALSE and kind != 'throw' for g, kind in L.exits):
                raise Partial(L.loc, 'some of the terms are skipped')
            return Poly(w.ss if v.ss is EMPTY else v.ss, v.parts + [x.but(loops=(L.id,) + x.loops) for x in r])
        raise LookupError('series %s' % show(t, 4)[:150])

    def lvs(self, y):
        try:
            self.value(y)
            return True
        except LookupError:
            return False

    def plus(self, a, b, neg):
        ss = a.ss if b.ss is EMPTY or b.ss is a.ss else b.ss if a.ss is EMPTY else mk('union', a.ss, b.ss)
        return Poly(ss, a.parts + [x.but(neg=x.neg != neg) for x in b.parts])

    def scale(self, v, c, div):
        f = self.factors(c)
        if f is None:
            if div:
                raise LookupError('division by zero')
            return Poly(v.ss, [])
        n, d = (f[1], f[0]) if div else (f[0], f[1])
        return Poly(v.ss, [x.but(num=x.num + n, den=x.den + d, neg=x.neg != f[2]) for x in v.parts])

    # ---- terms of the operand
    def over(self, part, x):
        """The part with the current term of x as TERM."""
        from .rules.r_series7 import terms_of
        loops = []
        m = {}

        def walk(t):
            for y in subterms(t):
                if y.op in ('elem', 'deref') and y not in m:
                    try:
                        L, n = terms_of(self.I, y, x)
                    except LookupError:
                        continue
                    if n:
                        raise Partial(L.loc, 'the first terms are skipped')
                    m[y] = L.id
        for t in part.num + part.den + tuple(part.conds) + ((part.key,) if part.key is not None else ()):
            walk(t)
        for l in part.loops:
            L = self.I.loops[l]
            if L.kind == 'rfor' and L.range is x:
                m[mk('elem', L.id, x)] = L.id
        ids = set(m.values())
        if len(part.loops) != 1 or ids != set(part.loops):
            raise LookupError('terms visited')
        f = lambda t: self.norm(subst(t, lambda y: TERM if y in m else None))
        return Part(sorted(map(f, part.num), key=lambda t: show(t, 6)), sorted(map(f, part.den), key=lambda t: show(t, 6)), part.neg,
                    f(part.key) if part.key is not None else None, part.loops, [f(c) for c in part.conds], part.whole)


TERM = mk('TERM')
TK, TC = mk('fld', TERM, 'first'), mk('fld', TERM, 'second')


def strip_ctor(t):
    t = deref_(t)
    while t.op == 'ctor' and len(t.args) == 2 and isinstance(t.args[1], T) or t.op in ('cast', 'conv'):
        t = deref_(t.args[1])
    return t


def clean_(t):
    from .series import clean
    return clean(t)
