"""Packed and dynamic packed monomials: operations over the exponents, read as scans over positions."""
from ..rlib import *
from .. import fold as _fold
from ..scan import *
from ..rlib import strip_size as strip_cast
from . import rule

p = lambda n: mk('p', n)
STOP = re.compile(r'obake::(kpacker|kunpacker)::|obake::detail::safe_(cast_impl|int_add|int_sub)|obake::detail::kpack_get')
BITS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False)}
PUSH1 = re.compile(r'(kpacker::operator<<|::push_back|::emplace_back)$')


def kstops(q, n):
    return bool(STOP.match(q))


def stops(q, n):
    return bool(STOP.match(q)) or q.endswith('d_packed_monomial::d_packed_monomial') and len(n.get('a', ())) >= 1


def leaves(t):
    """The quantities a condition or value is built from."""
    out = set()

    def val(x):
        _, d = logic.tm_lin(x)
        for k in d:
            if k.op == 'ite':
                go(k.args[0]); val(k.args[1]); val(k.args[2])
            else:
                out.add(k)

    def go(x):
        if x.op in ('and', 'or', 'not') or x.op == 'ite' and any(y.op in BOOL_OPS for y in x.args[1:]):
            for y in x.args:
                go(y)
        elif x.op in ('lt', 'eq'):
            for y in x.args:
                val(y)
        elif x.op != 'b':
            val(x)
    go(t)
    return out


class M:
    """One monomial operation, analysed."""

    def __init__(self, cx, P, f, what, m='m', ss='ss', **kw):
        self.cx, self.P, self.f = cx, P, f
        ta = f['ta']
        x = re.search(r'(d_)?packed_monomial<([a-z ]+)(?:, (\d+))?>', ta)
        self.d = bool(x.group(1))
        self.T = x.group(2)
        self.psize = int(x.group(3)) if self.d else None
        self.bits, self.signed = BITS[self.T]
        self.what = '%s of %s' % (what, x.group(0))
        self.m, self.ss = p(m), p(ss)
        kw.setdefault('stops', stops)
        self.I = cx.analyse(P, f, exact=True, **kw)
        self.loc = ret_loc_of(self.I, P, f)
        self.n = size(self.ss)
        self.nonneg = {IDX, J, self.n} | (set() if self.signed else {E})

    def scans(self, m=None):
        return exponent_scans(self.I, m or self.m, self.psize)

    def scan(self, m=None):
        s = self.scans(m)
        if len(s) != 1:
            raise LookupError('%d scans over the exponents' % len(s))
        F = s[0]
        if F.idx is None and not F.its and not (F.L.kind == 'rfor' and not self.d):
            raise LookupError('no position counter')
        if self.d and F.jkey is None:
            raise LookupError('no counter inside the block')
        return F

    def ob(self, ok, rule, loc='', detail=''):
        return self.cx.ob(ok, rule, self.what, loc or self.loc, detail)

    def cond(self, rule, loc, got, want, assume=TRUE, what='condition', extra=()):
        got, want, assume = [tidy(x) for x in (got, want, assume)]
        r = logic.equiv(got, want, assume, self.nonneg)
        if r is False and not leaves(got) <= leaves(want) | leaves(assume) | set(extra) | {IDX, J, E, self.n}:
            r = None
        return self.cx.ob(r, rule, self.what, loc, '' if r else '%s is %s where %s is required' % (
            what, show(got, 8)[:300], show(want, 8)[:300]))

    def pick(self, rule, loc, t, wants, assume=TRUE, what='value', extra=(), eqv=None):
        """Under each wanted condition the value is the wanted one."""
        bad = unk = None
        for v, c in cases(tidy(t)):
            for w, wc in wants:
                if v is w or (eqv and eqv(v, w)):
                    continue
                g = land(c, tidy(wc), tidy(assume))
                s = logic.sat(g, TRUE, self.nonneg)
                if s is False:
                    continue
                if v.op not in BOOL_OPS and self.mod(v) is self.mod(w):
                    continue
                if s and _fold.differ(v, w, self.bits, True, False) is not None and leaves(c) <= leaves(land(wc, assume)) | set(extra) | {IDX, J, E, self.n}:
                    bad = (v, w, g)
                else:
                    unk = (v, w, g)
        x = bad or unk
        return self.cx.ob(False if bad else None if unk else True, rule, self.what, loc, '' if x is None else
                          '%s is %s where %s is required, if %s' % (what, show(x[0], 6)[:200], show(x[1], 6)[:200], show(x[2], 6)[:300]))

    def exits(self, F, eff, stop, extra):
        """No position is skipped by leaving the loop early."""
        for L in (F.L, F.P):
            for g, kind in (L.exits if L is not None else ()):
                g = tidy(F.norm(g))
                if logic.sat(land(g, eff)) is not False:
                    known = stop is None and leaves(g) <= leaves(eff) | set(extra) | {IDX, J, E, self.n}
                    self.ob(False if known else None, 'every-exponent', L.loc, 'the exponents are not read any more once %s' % show(g, 6)[:200])

    def mod(self, t):
        return _fold.canon(t, self.bits)

    def check_scan(self, F, stop=None, n=None, extra=()):
        """Every exponent is read, in order; returns the condition under which a position is visited."""
        n = n or self.n
        want_n = C(self.psize) if self.d else n if strip_cast(F.n) is n else self.n
        loc = F.exev.loc
        self.cx.same('unpacker-size', self.what, loc, strip_cast(F.n), want_n, what='number of exponents unpacked')
        eff = tidy(land(F.cond(), F.guard(F.exev)))
        full = lt(IDX, n)
        if self.d:
            full = land(lt(J, C(self.psize)), full)
        self.exits(F, eff, stop, extra)
        if stop is not None and logic.equiv(eff, land(full, tidy(stop))) is True:
            self.ob(True, 'every-exponent', loc)
            return eff
        self.cond('every-exponent', loc, eff, full, what='condition for going on', extra=set(extra))
        if self.d:
            cont = F.P.range if F.P.kind == 'rfor' else None
            self.ob(True if cont is mk('fld', F.mono, 'm_container') else None, 'every-block', F.P.loc, 'blocks visited not recognised')
        return eff


def tidy(t):
    """Casts between integers dropped; position counters never pass their bound."""
    def f(x):
        if x.op == 'cast':
            return tidy(x.args[1])
        if x.op == 'eq':
            a, b = x.args
            for u, v in ((a, b), (b, a)):
                if u is IDX and v.op == 'size':
                    return lnot(lt(IDX, v))
                if u is J and cval(v) is not None and cval(v) > 0:
                    return lnot(lt(J, v))
        return None
    r = subst(t, f)
    return truth(r) if r.op in BOOL_OPS else r


def ret_loc_of(I, P, f):
    for e in reversed(I.trace):
        if e.loc and not e.loc.startswith('/verif'):
            return e.loc
    return P.loc(f)


def each(cx, P, fn, what, body, n=8, pred=None, **kw):
    for f in cx.entry(P, 'hx::' + fn, n, pred=pred):
        w = '%s of %s' % (what, re.sub(r'.*?((d_)?packed_monomial<.*)>$', r'\1', f['ta']))
        with cx.item(w):
            body(M(cx, P, f, what, **kw))


def walker(mm, F, s, first=False):
    """The iterator walking the sorted positions of s: (key, current, hit condition)."""
    ks = [k for k in F.raw if beginning(F.init(k)) is s and k not in F.its]
    if not ks:
        here = [F.step(k) for k in F.raw] + [F.guard(e) for e in mm.I.trace if F.L.id in e.loops]
        if any(contains(t, lambda x: x.op == 'deref' and beginning(x.args[0]) is s or x.op == 'at' and x.args[0] is s and cval(x.args[1]) == 0) for t in here):
            mm.ob(False, 'walk', F.L.loc, 'every position is compared with the first listed one only')
    if len(ks) != 1:
        raise LookupError('no single iterator over the positions')
    k = ks[0]
    W = mk('cur', F.names[k])
    end = next((x for t in [F.step(k), F.cond()] for x in subterms(t) if ending(x) is s), None)
    if end is None:
        end = next((x for e in mm.I.trace if e.res is not None for x in [e.res] if ending(x) is s), mk('END', s))
    pos = mk('deref', W)
    if first:
        pos = mk('fld', pos, 'first')
    return k, W, land(lnot(eq(end, W)), eq(IDX, pos)), lnot(eq(end, W)), end


def check_walker(mm, F, k, W, hit, eff):
    mm.pick('walk', F.L.loc, F.step(k), [(add(W, C(1)), hit), (W, lnot(hit))], eff, what='next listed position', extra=leaves(hit))


def acc_of(mm, F):
    """The accumulator the result is read from."""
    r = F.norm(mm.I.ret)
    while r.op in ('cast', 'conv'):
        r = r.args[1]
    if r.op != 'fin':
        raise LookupError('result %s' % show(r, 5)[:200])
    return F.var(r.args[0]), mk('cur', r.args[0])


def sum_eq(mm, a):
    """Sums of the accumulator and the exponent: wrapping for one code, checked otherwise."""
    def f(v, w):
        if w is add(a, E) and v.op == 'call' and str(v.args[0]).startswith('obake::detail::safe_int_add') and set(v.args[1:]) == {a, E}:
            return True
        return False
    return f


def degree(mm, partial):
    F = mm.scan()
    k, a = acc_of(mm, F)
    ini = F.init(k)
    mm.cx.same('zero', mm.what, F.L.loc, strip_cast(ini), C(0), what='initial degree')
    if partial:
        wk, W, hit, more, end = walker(mm, F, p('si'))
        eff = mm.check_scan(F, more, None, leaves(hit))
        check_walker(mm, F, wk, W, hit, eff)
    else:
        eff, hit = mm.check_scan(F), TRUE
    st = F.step(k)
    if mm.d:
        plain = [v for v, c in cases(tidy(st)) if v is add(a, E)]
        mm.ob(False if plain else True, 'checked-sum', F.L.loc, 'the exponents are summed without overflow check' if plain else '')
    wants = [(add(a, E), hit)] + ([(a, lnot(hit))] if partial else [])
    mm.pick('sum', F.L.loc, st, wants, eff, what='running degree', extra=leaves(hit), eqv=sum_eq(mm, a))


def unsafe(t):
    """Checked conversions between integers seen as their argument."""
    def f(x):
        if x.op == 'call' and str(x.args[0]).startswith('obake::detail::safe_cast_impl'):
            return unsafe(x.args[1])
        if x.op == 'cast':
            return unsafe(x.args[1])
        return None
    return subst(t, f)


def trip(mm, F, L):
    """Number of iterations of a counting loop."""
    if L.kind == 'rfor':
        return size(F.norm(L.range))
    c = F.norm(L.cond)
    for k in L.init:
        if k not in L.step or sub(L.step[k], mk('lv', L.id, k)) is not C(1):
            continue
        v = F.norm(mk('lv', L.id, k))
        if L.init[k] is C(0):
            if c.op == 'lt' and c.args[0] is v:
                return c.args[1]
            if c.op == 'not' and c.args[0].op == 'eq' and v in c.args[0].args:
                return [x for x in c.args[0].args if x is not v][0]
        s = beginning(F.norm(L.init[k]))
        if s is not None and c.op == 'not' and c.args[0].op == 'eq' and v in c.args[0].args:
            o = [x for x in c.args[0].args if x is not v][0]
            if ending(o) is s:
                return size(s)
    raise LookupError('trip count of %s' % L.loc)


def items(mm, F, t, base):
    """What has been appended to a sequence: [('one', value) | ('rep', count, value)]."""
    if t is base:
        return []
    if t.op == 'upd' and t.args[1] == 0 and PUSH1.search(t.args[0]) and len(t.args) == 4:
        return items(mm, F, t.args[2], base) + [('one', tidy(t.args[3]))]
    if t.op == 'upd' and t.args[1] == 0 and t.args[0].endswith('::insert') and len(t.args) == 6 and ending(t.args[3]) is t.args[2]:
        return items(mm, F, t.args[2], base) + [('rep', unsafe(t.args[4]), tidy(t.args[5]))]
    if t.op == 'upd' and t.args[1] == 0 and t.args[0].endswith('::resize') and len(t.args) == 4:
        n = sub(unsafe(t.args[3]), size(t.args[2]))
        return items(mm, F, t.args[2], base) + [('rep', n, C(0))]
    if t.op == 'lx':
        L = mm.I.loops[t.args[0]]
        k = t.args[1]
        st = F.norm(L.step[k])
        me = F.norm(mk('lv', L.id, k))
        one = items(mm, F, st, me)
        if len(one) == 1 and one[0][0] == 'one' and not L.exits:
            return items(mm, F, F.norm(L.init[k]), base) + [('rep', unsafe(trip(mm, F, L)), one[0][1])]
    raise LookupError('sequence %s' % show(t, 4)[:300])


class Sink:
    pass


def sink(mm, F, t):
    """Where the exponents of the result are appended."""
    S = Sink()
    S.tail, S.cap, S.cont = None, None, None
    if t.op == 'with' and t.args[2] == 'm_value':
        v = strip_refs(t.args[3])
        if v.op != 'call' or not str(v.args[0]).startswith('obake::kpacker::get'):
            raise LookupError('code %s' % show(v, 4)[:200])
        y = v.args[-1]
    elif t.op == 'ctor' and 'd_packed_monomial' in str(t.args[0]) and len(t.args) == 2:
        y = t.args[1]
    elif t.op == 'with' and t.args[2] == 'm_container' and t.args[3].op == 'lx' and F.P is not None and t.args[3].args[0] == F.P.id:
        kk = t.args[3].args[1]
        st = F.P.step[kk]
        S.cont = (F.P.init[kk], st)
        if st.op != 'upd' or not PUSH1.search(st.args[0]) or st.args[2] is not mk('lv', F.P.id, kk):
            raise LookupError('blocks %s' % show(st, 4)[:200])
        g = strip_refs(st.args[3])
        if g.op != 'call' or not str(g.args[0]).startswith('obake::kpacker::get') or g.args[-1].op != 'lx' or g.args[-1].args[0] != F.L.id:
            raise LookupError('block %s' % show(g, 4)[:200])
        S.key = g.args[-1].args[1]
        S.block = True
        S.cap = F.L.init[S.key]
        return S
    else:
        raise LookupError('result %s' % show(t, 4)[:200])
    S.block = False
    S.out = F.norm(y)
    ks = {x.args[0] for x in subterms(S.out) if x.op == 'fin'}
    ks = [F.var(n) for n in ks]
    ks = [k for k in ks if is_seq(F.init(k))]
    if len(ks) != 1:
        raise LookupError('sink %s' % show(S.out, 4)[:200])
    S.key = ks[0]
    S.cap = F.init(S.key)
    return S


def is_seq(t):
    return t.op == 'glob' or t.op == 'ctor' and re.search(r'kpacker|vector', str(t.args[0])) or t.op == 'upd' and str(t.args[0]).endswith('::clear')


def check_sink(mm, F, S, wants, eff, cap, tail=None, extra=()):
    """What is appended at every position, and the size the codes are made for."""
    me = F.norm(mk('lv', F.L.id, S.key))
    st = F.norm(F.L.step[S.key])
    bad = unk = None
    for v, c in cases(st):
        got = items(mm, F, v, me)
        for w, wc in wants:
            if len(got) == len(w) and all(same_item(mm, a, b) for a, b in zip(got, w)):
                continue
            g = tidy(land(c, wc, eff))
            s = logic.sat(g, TRUE, mm.nonneg)
            if s is False:
                continue
            ok = leaves(tidy(c)) <= leaves(tidy(land(wc, eff))) | set(extra) | {IDX, J, E, mm.n}
            if s and ok and differ_items(mm, got, w):
                bad = (got, w, g)
            else:
                unk = (got, w, g)
    x = bad or unk
    mm.ob(False if bad else None if unk else True, 'appended', F.L.loc, '' if x is None else
          'at a position where %s, %s is appended where %s is required' % (show(x[2], 6)[:250], sitems(x[0]), sitems(x[1])))
    # Capacity / freshness.
    if S.block:
        ok = S.cap.op == 'ctor' and 'kpacker' in str(S.cap.args[0]) and len(S.cap.args) == 2
        if ok:
            mm.cx.same('block-size', mm.what, F.L.loc, strip_cast(S.cap.args[1]), C(mm.psize), what='size of a packed block')
        else:
            mm.ob(None, 'block-size', F.L.loc, 'packer not recognised')
        i = S.cont[0]
        mm.ob(True if i.op == 'ctor' and len(i.args) == 1 or i.op == 'upd' and str(i.args[0]).endswith('::reserve') and i.args[2].op == 'ctor' and len(i.args[2].args) == 1 else None,
              'fresh', F.P.loc, 'initial blocks %s' % show(i, 4)[:200])
    elif mm.d:
        i = S.cap
        while i.op == 'upd' and str(i.args[0]).endswith('::reserve'):
            i = i.args[2]
        if i.op == 'upd' and str(i.args[0]).endswith('::clear') or i.op == 'ctor' and len(i.args) == 1:
            mm.ob(True, 'fresh', F.L.loc)
        elif i.op == 'glob':
            mm.ob(False, 'fresh', F.L.loc, 'the exponents of a previous call are kept in %s' % show(i))
        else:
            mm.ob(None, 'fresh', F.L.loc, 'initial exponents %s' % show(i, 4)[:200])
    else:
        if S.cap.op == 'ctor' and len(S.cap.args) == 2:
            if callable(cap):
                cap(S.cap.args[1])
            else:
                mm.cx.same('code-size', mm.what, F.L.loc, unsafe(S.cap.args[1]), cap, 32, what='number of exponents of the result')
        else:
            mm.ob(None, 'code-size', F.L.loc, 'packer not recognised')
    if not S.block:
        out = S.out
        fin = mk('fin', F.names[S.key])
        if tail is None:
            mm.ob(True if out is fin else None, 'result', '', 'result %s' % show(out, 5)[:200])
        else:
            tail(out, fin)


def same_item(mm, a, b):
    return a[0] == b[0] and all(x is y or mm.mod(x) is mm.mod(y) for x, y in zip(a[1:], b[1:]))


def differ_items(mm, a, b):
    if [x[0] for x in a] != [x[0] for x in b]:
        return True
    return any(_fold.differ(x, y, mm.bits, True, False) is not None for p, q in zip(a, b) for x, y in zip(p[1:], q[1:]))


def sitems(l):
    return '[%s]' % ', '.join(show(x[1], 5) if x[0] == 'one' else '%s times %s' % (show(x[1], 5), show(x[2], 3)) for x in l)


ZERO = C(0)


def merge(mm):
    F = mm.scan()
    wk, W, hit, more, end = walker(mm, F, p('im'), True)
    eff = mm.check_scan(F, None, None, leaves(hit))
    check_walker(mm, F, wk, W, hit, eff)
    S = sink(mm, F, mm.I.ret)
    rep = lambda w: ('rep', size(mk('fld', mk('deref', w), 'second')), ZERO)

    def tail(out, fin):
        fw = mk('fin', F.names[wk])
        more_end = lnot(eq(end, fw))
        got = []
        for v, c in cases(out):
            it = items(mm, F, v, fin)
            want = [rep(fw)]
            for w, wc in ((want, more_end), ([], lnot(more_end))):
                if logic.sat(land(c, wc)) is False or len(it) == len(w) and all(same_item(mm, a, b) for a, b in zip(it, w)):
                    continue
                got.append((it, w))
        mm.ob(False if any(differ_items(mm, a, b) for a, b in got) else None if got else True, 'tail', '',
              '' if not got else 'after the last position, %s is appended where %s is required' % (sitems(got[0][0]), sitems(got[0][1])))

    def cap(t):
        t = unsafe(t)
        if t.op != 'lx':
            return mm.ob(None, 'code-size', '', 'size %s' % show(t, 5)[:200])
        L = mm.I.loops[t.args[0]]
        k = t.args[1]
        if L.kind != 'rfor' or L.range is not p('im') or L.exits and any(x[0] != 'throw' for x in L.exits if isinstance(x, tuple)):
            return mm.ob(None, 'code-size', L.loc, 'size not recognised')
        me = mk('lv', L.id, k)
        n = size(mk('fld', mk('elem', L.id, p('im')), 'second'))
        mm.cx.same('code-size', mm.what, L.loc, unsafe(L.init[k]), mm.n, what='initial number of exponents')
        ab = lambda t: subst(t, lambda x: p('added') if x is n else p('so_far') if x is me else None)
        mm.cx.same('code-size', mm.what, L.loc, ab(unsafe(L.step[k])), ab(add(me, n)), what='number of exponents after an insertion')
    check_sink(mm, F, S, [([rep(W), ('one', E)], hit), ([('one', E)], lnot(hit))], eff, cap, tail, leaves(hit))


def trim(mm):
    F = mm.scan()
    wk, W, hit, more, end = walker(mm, F, p('si'))
    eff = mm.check_scan(F, None, None, leaves(hit))
    check_walker(mm, F, wk, W, hit, eff)
    S = sink(mm, F, mm.I.ret)
    check_sink(mm, F, S, [([], hit), ([('one', E)], lnot(hit))], eff, sub(mm.n, size(p('si'))), None, leaves(hit))


def trim_identify(mm):
    F = mm.scan()
    eff = mm.check_scan(F)
    ks = [k for k in F.raw if F.init(k) is p('v')]
    if len(ks) != 1:
        raise LookupError('flags')
    a = mk('cur', F.names[ks[0]])
    nz = lnot(eq(E, ZERO))
    st = F.step(ks[0])
    for v, c in cases(tidy(st)):
        if v is a:
            mm.cond('flag-cleared', F.L.loc, lnot(c), nz, eff, 'condition for clearing a flag')
        elif v.op == 'with' and v.args[0] is a:
            mm.cx.same('flag', mm.what, F.L.loc, strip_cast(v.args[2]), IDX, what='flag cleared')
            mm.cx.same('flag', mm.what, F.L.loc, strip_cast(v.args[3]), ZERO, what='value of the flag')
        else:
            mm.ob(None, 'flag', F.L.loc, 'update %s' % show(v, 5)[:200])
    if not any(v is not a for v, c in cases(tidy(st))):
        mm.ob(False, 'flag', F.L.loc, 'no flag is ever cleared')


def pair_of(t):
    if t.op != 'agg' or len(t.args) != 4:
        raise LookupError('result %s' % show(t, 4)[:200])
    return t.args[2], t.args[3]


def diff(mm):
    F = mm.scan()
    eff = mm.check_scan(F, None, None, {p('idx')})
    a, b = pair_of(mm.I.ret)
    at = eq(IDX, p('idx'))
    hit = land(at, lnot(eq(E, ZERO)))
    ex = {p('idx')}
    fac_check(mm, F, a, [(E, hit), (None, lnot(at)), (None, land(at, eq(E, ZERO)))], eff, ex)
    check_sink(mm, F, sink(mm, F, b), [([('one', sub(E, C(1)))], hit), ([('one', E)], lnot(hit))], eff, mm.n, None, ex)
    no_throw(mm, F, FALSE, eff, ex)


def fac_check(mm, F, a, wants, eff, ex):
    r = F.norm(a)
    while r.op in ('cast', 'conv'):
        r = r.args[1]
    if r.op != 'fin':
        raise LookupError('factor %s' % show(r, 4)[:200])
    k = F.var(r.args[0])
    me = mk('cur', r.args[0])
    mm.cx.same('initial', mm.what, F.L.loc, strip_cast(F.init(k)), ZERO, what='initial factor')
    mm.pick('factor', F.L.loc, F.step(k), [(me if w is None else w, c) for w, c in wants], eff, 'factor', ex)


def no_throw(mm, F, want, eff, ex):
    c = FALSE
    loc = ''
    for e in mm.I.trace:
        if e.kind == 'throw':
            if F.L.id not in e.loops:
                mm.ob(None, 'errors', e.loc, 'error raised outside the scan')
                return
            c = lor(c, F.guard(e))
            loc = e.loc
    mm.cond('errors', loc, c, want, eff, 'condition of the error', ex)


def integrate(mm):
    F = mm.scan()
    eff = mm.check_scan(F, None, None, {p('idx')})
    a, b = pair_of(mm.I.ret)
    at = eq(IDX, p('idx'))
    ex = {p('idx')}
    err = land(at, eq(E, C(-1))) if mm.signed else FALSE
    no_throw(mm, F, err, eff, ex)
    eff = land(eff, lnot(err))
    fac_check(mm, F, a, [(add(E, C(1)), at), (None, lnot(at))], eff, ex)
    check_sink(mm, F, sink(mm, F, b), [([('one', add(E, C(1)))], at), ([('one', E)], lnot(at))], eff, mm.n, None, ex)


def mpow(mm):
    F = mm.scan()
    eff = mm.check_scan(F)
    S = sink(mm, F, mm.I.ret)
    me = F.norm(mk('lv', F.L.id, S.key))
    got = items(mm, F, F.norm(F.L.step[S.key]), me)
    if len(got) != 1 or got[0][0] != 'one':
        raise LookupError('appended %s' % sitems(got))
    v = got[0][1]
    n = p('n')
    rat = 'rational' in mm.f['ta']
    den1 = None
    if any(x.op == 'mul' and E in x.args or x.op == 'lin' and contains(x, lambda y: y is E) for x in subterms(v)):
        mm.ob(False, 'exact-product', F.L.loc, 'the product is computed in fixed-width arithmetic: %s' % show(v, 5)[:200])
    elif v.op == 'call' and re.match(r'mppp::integer::operator |mppp::integer::get|mppp::get', str(v.args[0])):
        x = v.args[1]
        ops = None
        if x.op == 'upd' and x.args[0].endswith('::operator*='):
            ops = [x.args[2], x.args[3]]
        elif x.op == 'call' and 'operator*' in str(x.args[0]):
            ops = list(x.args[1:3])
        if ops is None:
            if x is E or x is n:
                mm.ob(False, 'exact-product', F.L.loc, 'the exponent is not multiplied')
            else:
                mm.ob(None, 'exact-product', F.L.loc, 'product %s' % show(x, 5)[:200])
        else:
            oth = [o for o in ops if o is not E]
            if len(oth) != 1:
                mm.ob(False, 'exact-product', F.L.loc, 'the product is %s' % show(x, 5)[:200])
            else:
                o = oth[0]
                num = lambda y: y.op == 'call' and 'rational::get_num' in str(y.args[0]) and y.args[1] is n
                vals = []
                for w, c in cases(F.norm(o)):
                    w = strip_refs(w)
                    thr = throw_cond(mm.I)
                    if logic.sat(land(c, lnot(thr))) is False:
                        continue
                    vals.append(w)
                good = all((num(w) if rat else w is n) for w in vals) and vals
                mm.ob(True if good else None, 'exact-product', F.L.loc, 'exponent %s' % ', '.join(show(w, 5)[:120] for w in vals))
    else:
        mm.ob(None, 'exact-product', F.L.loc, 'value %s' % show(v, 5)[:200])
    thr = throw_cond(mm.I)
    if rat:
        one = [x for x in subterms(thr) if x.op == 'call' and 'is_one' in str(x.args[0])]
        ok = len(one) == 1 and 'get_den' in show(one[0], 4)
        if thr is FALSE:
            mm.ob(False, 'exact-exponent', '', 'exponents which are not integers are accepted')
        elif ok:
            mm.cond('exact-exponent', '', thr, lnot(one[0]), TRUE, 'condition of the error')
        else:
            mm.ob(None, 'exact-exponent', '', 'condition %s' % show(thr, 5)[:200])
    else:
        mm.cond('exact-exponent', '', thr, FALSE, TRUE, 'condition of the error')
    check_sink(mm, F, S, [([('one', w)], c) for w, c in cases(v)], eff, mm.n)


def product_check(mm, F, a, hit, eff, valof, ex):
    """A running product starting from one, multiplied by a power on hits."""
    r = F.norm(a)
    if r.op != 'fin':
        raise LookupError('product %s' % show(r, 4)[:200])
    k = F.var(r.args[0])
    me = mk('cur', r.args[0])
    i = F.init(k)
    mm.ob(True if i is mk('ctor', 'hx::num', C(1)) else False if i.op == 'ctor' and len(i.args) <= 2 and all(isinstance(x, str) or cval(x) is not None for x in i.args) else None, 'one', F.L.loc, 'initial value %s' % show(i, 4)[:100])
    T = mm.T
    st = F.step(k)
    bad = unk = ''
    for v, c in cases(tidy(st)):
        if v is me:
            is_hit = False
        else:
            is_hit = None
            if v.op == 'upd' and v.args[0].endswith('operator*=') and v.args[1] == 0 and len(v.args) == 4:
                x, y = v.args[2], v.args[3]
                if x is me and y.op == 'call' and str(y.args[0]).startswith('hx::pow'):
                    is_hit = True
                    if y.args[2] is not E or y.args[1] is not valof:
                        bad = 'the factor is %s' % show(y, 6)[:200]
            if is_hit is None:
                unk = 'value %s' % show(v, 5)[:200]
                continue
        s = logic.sat(tidy(land(c, lnot(hit) if is_hit else hit, eff)))
        if s is not False:
            if s and leaves(tidy(c)) <= leaves(tidy(land(hit, eff))) | set(ex) | {IDX, J, E, mm.n}:
                bad = 'the value %s multiplied at a position where %s' % ('is' if is_hit else 'is not', show(tidy(land(c, lnot(hit) if is_hit else hit, eff)), 6)[:200])
            else:
                unk = 'condition %s' % show(c, 5)[:200]
    mm.ob(False if bad else None if unk else True, 'product', F.L.loc, bad or unk)


def evaluate(mm):
    F = mm.scan()
    sm = p('sm')
    n = size(sm) if contains(land(F.cond(), F.guard(F.exev)), lambda x: x is size(sm)) else mm.n
    eff = mm.check_scan(F, None, n)
    st = mm.I.ret
    at = mk('fld', mk('at', sm, IDX), 'second')
    try:
        wk, W, hit, more, end = walker(mm, F, sm, True)
        at = mk('fld', mk('deref', W), 'second')
        mm.pick('walk', F.L.loc, F.step(wk), [(add(W, C(1)), TRUE)], eff, what='next value')
    except LookupError:
        pass
    product_check(mm, F, st, TRUE, eff, at, {size(sm)})


def subs(mm):
    F = mm.scan()
    sm = p('sm')
    wk, W, hit, more, end = walker(mm, F, sm, True)
    eff = mm.check_scan(F, None, None, leaves(hit))
    check_walker(mm, F, wk, W, hit, eff)
    a, b = pair_of(mm.I.ret)
    product_check(mm, F, a, hit, eff, mk('fld', mk('deref', W), 'second'), leaves(hit))
    check_sink(mm, F, sink(mm, F, b), [([('one', ZERO)], hit), ([('one', E)], lnot(hit))], eff, mm.n, None, leaves(hit))


EXPL = 'Loop summaries of the operation (loops over positions, with blocks flattened): transition relation of every carried variable, values pushed, loop conditions and results compared with the required relations.'


@rule('M01', ['monomials.cpp'], EXPL, min_obligations=60)
def m01(cx):
    P = cx.progs["monomials.cpp"]
    each(cx, P, 'degree', 'degree', lambda mm: degree(mm, False))
    each(cx, P, 'p_degree', 'partial degree', lambda mm: degree(mm, True))


@rule('M02', ['monomials.cpp'], EXPL, min_obligations=40)
def m02(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'merge', 'insertion of symbols', merge)


@rule('M03', ['monomials.cpp'], EXPL, min_obligations=40)
def m03(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'trim', 'removal of symbols', trim)
    each(cx, P, 'trim_identify', 'identification of the unused symbols', trim_identify)


@rule('M04', ['monomials.cpp'], EXPL, min_obligations=40)
def m04(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'mpow', 'exponentiation', mpow, 24)


@rule('M05', ['monomials.cpp'], EXPL, min_obligations=40)
def m05(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'eval', 'evaluation', evaluate)
    each(cx, P, 'subs', 'substitution', subs)


@rule('M06', ['monomials.cpp'], EXPL, min_obligations=60)
def m06(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'diff', 'derivative', diff)
    each(cx, P, 'integrate', 'integral', integrate)


# ---- Construction and queries -----------------------------------------------------

def psz(mm, t):
    return C(mm.psize) if t.op == 'glob' and str(t.args[0]).endswith('::psize') else t


def field(mm):
    return mk('fld', mm.m, 'm_container' if mm.d else 'm_value')


def made(mm):
    """The stored field of a monomial just made."""
    r = mm.I.ret
    nm = 'm_container' if mm.d else 'm_value'
    if r.op == 'with' and r.args[2] == nm and r.args[0].op in ('new', 'ctor'):
        return r.args[3]
    if r.op == 'ctor' and len(r.args) == 1 and not mm.d:
        return mk('uninit')
    raise LookupError('monomial %s' % show(r, 4)[:200])


def ceil_div(mm, t, n):
    """t is the number of blocks for n exponents; None if not recognised."""
    t = unsafe(t)
    q, m = mk('div', n, C(mm.psize)), mk('mod', n, C(mm.psize))
    good = [add(q, lnot(eq(ZERO, m))), add(q, ite(eq(ZERO, m), ZERO, ONE)), add(q, mk('cast', 'unsigned int', lnot(eq(ZERO, m)))),
            mk('div', add(n, C(mm.psize - 1)), C(mm.psize))]
    if any(t is g for g in good):
        return True
    v = lambda x: subst(x, lambda y: p('q') if y is q else p('r') if y is m else None)
    r = v(t)
    if all(x.op in ('p', 'c', 'lin', 'b', 'ite', 'eq', 'not', 'lt', 'and', 'or') for x in subterms(r) if isinstance(x, T)) and {x for x in subterms(r) if x.op == 'p'} <= {p('q'), p('r'), n}:
        for c, want in ((eq(ZERO, p('r')), p('q')), (lnot(eq(ZERO, p('r'))), add(p('q'), ONE))):
            for val, g in cases(r):
                if logic.sat(land(g, c), TRUE, {p('q'), p('r')}) is False:
                    continue
                val = subst(val, lambda y: (ONE if logic.implies(c, y) else ZERO if logic.implies(c, lnot(y)) else None) if y.op in BOOL_OPS else None)
                if val is not want:
                    return False if not contains(val, lambda y: y is n) or val is n else None
        return True
    return None


def make_default(mm):
    v = made(mm)
    if mm.d:
        mm.ob(True if v.op == 'ctor' and len(v.args) == 1 else False if v.op == 'ctor' and all(cval(a) is not None for a in v.args[1:]) else None, 'unit', '', 'initial exponents %s' % show(v, 4)[:200])
    else:
        mm.ob(True if cval(v) == 0 else False if cval(v) is not None or v.op == 'uninit' else None, 'unit', '', 'initial code %s' % show(v, 4)[:200])


def make_ss(mm):
    v = made(mm)
    if not mm.d:
        return make_default(mm)
    if v.op == 'ctor' and len(v.args) == 3 and v.args[2].op == 'agg' and 'default_init' in str(v.args[2].args[0]):
        return mm.ob(False, 'unit', '', 'the exponents are not initialised')
    if v.op == 'ctor' and len(v.args) == 3 and cval(v.args[2]) not in (None, 0):
        return mm.ob(False, 'unit', '', 'the exponents are %s' % show(v.args[2]))
    while v.op == 'upd' and v.args[0].endswith('::resize') and v.args[2].op == 'ctor' and len(v.args[2].args) == 1:
        v = mk('ctor', v.args[2].args[0], v.args[3])
    if v.op == 'ctor' and len(v.args) in (2, 3):
        mm.ob(ceil_div(mm, v.args[1], mm.n), 'blocks', '', 'the number of blocks is %s' % show(v.args[1], 6)[:200])
    elif v.op == 'ctor' and len(v.args) == 1:
        mm.ob(False, 'blocks', '', 'no block is made')
    else:
        mm.ob(None, 'blocks', '', 'exponents %s' % show(v, 4)[:200])


def make_seq(mm):
    """Construction from a sequence: every value, converted with a check, in order."""
    I = mm.I
    ev = [e for e in I.trace if e.kind == 'call' and e.q.endswith('kpacker::operator<<') and e.loops]
    Ls = {e.loops[-1] for e in ev}
    if len(Ls) != 1:
        raise LookupError('packing loops')
    L = I.loops[Ls.pop()]
    F = Flat(I, L, I.loops[L.parent] if mm.d and L.parent is not None else None)
    e = ev[-1]
    if mm.d and F.P is None:
        raise LookupError('no loop over the blocks')
    if e.args[0].op != 'lv' or e.args[0].args[0] != L.id:
        raise LookupError('packer')
    kp = e.args[0].args[1]
    # The iterator and the end of the sequence.
    starts = [(k, F.init(k)) for k in F.raw if sub(F.step(k), mk('cur', F.names[k])) is ONE or k in F.its]
    its = [k for k, i in starts if i is p('b') or beginning(i) in (p('r'), p('l'))]
    der = [x for a in ev[-1].args[1:] for x in subterms(F.norm(a)) if x.op in ('deref', 'at')]
    if len(its) != 1:
        mv = [k for k in F.raw if F.init(k) is p('b') or beginning(F.init(k)) is not None]
        mm.ob(False if not mv and der and all(x.op == 'deref' and x.args[0] is p('b') for x in der) else None, 'next-value', e.loc, 'the same value is packed again and again')
        return
    k = its[0]
    seq = beginning(F.init(k))
    W = F.norm(mk('lv', L.id, k))
    cur = mk('at', seq, IDX) if k in F.its else mk('deref', W)
    v = F.norm(e.args[1])
    inner = v.args[1] if v.op == 'call' and str(v.args[0]).startswith('obake::detail::safe_cast_impl') else v
    if v.op == 'cast' and strip_cast(v) is cur:
        mm.ob(False, 'checked', e.loc, 'the values are converted without check: %s' % show(v, 4)[:200])
    else:
        ok = strip_refs(inner) is cur
        bad = not ok and inner.op in ('lin', 'c') and leaves_v(inner) <= {cur}
        mm.ob(True if ok else False if bad else None, 'every-value', e.loc, 'the value packed is %s' % show(v, 5)[:200])
    # Going on.
    ending_ = [x for t in (F.cond(),) for x in subterms(t) if ending(x) is not None or x is p('e')]
    n = p('n')
    it_end = mk('lt', IDX, size(seq)) if k in F.its else None
    by_n = n if any(a.get('n') == 'n' for a in mm.f.get('params', ())) or contains(F.cond(), lambda x: x is n) else None
    if by_n is not None:
        cnt = [kk for kk in F.raw if F.init(kk) is ZERO and (kk == F.idx or sub(F.step(kk), mk('cur', F.names[kk])) is ONE)]
        if len(cnt) != 1:
            odd = [kk for kk in F.raw if cval(F.init(kk)) not in (None, 0) and contains(F.cond(), lambda x: x is mk('cur', F.names[kk]))]
            if odd:
                return mm.ob(False, 'every-value', L.loc, 'values are counted from %s' % show(F.init(odd[0])))
            raise LookupError('counter')
        more = lt(F.norm(mk('lv', L.id, cnt[0])), n)
    else:
        more = it_end if it_end is not None else lnot(eq(W, p('e')))
    want = land(lt(J, C(mm.psize)), more) if mm.d else more
    glob = lambda t: tidy(subst(t, lambda x: psz(mm, x) if x.op == 'glob' else None))
    got = glob(land(F.cond(), F.guard(e)))
    if F.guard(e) is TRUE or logic.equiv(glob(F.guard(e)), land(*[lnot(glob(F.norm(g))) for g, kind in L.exits]), TRUE, mm.nonneg) is True:
        mm.cond('every-value', L.loc, got, want, what='condition for going on', extra={W, n, p('e')})
    elif len(ev) == 1:
        # One value packed per round: none may be passed over.
        mm.cond('every-value', e.loc, got, want, what='condition for packing a value', extra={W, n, p('e'), cur} | set(subterms(cur)))
    else:
        mm.ob(logic.equiv(got, tidy(want), TRUE, mm.nonneg) is True or None, 'every-value', e.loc, 'condition %s' % show(got, 5)[:200])
    for g, kind in L.exits + (F.P.exits if F.P is not None else []):
        if logic.sat(land(glob(F.norm(g)), got), TRUE, mm.nonneg) is not False:
            mm.ob(None, 'every-value', L.loc, 'loop left if %s' % show(F.norm(g), 5)[:200])
    cap = psz(mm, strip_cast(L.init[kp])) if L.init[kp].op != 'ctor' else psz(mm, strip_cast(L.init[kp].args[1]))
    if mm.d:
        mm.cx.same('block-size', mm.what, L.loc, cap, C(mm.psize), what='size of a packed block')
        if F.P.kind == 'rfor':
            rg = F.P.range
            ok = rg.op == 'ctor' and len(rg.args) in (2, 3)
            mm.ob(ceil_div(mm, rg.args[1], n if by_n is not None else size(seq)) if ok else None, 'blocks', F.P.loc, 'the number of blocks is %s' % show(rg, 6)[:200])
        else:
            pc = F.norm(F.P.cond)
            mm.cond('blocks', F.P.loc, pc, more, what='condition for another block', extra={W, n, p('e')})
        v = made(mm)
        if v.op != 'lx' or v.args[0] != F.P.id:
            raise LookupError('container')
        st = F.P.step[v.args[1]]
        g = strip_refs(st.args[3]) if st.op == 'upd' and len(st.args) == 4 else strip_refs(st.args[2]) if st.op == 'upd' and len(st.args) == 3 else None
        ok = g is not None and st.op == 'upd' and (st.args[0] == 'elemwrite' and F.P.kind == 'rfor' or PUSH1.search(st.args[0]) and F.P.kind != 'rfor' and F.P.init[v.args[1]].op in ('ctor', 'upd')) \
            and g.op == 'call' and str(g.args[0]).startswith('obake::kpacker::get') and g.args[-1] is mk('lx', L.id, kp)
        if not ok and st.op == 'upd' and st.args[0] == 'elemwrite' and g is None:
            g2 = [x for x in subterms(st) if x.op == 'call' and str(x.args[0]).startswith('obake::kpacker::get')]
            ok = len(g2) == 1 and g2[0].args[-1] is mk('lx', L.id, kp) and strip_refs(st.args[-1]) is g2[0]
        mm.ob(True if ok else None, 'blocks', F.P.loc, 'block %s' % show(st, 5)[:200])
    else:
        if by_n is not None:
            wn = n
        elif seq is not None:
            wn = size(seq)
        else:
            wn = sub(p('e'), p('b'))
        c = unsafe(cap)
        c = subst(c, lambda x: size(seq) if seq is not None and x.op == 'lin' and x is sub(mk('call', 'x') , x) else None)
        alt = [x for x in subterms(c) if seq is not None and (beginning(x) is seq or ending(x) is seq)]
        okc = c is wn
        if not okc and seq is not None and len(alt) == 2:
            b_, e_ = [x for x in alt if beginning(x) is seq], [x for x in alt if ending(x) is seq]
            if b_ and e_:
                c = add(sub(c, sub(e_[0], b_[0])), wn)
        if c.op == 'call' and 'distance' in str(c.args[0]) and len(c.args) == 3 and c.args[1] is F.init(k):
            okc = True
        if okc:
            mm.ob(True, 'code-size', L.loc)
        else:
            mm.cx.same('code-size', mm.what, L.loc, c, wn, 32, what='number of exponents packed')
        v = strip_refs(made(mm))
        ok = v.op == 'call' and str(v.args[0]).startswith('obake::kpacker::get') and v.args[-1] is mk('lx', L.id, kp)
        mm.ob(True if ok else False if cval(v) is not None else None, 'result', '', 'code %s' % show(v, 4)[:200])


def leaves_v(t):
    return {x for x in subterms(t) if x.op in ('at', 'deref', 'p', 'call', 'lv')} if t.op != 'c' else set()


def is_zero(mm):
    r = mm.I.ret
    mm.ob(True if r is FALSE else False if r is TRUE or leaves(tidy(truth(r))) <= {field(mm), mm.n} else None, 'never-zero', '', 'a monomial is zero if %s' % show(r, 5)[:200])


def is_one(mm):
    I, r = mm.I, tidy(truth(mm.I.ret))
    if not mm.d:
        mm.cond('one', '', r, eq(ZERO, field(mm)), what='condition for being one', extra={field(mm), mm.n})
        return
    every(mm, r, lambda x: eq(ZERO, x), 'one', 'condition for being one')


PURE = {'p', 'fld', 'size', 'idx', 'c', 'b', 'lin', 'deref', 'div', 'mod', 'not', 'and', 'or', 'eq', 'lt', 'ite', 'KLIM'}


def pure(t):
    """Built from stored fields, sizes and elements at fixed positions only."""
    return all(x.op in PURE or beginning(x) is not None or ending(x) is not None or x.op == 'call' and re.search(r'::operator[+-](<.*>)?$', str(x.args[0])) for x in subterms(t))


def every(mm, r, want, rule, what, pre=TRUE):
    """The condition is: pre, and the wanted one for every element of the container."""
    exs = [x for x in conj(r) if x.op == 'not' and x.args[0].op == 'ex']
    rest = land(*[x for x in conj(r) if x not in exs])
    if len(exs) == 1:
        l, c = exs[0].args[0].args
        L = mm.I.loops[l]
        el = mk('elem', l, field(mm))
        if L.kind == 'rfor' and L.range is field(mm):
            mm.cond(rule, L.loc, tidy(lnot(c)), want(el), what=what + ' (one element)', extra={el} | leaves(tidy(want(el))))
            mm.cond(rule, L.loc, rest, pre, what=what, extra=leaves(pre))
            return
    if not exs and r.op == 'call' and re.match(r'std::(all_of|none_of)', str(r.args[0])):
        mm.ob(None, rule, '', '%s %s' % (what, show(r, 5)[:200]))
        return
    if len(exs) == 1 and L.kind != 'rfor' or len(exs) == 1 and L.range.op == 'irange':
        rg = L.range if L.range is not None else None
        if rg is not None and rg.op == 'irange' and pure(rg.args[0]) and len(exs) == 1:
            if beginning(rg.args[0]) is None and contains(rg.args[0], lambda x: beginning(x) is field(mm)):
                return mm.ob(False, rule, L.loc, 'the first elements are not looked at: %s' % show(rg.args[0], 4)[:200])
    known = not exs and pure(r)
    mm.ob(False if known else None, rule, '', '%s is %s' % (what, show(r, 6)[:300]))


def compatible(mm):
    r = tidy(truth(mm.I.ret))
    T = mm.T
    kl = {x for x in subterms(r) if x.op == 'call' and 'kpack_get_klims' in str(x.args[0])}
    if mm.d:
        v = mk('KLIM')
        for k in kl:
            mm.cx.same('limits-size', mm.what, '', strip_cast(psz(mm, k.args[1])), C(mm.psize), what='size of the limits')
        r = subst(r, lambda x: v if x in kl else None)
        lo, hi = mk('fld', v, 'first'), mk('fld', v, 'second')
        sz = [x for x in conj(r) if x.op == 'eq' and size(field(mm)) in x.args]
        if len(sz) == 1:
            o = [y for y in sz[0].args if y is not size(field(mm))][0]
            mm.ob(ceil_div(mm, o, mm.n), 'blocks', '', 'the number of blocks required is %s' % show(o, 6)[:200])
            r = land(*[x for x in conj(r) if x is not sz[0]])
        else:
            if not any(contains(x, lambda y: y is size(field(mm))) for x in conj(r)) and kl:
                mm.ob(False, 'blocks', '', 'the number of blocks is not checked')
            else:
                bad = [x for x in conj(r) if contains(x, lambda y: y is size(field(mm)))]
                mm.ob(False if bad and all(pure(x) for x in bad) else None, 'blocks', '', 'condition %s' % show(r, 5)[:200])
                r = land(*[x for x in conj(r) if x not in bad])
        every(mm, r, lambda x: land(lnot(lt(x, lo)), lnot(lt(hi, x))), 'limits', 'condition for being compatible')
        return
    v = mk('KLIM')
    for k in kl:
        mm.cx.same('limits-size', mm.what, '', strip_cast(k.args[1]), mm.n, what='size of the limits')
    r = subst(r, lambda x: v if x in kl else None)
    lo, hi, f = mk('fld', v, 'first'), mk('fld', v, 'second'), field(mm)
    mx = C({32: 10, 64: 21}[mm.bits])
    z = eq(ZERO, mm.n)
    want = lor(land(z, eq(ZERO, f)), land(lnot(z), lnot(lt(mx, mm.n)), lnot(lt(f, lo)), lnot(lt(hi, f))))
    mm.cond('limits', '', r, want, what='condition for being compatible', extra={lo, hi, f, mm.n})


def equality(mm, ne=False):
    a, b = [mk('fld', p(x), 'm_container' if mm.d else 'm_value') for x in 'ab']
    r = truth(mm.I.ret)
    w = eq(a, b)
    t = tidy(r)
    if logic.equiv(t, lnot(w) if ne else w) is not True and pure(t):
        mm.ob(False, 'equality', '', 'the condition is %s' % show(t, 6)[:200])
    else:
        mm.cond('equality', '', r, lnot(w) if ne else w, what='condition', extra={size(a), size(b), a, b})


def nbytes(mm):
    r = strip_cast(mm.I.ret)
    c, d = logic.tm_lin(r)
    if not mm.d:
        mm.ob(True if not d and c == mm.bits // 8 else False if not d else None, 'bytes', '', 'size %s' % show(r, 4))
        return
    cap = [k for k in d if k.op == 'call' and 'capacity' in str(k.args[0]) or k.op == 'size']
    if len(d) != 1 or len(cap) != 1:
        return mm.ob(None if d else False, 'bytes', '', 'size %s' % show(r, 4)[:200])
    mm.ob(c > 0 and d[cap[0]] == mm.bits // 8 and cap[0].op != 'size', 'bytes', '', 'size %s' % show(r, 4)[:200])


@rule('M07', ['monomials.cpp'], EXPL, min_obligations=100)
def m07(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'make_def', 'default construction', make_default, stops=kstops)
    each(cx, P, 'make_ss', 'construction from a symbol set', make_ss, stops=kstops)
    for fn, w, n in (('make_n', 'construction from a count', 16), ('make_be', 'construction from two iterators', 16), ('make_r', 'construction from a range', 8), ('make_il', 'construction from a list', 8)):
        each(cx, P, fn, w, make_seq, n, stops=kstops)
    each(cx, P, 'is_zero', 'zero test', is_zero)
    each(cx, P, 'is_one', 'unit test', is_one)
    each(cx, P, 'compatible', 'compatibility test', compatible)
    each(cx, P, 'eq', 'equality', equality, m='a')
    each(cx, P, 'ne', 'inequality', lambda mm: equality(mm, True), m='a')
    each(cx, P, 'bytes', 'byte size', nbytes)


# ---- Products and hashes ------------------------------------------------------------

def additive(mm, t, var):
    """t is a sum-preserving function of var: a multiple of it (conversions between integers allowed)."""
    for x in subterms(t):
        if x.op == 'cast' and contains(x, lambda y: y is var) and x.args[0] not in (mm.T, 'long', 'unsigned long', 'long long', 'unsigned long long'):
            return False if x.args[0] in BITS or x.args[0] in ('short', 'unsigned short', 'signed char', 'unsigned char', 'char') else None
    t = unsafe(t)
    if t is var:
        return True
    c, d = logic.tm_lin(t)
    if set(d) == {var}:
        return c == 0
    return False if pure_in(t, var) else None


def pure_in(t, var):
    return all(x is var or x.op in ('c', 'lin', 'mul', 'div', 'mod', 'shl', 'shr', 'bxor', 'band', 'bor', 'xor', 'bitxor', 'bitand', 'bitor') or x.op in BOOL_OPS or x.op in ('ite', 'cast')
               for x in below(t, var))


def below(t, var):
    if t is var:
        yield t
        return
    yield t
    for a in t.args:
        if isinstance(a, T):
            yield from below(a, var)
        elif isinstance(a, tuple):
            for y in a:
                if isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield from below(z, var)
                elif isinstance(y, T):
                    yield from below(y, var)


def hashing(mm):
    f = field(mm)
    r = mm.I.ret
    if not mm.d:
        mm.ob(additive(mm, r, f), 'additive', '', 'the hash is %s: the hash of a product is not the sum of the hashes' % show(r, 5)[:200])
        return
    r = unsafe(r)
    if r.op != 'lx':
        pr = pure(r)
        return mm.ob(False if pr else None, 'additive', '', 'the hash is %s' % show(r, 5)[:200])
    L = mm.I.loops[r.args[0]]
    k = r.args[1]
    me, el = mk('lv', L.id, k), mk('elem', L.id, f)
    whole = L.kind == 'rfor' and L.range is f and not L.exits
    if not whole:
        rg = L.range
        part = L.kind == 'rfor' and rg is f and L.exits or rg is not None and rg.op == 'irange' and pure(rg.args[0]) and pure(rg.args[1]) and rg is not f
        n = size(f)
        idx = [j for j in L.init if L.step.get(j) is add(mk('lv', L.id, j), ONE)]
        if not part and len(idx) == 1 and L.cond is not None:
            v = mk('lv', L.id, idx[0])
            el = mk('idx', f, v)
            if L.init[idx[0]] is ZERO and L.cond is lt(v, n) and not L.exits:
                whole = True
        if not whole:
            return mm.ob(False if part else None, 'every-block', L.loc, 'loop not over all the blocks')
    mm.ob(True, 'every-block', L.loc)
    mm.cx.same('additive', mm.what, L.loc, unsafe(L.init[k]), ZERO, what='initial hash')
    st = unsafe(L.step[k])
    if any(x.op == 'cast' and additive(mm, x, el) is False for x in subterms(L.step[k])):
        return mm.ob(False, 'additive', L.loc, 'the hash becomes %s: values are truncated' % show(L.step[k], 5)[:200])
    d = sub(st, me)
    if contains(d, lambda x: x is me):
        return mm.ob(False if pure_in(subst(st, lambda x: el if x is me else None), el) else None, 'additive', L.loc, 'the hash becomes %s: the hash of a product is not the sum of the hashes' % show(st, 5)[:200])
    mm.ob(additive(mm, d, el), 'additive', L.loc, 'the hash becomes %s: the hash of a product is not the sum of the hashes' % show(st, 5)[:200])


def product(mm):
    I = mm.I
    fin = I.final.store if hasattr(I.final, 'store') else {}
    if not mm.d:
        out = final_of(I, mm.f, 'out', 'm_value')
        a, b = [mk('fld', p(x), 'm_value') for x in 'ab']
        mm.cx.same('sum', mm.what, mm.loc, strip_cast(out), add(a, b), mm.bits, what='code of the product')
        return
    a, b, o = [mk('fld', p(x), 'm_container') for x in ('a', 'b', 'out')]
    out = final_of(I, mm.f, 'out', 'm_container')
    tr = [e for e in I.trace if e.kind == 'call' and e.q == 'std::transform']
    if len(tr) == 1:
        e = tr[0]
        x, y, z, w = e.args[:4]
        f = e.args[4]
        ok = beginning(x) is a and ending(y) is a and beginning(z) is b or beginning(x) is b and ending(y) is b and beginning(z) is a
        pr = all(pure(t) for t in (x, y, z))
        mm.ob(True if ok else False if pr else None, 'every-block', e.loc, 'blocks from %s to %s and from %s' % (show(x, 4), show(y, 4), show(z, 4)))
        dst = beginning(w)
        mm.ob(True if dst is o or dst is not None and dst.op == 'upd' and dst.args[2] is o else None, 'result', e.loc, 'written to %s' % show(w, 4)[:200])
        cb = [r for r in I.trace if r.kind == 'ret' and contains(r.args[0], lambda t: t.op == 'cbarg')] if True else []
        vals = {unsafe(r.args[0]) for r in cb}
        if len(vals) == 1:
            v = vals.pop()
            d = {t for t in subterms(v) if t.op == 'cbarg'}
            if len(d) == 2:
                q, s = sorted(d, key=lambda t: t.args[1])
                mm.cx.same('sum', mm.what, e.loc, v, add(q, s), mm.bits, what='block of the product')
                return
            mm.ob(False if all(t.op in ('cbarg', 'lin', 'c', 'mul') for t in subterms(v)) else None, 'sum', e.loc, 'block %s' % show(v, 4)[:200])
            return
        mm.ob(None, 'sum', e.loc, 'operation on the blocks not recognised')
        return
    # A loop writing the blocks.
    if out.op == 'lx':
        L = I.loops[out.args[0]]
        k = out.args[1]
        st = L.step[k]
        idx = [j for j in L.init if L.step.get(j) is add(mk('lv', L.id, j), ONE) and L.init[j] is ZERO]
        if st.op == 'with' and st.args[1] == 'i' and len(idx) == 1 and L.cond is not None:
            v = mk('lv', L.id, idx[0])
            n = trip_of(L, v)
            full = n in (size(a), size(b), size(o)) and not L.exits
            mm.ob(True if full else False if n is not None and pure(n) else None, 'every-block', L.loc, 'blocks written while %s' % show(L.cond, 5)[:200])
            mm.cx.same('every-block', mm.what, L.loc, strip_cast(st.args[2]), v, what='block written')
            mm.cx.same('sum', mm.what, L.loc, strip_cast(st.args[3]), add(mk('idx', a, v), mk('idx', b, v)), mm.bits, what='block of the product')
            return
    mm.ob(None, 'sum', mm.loc, 'result %s' % show(out, 4)[:200])


def trip_of(L, v):
    c = L.cond
    if c.op == 'lt' and c.args[0] is v:
        return strip_cast(c.args[1])
    if c.op == 'not' and c.args[0].op == 'eq' and v in c.args[0].args:
        return strip_cast([x for x in c.args[0].args if x is not v][0])
    return None


def final_of(I, f, par, fieldname):
    """Final value of a field of a parameter passed by reference."""
    return unwith(I.final.store[('a', next(i for i, v in enumerate(f['params']) if v.get('n') == par))], [fieldname])


@rule('M08', ['monomials.cpp'], EXPL, min_obligations=24)
def m08(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'hash', 'hash', hashing)
    each(cx, P, 'mul', 'product', product, m='a')
