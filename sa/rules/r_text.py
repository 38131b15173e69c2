"""Text of monomials and series."""
from .r_monomials import *
from .. import text as tx
from ..text import Unknown, text, stream, resolve, join
from . import rule


def mpn(t):
    """Operations of multiprecision integers as arithmetic."""
    def f(x):
        if x.op in ('call', 'upd') and str(x.args[0]).startswith('mppp::integer'):
            n = re.sub(r'<.*', '', str(x.args[0]).rsplit('::', 1)[-1])
            v = [mpn(a) for a in x.args[1:] if isinstance(a, T)]
            if x.op == 'upd' and n == 'neg' and x.args[1] == 0:
                return neg(v[-1])
            if x.op == 'upd' and n == 'abs' and x.args[1] == 0:
                return ite(lt(v[-1], C(0)), neg(v[-1]), v[-1])
            if x.op == 'call' and n == 'is_one':
                return eq(v[0], C(1))
            if x.op == 'call' and n == 'is_zero':
                return eq(v[0], C(0))
        if x.op in ('eq', 'lt'):
            a = [mpn(y) for y in x.args]
            c0, d0 = logic.tm_lin(sub(a[0], a[1]))
            if d0 == {E: -1} and (a[0].op == 'lin' or a[1].op == 'lin'):
                return eq(E, C(c0)) if x.op == 'eq' else lt(C(c0), E)
            if d0 == {E: 1} and (a[0].op == 'lin' or a[1].op == 'lin'):
                return eq(E, C(-c0)) if x.op == 'eq' else lt(E, C(-c0))
            for i in (0, 1):
                c, s = a[i], a[1 - i]
                if c.op == 'c' and s.op == 'call' and re.sub(r'<.*', '', str(s.args[0])).startswith('mppp::integer::sgn') or c.op == 'c' and s.op == 'call' and str(s.args[0]).rsplit('::', 1)[-1] == 'sgn':
                    v = mpn(s.args[1])
                    ok = [k for k in (-1, 0, 1) if (x.op == 'eq' and k == c.args[0] or x.op == 'lt' and (c.args[0] < k if i == 0 else k < c.args[0]))]
                    return truth(lor(*[{-1: lt(v, C(0)), 0: eq(v, C(0)), 1: lt(C(0), v)}[k] for k in ok])) if ok else FALSE
        return None
    return subst(t, f)


def known(ps):
    """Only literal text, symbols, exponents and what was written before."""
    return all(isinstance(x, str) or all(y.op in ('E', 'IDX', 'J', 'lin', 'c', 'at', 'p', 'cur', 'fin', 'neg', 'mul', 'begin', 'end', 'size') for y in subterms(x)) for x in ps)


def simplify(ps):
    return join([x if isinstance(x, str) else tidy(mpn(x)) for x in ps])


def shown(ps):
    return ' '.join(repr(x) if isinstance(x, str) else show(x, 4)[:60] for x in ps) or 'nothing'


def known_cond(c, rw):
    return all(y.op in ('E', 'IDX', 'lin', 'c', 'b', 'cur', 'fin', 'atom', 'eq', 'lt', 'not', 'and', 'or', 'ite') for y in subterms(rw(c)))


def outputs(mm, t, case, rw, depth=5):
    """(what is written, case, whether the case is made of known conditions) for each part of a case."""
    r = resolve(mpn(t), case, rw, mm.nonneg)
    r = resolve(mpn(r), case, rw, mm.nonneg)
    try:
        return [(simplify(stream(r)), case, True)]
    except Unknown as e:
        if e.cond is None or depth == 0:
            raise
        c = rw(mpn(e.cond))
        if c.op not in BOOL_OPS and c.op != 'atom' and c.op not in ('cur', 'fin'):
            raise
        k = known_cond(c, rw)
        out = []
        for x in (c, lnot(c)):
            if logic.sat(land(case, x), TRUE, mm.nonneg) is not False:
                out += [(p, g, k and q) for p, g, q in outputs(mm, t, land(case, x), rw, depth - 1)]
        return out


def written(mm, rule, loc, t, case, want, when, rw=mpn):
    """What is written in a case."""
    try:
        out = outputs(mm, t, case, rw)
    except Unknown as e:
        return mm.ob(None, rule, loc, str(e))
    bad = [(ps, q) for ps, g, q in out if ps != want]
    if not bad:
        return mm.ob(True, rule, loc)
    ps, q = sorted(bad, key=lambda b: not (b[1] and known(b[0])))[0]
    mm.ob(False if q and known(ps) else None, rule, loc, '%s %s is written, not %s' % (when, shown(ps), shown(want)))


def wide(mm, F, ts):
    """Exponents are written in a type which holds them all."""
    for t in ts:
        for y in subterms(t):
            if y.op == 'cast' and str(y.args[0]) in BITS and any(z is E for z in subterms(y.args[1])):
                b, s = BITS[str(y.args[0])]
                if b < mm.bits or not s and mm.signed:
                    return mm.ob(False, 'text', F.L.loc, 'the exponents are converted to %s' % y.args[0])


def cases_of(mm):
    out = [('for exponent 0', eq(E, C(0)), 0), ('for exponent 1', eq(E, C(1)), 1), ('for exponents beyond 1', lt(C(1), E), 2)]
    if mm.signed:
        out += [('for exponent -1', eq(E, C(-1)), -1), ('for exponents below -1', lt(E, C(-1)), -2)]
    return out


def stream_plain(mm):
    F = mm.scan()
    eff = mm.check_scan(F)
    ks = [k for k in F.raw if k[0] == ('a', 0) or k == ('a', 0)]
    if len(ks) != 1:
        raise LookupError('the stream is not written in the loop')
    k = ks[0]
    cur = mk('cur', F.names[k])
    st = F.step(k)
    flags = [x for x in F.raw if F.init(x) in (TRUE, FALSE) and any(y is mk('cur', F.names[x]) for y in subterms(st))]
    loc = F.L.loc
    wide(mm, F, [st])
    for y in subterms(mm.I.loops[F.L.id].step[k]):
        if y.op == 'lv' and y.args[0] == F.L.id and y.args[1] in F.local and F.L.init.get(y.args[1]) in (TRUE, FALSE):
            return mm.ob(False, 'separator', loc, 'the record of whether something has been written starts anew with every block')
    if len(flags) != 1:
        return mm.ob(None if flags else None, 'separator', loc, 'how the separators are placed')
    w = flags[0]
    first = F.init(w) is TRUE
    W = mk('cur', F.names[w])
    wrote = lnot(W) if first else W
    nxt = F.step(w)
    want = land(wrote, eq(E, C(0))) if first else lor(wrote, lnot(eq(E, C(0))))
    want = lnot(lor(wrote, lnot(eq(E, C(0))))) if first else want
    mm.cond('separator', loc, nxt, want, eff, what='record of whether something has been written', extra={W})
    name = mk('at', mm.ss, IDX)
    mm.ob(True if F.init(k) is mk('p', 'os') else None, 'text', loc, 'the stream is %s' % show(F.init(k), 3)[:100])
    for when, c, n in cases_of(mm):
        for b in (False, True):
            body = [] if n == 0 else (['*'] if b else []) + [name] + ([] if n == 1 else ['**', E])
            written(mm, 'text', loc, st, land(c, wrote if b else lnot(wrote)), [cur] + body, when + (' after other symbols' if b else ''))
    fin = clean(F.norm(mm.I.rewrite(mm.I.final.store.get(('a', 0), mk('unk')))))
    fW = mk('fin', F.names[w])
    fw = lnot(fW) if first else fW
    base_ = mk('fin', F.names[k])
    for b in (False, True):
        written(mm, 'unit', mm.loc, fin, fw if b else lnot(fw), [base_] + ([] if b else ['1']), 'if all exponents are zero' if not b else 'after the symbols')


def clean(t):
    return subst(t, lambda x: FALSE if x.op == 'ex' else None)


def stream_tex(mm):
    F = mm.scan()
    mm.check_scan(F)
    loc = F.L.loc
    os_ = [k for k in F.raw if isbuf(F.init(k))]
    if len(os_) not in (1, 2):
        raise LookupError('%d buffers' % len(os_))
    wide(mm, F, [F.step(k) for k in os_])
    name = mk('at', mm.ss, IDX)
    one = eq(E, C(1))
    hit = []
    for k in os_:
        r = resolve(mpn(resolve(mpn(F.step(k)), one, mpn, mm.nonneg)), one, mpn, mm.nonneg)
        if r is not mk('cur', F.names[k]):
            hit.append(k)
    if len(hit) != 1:
        return mm.ob(None, 'text', loc, 'positive exponents are written to %d buffers' % len(hit))
    num = hit[0]
    den = ([k for k in os_ if k is not num] + [None])[0]
    for k, sgn in ((num, 1), (den, -1))[:len(os_)]:
        for when, c, n in cases_of(mm):
            body = [] if n * sgn <= 0 else ['{', name, '}'] + (['^{', E if sgn > 0 else neg(E), '}'] if abs(n) > 1 else [])
            written(mm, 'text', loc, F.step(k), c, join([mk('cur', F.names[k])] + body), when)
    if den is None:
        return mm.ob(None, 'fraction', loc, 'there is one buffer only')
    fin = clean(F.norm(mm.I.rewrite(mm.I.final.store.get(('a', 0), mk('unk')))))
    N, D = [mk('fin', F.names[k]) for k in (num, den)]
    atoms = {N: mk('atom', 'num'), D: mk('atom', 'den')}

    def rw(c):
        def f(x):
            if x.op in ('eq', 'lt') and any(y.op == 'size' or y.op == 'call' and 'size' in str(y.args[0]) for y in x.args):
                for i in (0, 1):
                    z, s = x.args[i], x.args[1 - i]
                    if z is C(0) and s.op in ('size', 'call'):
                        try:
                            b = text(s.args[-1])
                        except Unknown:
                            return None
                        if len(b) == 1 and b[0] in atoms and (x.op == 'eq' or i == 0):
                            return lnot(atoms[b[0]]) if x.op == 'eq' else atoms[b[0]]
            return None
        return subst(mpn(c), f)
    for a in (False, True):
        for b in (False, True):
            case = land(atoms[N] if a else lnot(atoms[N]), atoms[D] if b else lnot(atoms[D]))
            body = ['\\frac{', N, '}{', D, '}'] if a and b else [N] if a else ['\\frac{1}{', D, '}'] if b else ['1']
            written(mm, 'unit' if not a and not b else 'fraction', mm.loc, fin, case, [mk('p', 'os')] + body,
                    'with %s' % ('positive and negative exponents' if a and b else 'positive exponents' if a else 'negative exponents' if b else 'no nonzero exponents'), rw)


def isbuf(t):
    try:
        return stream(t) == []
    except Unknown:
        return False


@rule('M10', ['monomials.cpp'], 'What is written for each position is derived from the summary of the loop over the exponents, for each case of the exponent (0, 1, greater, and -1 and less) and of what was '
      'written before, as a sequence of literal text and values; it is compared with the required sequence, and so is what is written after the loop.', min_obligations=100)
def m10(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'stream', 'text', stream_plain, text=True)
    each(cx, P, 'tex', 'TeX text', stream_tex, text=True)


# ---- Series ----------------------------------------------------------------------

STOPT = re.compile(r'obake::series::(begin|end|size|empty|cbegin|cend|get_symbol_set|tag)$|^hx::\w*(insert|size)$|obake::detail::to_string$|obake::type_name$|^obake::detail::type_name')
stopt = lambda q, n: bool(STOPT.search(str(q).split('<')[0]))
bq = lambda t: str(t.args[0]).split('<')[0]


class Text:
    """The terms of a series written to a stream."""

    def __init__(self, cx, P, f, tex, rule):
        self.cx, self.f, self.tex, self.rule = cx, f, tex, rule
        self.what = f['q'].replace('hx::', '')
        self.os, self.s = [p(y['n']) for y in f['params']]
        self.I = I = cx.analyse(P, f, exact=True, text=True, stops=stopt)
        self.nonneg = ()
        pre = 'tex_' if tex else ''
        own = [e for e in I.trace if e.kind == 'call' and re.sub('<.*', '', str(e.q)) == 'hx::cf_%sstream_insert' % pre and e.loops]
        other = [e for e in I.trace if e.kind == 'call' and re.sub('<.*', '', str(e.q)) == 'hx::cf_%sstream_insert' % ('' if tex else 'tex_')]
        self.loc = own[0].loc if own else P.loc(f)
        if not own:
            if other:
                self.ob(False, 'coefficients are written with %s' % other[0].q, other[0].loc)
            raise LookupError('no coefficient is written in a loop')
        ls = sorted({e.loops for e in own})
        if any(len(l) != 1 for l in ls):
            raise LookupError('coefficients are written in nested loops')
        self.ls = [I.loops[l[0]] for l in ls]
        self.over(self.ls[0])

    def over(self, L):
        self.L = L
        self.loc = L.loc or self.loc
        self.lv = lambda k: mk('lv', L.id, k)
        self.lx = lambda k: mk('lx', L.id, k)

    def ob(self, ok, detail='', loc=None):
        return self.cx.ob(ok, self.rule, self.what, loc or self.loc, detail)

    def begins(self, t):
        return t.op == 'begin' and t.args[0] is self.s or t.op == 'call' and bq(t) in ('obake::series::begin', 'obake::series::cbegin') and t.args[1] is self.s

    def ends(self, t):
        return t.op == 'end' and t.args[0] is self.s or t.op == 'call' and bq(t) in ('obake::series::end', 'obake::series::cend') and t.args[1] is self.s

    def empty(self, c):
        """Conditions on whether there are terms."""
        EM = mk('atom', 'empty')

        def f(x):
            if x.op == 'call' and bq(x) == 'obake::series::empty' and x.args[1] is self.s:
                return EM
            if x.op in ('eq', 'lt') and any(y.op == 'call' and bq(y) == 'obake::series::size' or y.op == 'size' for y in x.args):
                a, b = x.args
                n = mk('N')
                r = subst(x, lambda y: n if y.op == 'call' and bq(y) == 'obake::series::size' and y.args[1] is self.s or y.op == 'size' and y.args[0] is self.s else None)
                if r is eq(n, C(0)):
                    return EM
                if r is lt(C(0), n):
                    return lnot(EM)
                return bound(r) if r is not x else None
            if x.op == 'eq':
                for u, v in (x.args, x.args[::-1]):
                    if self.begins(u) and self.ends(v):
                        return EM
            return None
        return subst(c, f)

    def run(self):
        X = set()
        for L in self.ls:
            self.over(L)
            x = self.terms()
            if x is None:
                return
            X.add(x)
        self.stream(X)

    def terms(self):
        I, L, lv = self.I, self.L, self.lv
        if L.kind == 'rfor' or L.cond is None:
            raise LookupError('kind of loop')
        for k in L.init:
            for y in subterms(L.init[k]):
                if self.begins(y) and sub(L.init[k], y).op == 'c' and L.init[k] is not y:
                    self.ob(False, 'the first term is taken from position %s' % show(sub(L.init[k], y), 2))
                    return
        its = [k for k in L.init if self.begins(L.init[k])]
        if len(its) != 1:
            raise LookupError('%d iterators over the terms' % len(its))
        it = its[0]
        d = sub(L.step[it], lv(it))
        self.ob(True if d is C(1) else False if d.op == 'c' else None, 'the position of the next term is %s' % show(L.step[it], 4)[:100])
        END, MORE = mk('atom', 'end'), mk('atom', 'more')
        cnt = [k for k in L.init if L.init[k] is C(0) and sub(L.step[k], lv(k)) is C(1) and k != it]
        stuck = [k for k in L.init if L.init[k] is C(0) and L.step[k] is lv(k)]

        def rw(c):
            def f(x):
                if x.op == 'eq':
                    for u, v in (x.args, x.args[::-1]):
                        if self.ends(u):
                            if v is lv(it) or v is self.lx(it):
                                return END
                            if v is add(lv(it), C(1)):
                                return lnot(MORE)
                return None
            return subst(c, f)
        # Terms visited.
        c = land(rw(L.cond), *[lnot(rw(g)) for g, kind in L.exits])
        lim = None
        for k in cnt:
            for y in subterms(c):
                if y.op in ('eq', 'lt') and lv(k) in y.args and any(z.op == 'c' for z in y.args):
                    n = [z for z in y.args if z.op == 'c'][0].args[0]
                    if y.op == 'lt' and y.args[0] is not lv(k):
                        n += 1
                    lim = (k, n, eq(lv(k), C(n)) if y.op == 'eq' else lnot(lt(lv(k), C(n))))
        if lim is None:
            full = lnot(END)
        else:
            full = land(lnot(END), lnot(lim[2]))
            self.ob(True if lim[1] > 0 else False, 'the limit is %d' % lim[1])
        r = logic.equiv(c, full)
        known_ = all(y.op in ('eq', 'lt', 'and', 'or', 'not', 'atom', 'c', 'lv', 'b') for y in subterms(c))
        self.ob(r if r or known_ and not L.exits else None, 'terms are written as long as %s' % show(c, 5)[:150])
        # One term.
        outs = [k for k in L.init if isstr(L.init[k]) and any(y is lv(k) for y in subterms(L.step[k])) and not isbuf(L.init[k])]
        good = []
        pre = 'tex_' if self.tex else ''
        el = mk('deref', lv(it))
        cf, key = mk('out', 'cf_%sstream_insert' % pre, mk('fld', el, 'second')), mk('out', 'key_%sstream_insert' % pre, mk('fld', el, 'first'))
        A = {n: mk('atom', n) for n in ('one', 'minus', 'unit', 'front', 'back')}
        LEN = mk('len')
        A['long'] = lt(C(2), LEN)

        def rt(c):
            c = rw(c)

            def f(x):
                if x.op in ('eq', 'lt'):
                    for i in (0, 1):
                        u, v = x.args[i], x.args[1 - i]
                        try:
                            if u.op == 'str' and x.op == 'eq':
                                t = text(v)
                                k = {(cf, '1'): 'one', (cf, '-1'): 'minus', (key, '1'): 'unit'}.get((t[0] if len(t) == 1 else None, u.args[0]))
                                if k:
                                    return A[k]
                            if u.op == 'c' and v.op == 'call' and re.search(r'basic_string(<.*>)?::(front|back)$', str(v.args[0])) and text(v.args[1]) == [cf]:
                                fr = str(v.args[0]).endswith('front')
                                if x.op == 'eq' and u is C(40 if fr else 41):
                                    return A['front' if fr else 'back']
                            if u.op == 'c' and v.op == 'idx' and x.op == 'eq' and text(v.args[0]) == [cf]:
                                fr, bk = v.args[1] is C(0), sub(v.args[1], mk('size', v.args[0])) is C(-1)
                                if fr and u is C(40) or bk and u is C(41):
                                    return A['front' if fr else 'back']
                            if u.op == 'c' and v.op == 'size' and text(v.args[0]) == [cf]:
                                return bound(subst(x, lambda y: LEN if y is v else None))
                            if u.op == 'str' and v.op == 'str':
                                return TRUE if u is v else FALSE
                        except Unknown:
                            pass
                return None
            return subst(c, f)
        ret = None
        for k in outs:
            st = L.step[k]
            if any(y.op in ('upd', 'call') and 'stream_insert' in str(y.args[0]) for y in subterms(st)):
                ret = k
        if ret is None:
            direct = [k for k in L.init if k == (('a', 0),)]
            raise LookupError('what is collected')
        self.ob(True if join(text(L.init[ret])) == [] else None, 'something is written before the first term')
        paren = land(A['front'], A['back'], A['long'])
        st = L.step[ret]
        for more in (True, False):
            for unit in (True, False):
                for c, cc, xs in (('1', land(A['one'], lnot(A['minus']), lnot(A['front']), lnot(A['back']), eq(LEN, C(1))), '1'), ('-1', land(A['minus'], lnot(A['one']), lnot(A['front']), lnot(A['back']), eq(LEN, C(2))), '-1'),
                                  ('other', land(lnot(A['one']), lnot(A['minus']), lnot(paren), lt(C(0), LEN)), None), ('in brackets', land(lnot(A['one']), lnot(A['minus']), A['front'], A['back'], A['long']), None)):
                    case = land(cc, A['unit'] if unit else lnot(A['unit']), MORE if more else lnot(MORE))
                    if unit:
                        want = [mk('mid', cf)] if c == 'in brackets' else [xs or cf]
                    elif xs:
                        want = [xs[:-1], key]
                    else:
                        want = [cf] + ([] if self.tex else ['*']) + [key]
                    self.piece(st, case, join([lv(ret)] + want + (['+'] if more else [])), rt, {cf: xs, key: '1' if unit else None},
                               'for a coefficient %s and a key %s, %s,' % (c, '1' if unit else 'other than 1', 'followed by another term' if more else 'the last one'))
        return self.after(it, ret, lim, END, rw)

    def piece(self, t, case, want, rw, names_, when, ok_ops=('lv', 'lx', 'out', 'mid', 'fld', 'deref', 'p', 'call', 'text', 'part')):
        want = join([names_.get(x) or x if isinstance(x, T) else x for x in want])
        res = None
        for c, ps in self.branches(t, case, rw):
            if not isinstance(ps, list):
                return self.ob(None, str(ps))
            ps = join([names_.get(x) or x if isinstance(x, T) else x for x in ps])
            if ps != want:
                known_ = all(isinstance(x, str) or x.op in ok_ops and not any(y.op in ('ite', 'unknown', 'opq') for y in subterms(x)) for x in ps)
                if known_ and (c is case or logic.sat(c) is True):
                    return self.ob(False, '%s%s %s is written, not %s' % (when, '' if c is case else ' and a further condition,', shown(ps), shown(want)))
                res = ps
        self.ob(None if res is not None else True, '%s %s is written, not %s' % (when, shown(res or []), shown(want)))

    def branches(self, t, case, rw, depth=6):
        """The text in the case, for each way in which further conditions may turn out."""
        try:
            r = t
            for _ in range(3):
                r = resolve(r, case, rw)
            yield case, stream(r) if r.op == 'upd' and tx.isop(r.args[0], '<<') else text(r)
            return
        except Unknown as e:
            un = e
        c = truth(rw(resolve(un.cond, case, rw))) if un.cond is not None else None
        if c is None or not depth or not self.vocabulary(c):
            yield case, un
            return
        for d in (c, lnot(c)):
            if logic.sat(land(case, d)) is not False:
                yield from self.branches(t, land(case, d), rw, depth - 1)

    def vocabulary(self, c):
        """Conditions which may turn out either way."""
        if c.op in ('and', 'or', 'not'):
            return all(self.vocabulary(x) for x in c.args)
        if c.op in ('eq', 'lt'):
            if all(y.op in ('c', 'lv', 'lx', 'lin', 'N', 'len') or y.op == 'cast' for x in c.args for y in subterms(x) if isinstance(y, T)):
                return any(y.op in ('lv', 'lx', 'N', 'len') for x in c.args for y in subterms(x))
            if c.op == 'eq' and any(x.op == 'str' for x in c.args):
                x = [x for x in c.args if x.op != 'str']
                try:
                    return bool(x) and all(isinstance(y, str) or y.op in ('out', 'mid', 'lv') for y in text(x[0]))
                except Unknown:
                    return False
        return c.op in ('atom', 'b')

    def after(self, it, ret, lim, END, rw):
        """What follows the terms."""
        I, L = self.I, self.L
        fin = self.I.rewrite(I.final.store.get(('a', 0), mk('unk')))
        Ls = [M for M in I.loops.values() if M.id != L.id and any(any(y is self.lx(ret) for y in subterms(M.init[k])) for k in M.init)]
        X = None
        if len(Ls) == 1:
            M = Ls[0]
            k2 = [k for k in M.init if any(y is self.lx(ret) for y in subterms(M.init[k]))][0]
            X, val = mk('lx', M.id, k2), M.init[k2]
            self.signs(M, k2)
        elif not Ls:
            val = None
        else:
            raise LookupError('what happens to the text')
        if val is None:
            return self.ob(None, 'how signs are written')
        assume = lor(END, eq(self.lx(lim[0]), C(lim[1]))) if lim else END
        for name, c, body in (('if all terms have been written', END, []), ('if terms are missing', land(lnot(END), assume), ['\\ldots' if self.tex else '...'])):
            if lim is None and body:
                continue
            self.piece(val, c, [self.lx(ret)] + body, rw, {}, name)
        return X

    def stream(self, X):
        fin = self.I.rewrite(self.I.final.store.get(('a', 0), mk('unk')))
        ALL = mk('text')
        fin = subst(fin, lambda y: ALL if y in X else None)
        X = ALL
        n = mk('N')
        EM = mk('atom', 'empty')
        for size, c in (('without terms', land(EM, lnot(lt(C(1), n)), eq(n, C(0)))), ('with one term', land(lnot(EM), lnot(lt(C(1), n)), eq(n, C(1)))), ('with several terms', land(lnot(EM), lt(C(1), n), lnot(eq(n, C(1))), lnot(eq(n, C(0)))))):
            several = size == 'with several terms'
            terms = ['0'] if size == 'without terms' else [X]
            if self.what in ('coeff', 'coeff_tex') and several:
                terms = ['\\left('] + terms + ['\\right)'] if self.tex else ['('] + terms + [')']
            if self.what == 'full':
                self.header(fin, c, terms)
            else:
                self.piece(fin, c, [self.os] + terms, self.empty, {}, 'for a series ' + size)

    def header(self, fin, c, terms):
        try:
            r = fin
            for _ in range(3):
                r = resolve(r, c, self.empty)
            ps = stream(r)
        except Unknown as e:
            return self.ob(None, str(e))
        ok = ps[0] is self.os and (ps[-1] is terms[0] if isinstance(terms[0], T) else isinstance(ps[-1], str) and ps[-1].endswith(terms[0]))
        self.ob(True if ok else None, 'the text ends with %s' % shown(ps[-1:]))
        flat = [x for x in ps if isinstance(x, T)]
        for name, test in (('the tag', lambda x: any(y.op == 'call' and bq(y) == 'obake::series::tag' and y.args[1] is self.s for y in subterms(x))),
                           ('the number of terms', lambda x: x.op == 'call' and bq(x) == 'obake::series::size' and x.args[1] is self.s),
                           ('the symbol set', lambda x: any(y.op == 'call' and bq(y) == 'obake::series::get_symbol_set' and y.args[1] is self.s for y in subterms(x)))):
            self.ob(True if any(test(x) for x in flat) else False, '%s is not written' % name)

    def signs(self, M, k):
        """Every sum of a negative term is written as a difference."""
        st, cur = M.step[k], mk('lv', M.id, k)
        if st.op == 'upd' and re.search(r'basic_string(<.*>)?::replace(<.*>)?$', str(st.args[0])) and st.args[2] is cur:
            a = st.args[3:]
            pos = a[0]
            f = pos.op == 'call' and re.search(r'basic_string(<.*>)?::find(<.*>)?$', str(pos.args[0])) and pos.args[1] is cur
            if f:
                idx = pos.args[3] if len(pos.args) > 3 else None
                ok = literal_(pos.args[2]) == '+-' and a[1] is C(2) and (len(a) == 4 and a[2] is C(1) and a[3] is C(45) or len(a) == 3 and literal_(a[2]) == '-')
                self.ob(True if ok else False if all(x.op in ('c', 'str') for x in a[1:]) else None, 'the text %s is replaced with %s' % (show(pos.args[2], 2), [show(x, 2) for x in a[1:]]), M.loc)
                if idx is not None and idx.op == 'lv' and idx.args[0] == M.id:
                    j = idx.args[1]
                    d = sub(M.step[j], pos)
                    self.ob(True if M.init[j] is C(0) and d.op == 'c' and 0 <= d.args[0] <= 1 else False if d.op == 'c' and M.init[j].op == 'c' else None, 'the search goes on %s after what was found' % show(d, 2), M.loc)
                ex = [g for g, kind in M.exits] + ([lnot(M.cond)] if M.cond is not TRUE and M.cond is not None else [])
                npos = eq(C(2 ** 64 - 1), pos)
                self.ob(True if len(ex) == 1 and ex[0] is npos else None, 'the search stops if %s' % [show(g, 3)[:80] for g in ex], M.loc)
                return
        self.ob(None, 'how signs are written', M.loc)


def bound(x):
    """Upper bounds as negated lower bounds."""
    if x.op == 'lt' and x.args[1].op == 'c' and x.args[0].op != 'c':
        return lnot(lt(C(x.args[1].args[0] - 1), x.args[0])) if x.args[1].args[0] > 0 else FALSE
    return x


def literal_(t):
    return tx.literal(t)


def isstr(t):
    try:
        return text(t) == [] or literal_(t) is not None
    except Unknown:
        return False


@rule('S14', ['text.cpp'], 'The text of a series is derived from the summary of the loop over its terms, as a sequence of literal text and of the texts of keys and coefficients, for each case of the coefficient, '
      'the key and the position; it is compared with the required sequence, and so are the condition of the loop and what follows it.', min_obligations=60)
def s14(cx):
    P = cx.progs['text.cpp']
    for q, tex in (('full', False), ('coeff', False), ('tex', True), ('coeff_tex', True)):
        for f in cx.entry(P, 'hx::' + q, 1):
            with cx.item(q):
                Text(cx, P, f, tex, 'text').run()
