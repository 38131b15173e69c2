"""Series: state changes, construction, negation, addition and subtraction, judged on the terms of the result."""
from ..rlib import *
from ..series import *
from ..series import N
from .. import logic
from . import rule
from .r_series import Op, p, nice
from .r_series2 import um, tabs, emptiness, definite, same_or, default, retloc

VOC = re.compile(r'boost::|key_merge_symbols$|hx::|std::|obake::(series|key_|detail::merge_symbol_sets|detail::series|negate|is_zero|pow|degree|p_degree|evaluate)|operator')
TERM = mk('TERM')


def known(q):
    return bool(VOC.match(q))


def plain(t):
    """A value without conversions, negation in one form, stored symbol sets read."""
    def f(x):
        if x.op in ('conv', 'cast'):
            return plain(x.args[1])
        if x.op == 'ctor' and len(x.args) == 2:
            return plain(x.args[1])
        if x.op == 'upd' and len(x.args) == 3 and x.args[0].split('<')[0].endswith('negate'):
            return mkneg(plain(x.args[2]))
        if x.op == 'neg':
            return mkneg(plain(x.args[0]))
        if x.op == 'ref':
            return plain(x.args[-1])
        if x.op == 'deref' and x.args[0].op == 'ref':
            return plain(x.args[0].args[-1])
        if x.op == 'upd' and len(x.args) == 4 and x.args[0].split('<')[0].endswith('::operator='):
            return plain(x.args[3])
        if is_call(x, 'flyweight::get') or is_call(x, 'series::get_symbol_set'):
            y = css(mk('deref', mk('ref', x)))
            return plain(y) if y.op == 'ss' else None
        if x.op == 'ss' and x.args[0].op == 'ss':
            return plain(x.args[0])
        if x.op == 'ctor' and 'flyweight' in str(x.args[0]):
            return mk('ss', EMPTY_SS if len(x.args) == 1 else plain(x.args[1]))
        return None
    return subst(t, f)


def mkneg(x):
    return x.args[0] if x.op == 'neg' else mk('neg', x)


def field(v, n):
    return clean(unwith(v, [n]))


class Judge:
    """Judgements on the series value v of an analysed operation."""

    def __init__(self, op, v, rule, loc='', facts=None):
        self.op, self.rule, self.facts = op, rule, dict(facts or {})
        self.I = op.I
        self.v = clean(v, self.facts)
        self.loc = loc or retloc(op)

    def ob(self, ok, detail='', loc=''):
        return self.op.ob(ok, self.rule, loc or self.loc, detail)

    def value(self, got, want, name):
        g, w = self.norm(self.through(got)), self.norm(want)
        if g is w:
            return self.ob(True)
        if g.op == 'ite':
            for c, val in ((g.args[0], True), (lnot(g.args[0]), False)):
                a = g.args[1] if val else g.args[2]
                if not logic.sat(land(c, self.assume())):
                    continue
                self.value(a, want, name)
            return
        sure = definite(g, known) and not any(x.op in ('lx', 'lv') for x in subterms(g))
        self.ob(False if sure else None, '%s is %s where %s is required' % (name, show(g, 6)[:250], show(w, 6)[:250]))

    def norm(self, t):
        return plain(t)

    def through(self, t):
        """A field of a series whose terms only have been modified by a loop: the field before the loop."""
        def f(x):
            if x.op == 'fld' and x.args[1] != N.tabs and x.args[0].op in ('lx', 'upd'):
                v = self.before(x.args[0])
                return None if v is None else clean(unwith(v, [x.args[1]]))
            return None
        return subst(t, f)

    def before(self, v):
        if v.op == 'upd' and v.args[0] == 'elemwrite':
            return self.before(v.args[1]) or v.args[1]
        if v.op == 'lx':
            L, k = self.I.loops[v.args[0]], v.args[1]
            s = L.step.get(k)
            while s is not None and s.op == 'upd' and s.args[0] == 'elemwrite':
                s = s.args[1]
            if s is mk('lv', L.id, k):
                return self.before(L.init[k]) or L.init[k]
        return None

    def assume(self):
        return land(*[c if v else lnot(c) for c, v in self.facts.items()])

    def ss(self, want):
        self.value(ss_of(self.v), want if want.op in ('ss',) else mk('ss', want), 'the symbol set')

    def tag(self, want):
        self.value(field(self.v, N.tag), want, 'the tag')

    def log2(self, want):
        self.value(strip_cast(field(self.v, N.log2)), want, 'the logarithm of the number of tables')

    def same_tables(self):
        """The number of tables is the one of the field."""
        t = field(self.v, N.tabs)
        try:
            a = seg(self.I, t)
        except LookupError as e:
            n = strip_cast(t.args[1]) if t.op == 'ctor' and len(t.args) == 2 else None
            bad = n is not None and definite(n, known) and (n.op == 'shl' and n.args[0].op == 'c' or n.op in ('c', 'lin', 'fld'))
            return self.ob(False if bad else None, str(e)[-120:] if not bad else 'the number of tables is %s' % show(n, 4))
        self.value(strip_cast(a), self.through(strip_cast(field(self.v, N.log2))), 'the logarithm of the number of tables made')

    def terms(self, want, depth=0, v=None, facts=None):
        """The terms: want is a list of (operand, key, coefficient, only)."""
        v = self.v if v is None else v
        facts = dict(self.facts) if facts is None else facts
        try:
            ents = contents(self.I, mk_tabs(v))
        except Split as s:
            if depth > 5:
                return self.ob(None, 'too many cases')
            for val in (True, False):
                f = dict(facts)
                f[s.c] = val
                if logic.sat(land(*[c if x else lnot(c) for c, x in f.items()])):
                    self.terms(want, depth + 1, clean(assume_in(v, {s.c: val})), f)
            return
        except Partial as e:
            return self.ob(False, str(e), e.loc)
        except LookupError as e:
            return self.ob(None, 'terms not recognised: %s' % e)
        asm = land(*[c if x else lnot(c) for c, x in facts.items()])
        self.match(ents, want, facts, asm)

    def match(self, ents, want, facts, asm):
        got = {}
        for e in ents:
            if isinstance(e, tuple):
                return self.ob(None, 'terms removed')
            c = truth(assume_in(land(*[clean(x) for x in e.conds]), facts))
            if c is FALSE or not logic.sat(land(c, asm)):
                continue
            o = e.op if isinstance(e.op, T) else p(e.op) if e.op is not None else None
            only = truth(clean(e.only))
            sig = (o, self.norm(e.key), self.norm(e.cf), only)
            got.setdefault(sig, []).append((c, e))
        wanted = [(p(w[0]) if isinstance(w[0], str) else w[0], self.norm(w[1]), self.norm(w[2]), w[3] if len(w) > 3 else TRUE) for w in want]
        unk = False
        for sig, l in got.items():
            m = [w for w in wanted if w[:3] == sig[:3] and logic.equiv(sig[3], w[3])]
            if m:
                wanted.remove(m[0])
                d = lor(*[c for c, e in l])
                self.ob(logic.equiv(d, TRUE, asm), 'the terms of %s are used only if %s' % (self.name(sig[0]), show(d, 6)[:250]))
                for i in range(len(l)):
                    for j in range(i):
                        both = logic.sat(land(l[i][0], l[j][0], asm))
                        if both:
                            self.ob(False if l[i][0] is l[j][0] or l[i][0] is TRUE or l[j][0] is TRUE else None,
                                    'the terms of %s are used twice' % self.name(sig[0]))
                continue
            near = [w for w in wanted if w[0] is sig[0]]
            dfn = all(definite(x, known) for x in sig if isinstance(x, T))
            loc = l[0][1].loc
            unk = unk or not dfn
            d = '; '.join('%s %s' % (n, show(x, 6)[:200]) for n, x in (('key', sig[1]), ('coefficient', sig[2]), ('restricted to', sig[3])) if x is not TRUE)
            wd = '; '.join('%s %s' % (n, show(x, 6)[:200]) for w in near for n, x in (('key', w[1]), ('coefficient', w[2]), ('restricted to', w[3])) if x is not TRUE)
            self.ob(False if dfn else None, 'the terms of %s appear with %s where %s is required' % (self.name(sig[0]), d, wd or 'none of them'), loc)
            if near:
                wanted.remove(near[0])
        for w in wanted:
            self.ob(None if unk else False, 'the terms of %s are missing from the result' % self.name(w[0]))

    def name(self, o):
        return 'the value' if o is None else show(o, 3)[:60]


def final(op, i):
    return op.I.final.store.get(('a', i))


def throws_iff(op, rule, want, exc='std::invalid_argument', assume=TRUE):
    I = op.I
    g = css(nseg(I, clean(throw_cond(I, lambda e: e.q not in ('rethrow',) and not has_caught(land(*e.guards))))))
    r = logic.equiv(g, want, assume)
    loc = [e.loc for e in I.trace if e.kind == 'throw' and e.q != 'rethrow'] or [op.loc]
    op.ob(r if r or definite(g, known) else None, rule, loc[0], 'an error is raised if %s; required: %s' % (show(g, 6)[:200], show(want, 6)[:200]))
    for e in I.trace:
        if e.kind == 'throw' and e.q != 'rethrow' and land(*[clean(x) for x in e.guards]) is not FALSE and exc is not None:
            op.ob(e.q == exc, rule, e.loc, '%s raised' % e.q)


EMPTYQ = lambda s: mk('call', 'obake::series::empty', s)


def world_stops(q, n):
    return stops(q, n) or bool(re.search(r'obake::series::(begin|end|cbegin|cend)$', q))


def set_symbols(cx, op, fw):
    s = p('s')
    r = final(op, 0)
    throws_iff(op, 'state', lnot(EMPTYQ(s)))
    J = Judge(op, r, 'state')
    J.ss(mk('ss', mk('fld', p('o'), N.ss)) if fw else p('ss'))
    J.tag(mk('fld', s, N.tag))
    J.log2(mk('fld', s, N.log2))
    J.terms([('s', KEY, CF)])


def set_segments(cx, op):
    s, l = p('s'), p('l')
    J = Judge(op, final(op, 0), 'state')
    throws_iff(op, 'state', lt(C(63), l))
    J.ss(mk('ss', mk('fld', s, N.ss)))
    J.tag(mk('fld', s, N.tag))
    J.log2(l)
    J.same_tables()
    J.terms([])


def unchanged(J, s, terms=None, but=()):
    if 'ss' not in but:
        J.ss(mk('ss', mk('fld', s, N.ss)))
    if 'tag' not in but:
        J.tag(mk('fld', s, N.tag))
    if 'log2' not in but:
        J.log2(mk('fld', s, N.log2))
        J.same_tables()
    J.terms([(s.args[0], KEY, CF)] if terms is None else terms)


TAG0 = mk('tag0')


def tag_default(J):
    t = plain(field(J.v, N.tag))
    J.ob(True if default(t) else False if definite(t, known) else None, 'the tag is %s where a default one is required' % show(t, 5)[:200])


def fresh(J, ss, terms):
    J.ss(ss)
    tag_default(J)
    J.log2(C(0))
    J.same_tables()
    J.terms(terms)


def state(cx, P):
    s, t = p('s'), p('t')
    for fn, h in STATE.items():
        for f in cx.entry(P, 'hx::' + fn, 1, pred=lambda f: bool(f.get('ta'))):
            with cx.item(nice(f)):
                op = Op(cx, P, f)
                h(cx, op)


def h_unchanged(i=0, **kw):
    return lambda cx, op: unchanged(Judge(op, final(op, i), 'state'), p('s'), **kw)


def h_clear(cx, op):
    J = Judge(op, final(op, 0), 'state')
    J.ss(EMPTY_SS)
    tag_default(J)
    J.same_tables()
    J.terms([])


def h_swap(cx, op):
    unchanged(Judge(op, final(op, 0), 'state'), p('t'))
    unchanged(Judge(op, final(op, 1), 'state'), p('s'))


STATE = {
    'set_ss': lambda cx, op: set_symbols(cx, op, False),
    'set_ss_fw': lambda cx, op: set_symbols(cx, op, True),
    'segments': set_segments,
    'reserve': h_unchanged(),
    'clear': h_clear,
    'clear_terms': h_unchanged(terms=[]),
    'swap_m': h_swap,
    'swap_f': h_swap,
    'def': lambda cx, op: fresh(Judge(op, op.I.ret, 'state'), EMPTY_SS, []),
    'copy': lambda cx, op: unchanged(Judge(op, op.I.ret, 'state'), p('s')),
    'move': lambda cx, op: unchanged(Judge(op, op.I.ret, 'state'), p('s')),
    'assign': lambda cx, op: unchanged(Judge(op, final(op, 0), 'state'), p('t')),
    'assign_m': lambda cx, op: unchanged(Judge(op, final(op, 0), 'state'), p('t')),
}


# ---- construction ------------------------------------------------------------------

def construct(cx, P):
    x = p('x')
    S1 = 'obake::series<hx::key, hx::cf, hx::tag>'
    for fn in ('make', 'make_m', 'make_ss', 'assign_from'):
        for f in cx.entry(P, 'hx::' + fn, 1, pred=lambda f: bool(f.get('ta'))):
            src = nice(f).split('<', 1)[1].rstrip('>').split(', ')[-1]
            with cx.item(nice(f)):
                op = Op(cx, P, f, stops_=world_stops)
                v = final(op, 0) if fn == 'assign_from' else op.I.ret
                if src == 'SS':
                    lower(cx, op, v)
                    continue
                J = Judge(op, v, 'construction')
                if src == 'S2':
                    throws_seg(op)
                    unchanged(J, x)
                    continue
                ss = p('ss') if fn == 'make_ss' else EMPTY_SS
                fresh(J, ss, [(None, mk('ctor', KEYTY, mk('ss', ss)), x)])


KEYTY = None


def throws_seg(op):
    pass


def lower(cx, op, v):
    """From a series of higher rank: the single coefficient."""
    x = p('x')
    throws_iff(op, 'construction', lnot(mk('call', 'obake::series::is_single_cf', x)))
    e = EMPTYQ(x)
    fresh(Judge(op, v, 'construction', facts={e: True}), EMPTY_SS, [])
    J = Judge(op, v, 'construction', facts={e: False})
    w = None
    for y in subterms(J.v):
        if y.op == 'fld' and y.args[1] == 'second' and y.args[0].op == 'deref' and is_call(y.args[0].args[0], 'begin'):
            w = y
    if w is None:
        return J.ob(None, 'coefficient not recognised')
    J.ob(w.args[0].args[0].args[1] is x, 'the coefficient is %s' % show(w, 5)[:200])
    J.ss(mk('ss', mk('fld', w, N.ss)))
    J.tag(mk('fld', w, N.tag))
    J.log2(mk('fld', w, N.log2))
    J.terms([(w, KEY, CF)])


def conversion(cx, P):
    s = p('s')
    for f in cx.entry(P, 'hx::conv', 1, pred=lambda f: bool(f.get('ta'))):
        with cx.item(nice(f)):
            op = Op(cx, P, f, stops_=world_stops)
            n = mk('call', 'obake::series::size', s)
            b = None
            for y in list(subterms(op.I.ret)):
                if y.op == 'fld' and y.args[1] == 'second' and y.args[0].op == 'deref' and is_call(y.args[0].args[0], 'begin'):
                    b = y
            if b is None:
                op.ob(None, 'conversion', '', 'coefficient not recognised: %s' % show(op.I.ret, 6)[:200])
                continue
            op.ob(b.args[0].args[0].args[1] is s, 'conversion', '', 'the coefficient is %s' % show(b, 5)[:200])
            k1 = [x for e in op.I.trace for g in e.guards for x in subterms(plain(g)) if is_call(x, 'key_is_one')]
            k1 = k1[0] if k1 else mk('call', 'obake::key_is_one', mk('fld', b.args[0], 'first'), mk('ss', mk('fld', s, N.ss)))

            def nz(t):
                t = subst(css(plain(t)), lambda x: eq(C(0), n) if is_call(x, 'series::empty') and x.args[1] is s else
                          lor(eq(C(0), n), land(eq(C(1), n), ne0(k1))) if is_call(x, 'series::is_single_cf') and x.args[1] is s else None)
                return truth(t) if t.op in BOOL_OPS else t
            if is_call(k1, 'key_is_one'):
                op.ob(k1.args[1] is mk('fld', b.args[0], 'first'), 'conversion', '', 'the key tested is %s' % show(k1.args[1], 5)[:200])
                op.ob(k1.args[2] is mk('ss', mk('fld', s, N.ss)), 'conversion', '', 'the symbol set used is %s' % show(k1.args[2], 5)[:200])
            z = eq(C(0), n)
            single = land(eq(C(1), n), ne0(k1))
            thr = nz(throw_cond(op.I, lambda e: e.q != 'rethrow'))
            cx.cond('conversion', op.what, op.loc, thr, land(lnot(z), lnot(single)), 'the condition for raising an error', nonneg=(n,))
            r = nz(op.I.ret)
            for c, want in ((z, None), (single, plain(b))):
                v = assume_in(r, {z: c is z, eq(C(1), n): c is not z})
                v = plain(v)
                if v.op == 'ite':
                    op.ob(None, 'conversion', '', 'result %s' % show(v, 6)[:200])
                elif want is None:
                    op.ob(True if default(v) or v is C(0) or v.op == 'ctor' and v.args[-1] is C(0) else False if definite(v, known) else None,
                          'conversion', '', 'the value of an empty series is %s' % show(v, 5)[:200])
                else:
                    op.ob(True if v is want else False if definite(v, known) else None, 'conversion', '', 'the value is %s' % show(v, 5)[:200])


def ne0(x):
    return lnot(eq(C(0), x))


@rule('S03', ['series.cpp'], 'Summaries of construction, assignment, conversion and state changes of series: fields and terms of the result compared with the required ones.',
      min_obligations=60)
def s03(cx):
    P = cx.progs['series.cpp']
    names(P)
    state(cx, P)
    construct(cx, P)
    conversion(cx, P)
