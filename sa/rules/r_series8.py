"""Series: filtering, trimming and addition of symbols."""
from .r_series5 import *
from .r_series5 import removed_if, visits_all
from .r_series2 import definite, UM
from .r_series4 import merged, stops4, own_log2
from ..series import N, names, KEY, CF, insertions, qof, seg, nseg, seg_single
from .r_series import destination, table_of


def pred_call(t):
    return t.op == 'call' and t.args[0].split('<')[0] == 'hx::pred::operator()'


def unref(t):
    while t.op == 'deref' and t.args[0].op == 'ref' or t.op == 'call' and len(t.args) == 2 and t.args[0].endswith('table_iterator::operator*'):
        t = t.args[0].args[0] if t.op == 'deref' else mk('deref', t.args[1])
    return t


def filtering(cx, P):
    for f in cx.entry(P, 'hx::filtered', 1, pred=lambda f: bool(f.get('ta'))):
        with cx.item(nice(f)):
            op = Op(cx, P, f)
            s, fn = (p(q['n']) for q in f['params'])
            for J in CJudge(op, op.I.ret, 'filter').cases():
                J.ss(operand_ss(s))
                J.tag(mk('fld', s, N.tag))
                J.same_tables()
                calls = {x for e in op.I.trace for g in e.guards for x in subterms(clean(g)) if pred_call(x)}
                want = {subst(x, lambda z: mk('TERM') if z is x.args[2] else None) for x in calls if x.args[1] is fn}
                if len(want) != 1:
                    J.ob(None if calls else False, 'the predicate is not recognised')
                    continue
                J.terms([(s, KEY, CF, want.pop())])
                placed(J)
    for f in cx.entry(P, 'hx::filter', 1, pred=lambda f: bool(f.get('ta'))):
        with cx.item(nice(f)):
            op = Op(cx, P, f)
            I = op.I
            s, fn = (p(q['n']) for q in f['params'])
            for J in CJudge(op, final(op, 0), 'filter').cases():
                J.ss(operand_ss(s))
                J.tag(mk('fld', s, N.tag))
                J.log2(mk('fld', s, N.log2))
                J.same_tables()
                tests = [e for e in I.trace if e.kind == 'call' and e.q == 'hx::pred::operator()' and e.loops and I.loops[e.loops[0]].kind != 'cb']
                er = [e for e in I.trace if e.kind == 'call' and qof(e).endswith('::erase')]
                if len(tests) != 1 or not er:
                    J.ob(None if er else False, 'the terms are not removed')
                    continue
                m = tests[0]
                el = unref(m.args[1])
                J.ob(True if m.args[0] is fn else None, 'the predicate used is %s' % show(m.args[0], 3)[:100], m.loc)
                try:
                    V = visits_all(I, el, m.loops, m.guards)
                except Partial as e:
                    J.ob(False, str(e), e.loc)
                    continue
                except LookupError as e:
                    J.ob(None, str(e), m.loc)
                    continue
                J.ob(True if root(I, V) is mk('fld', s, N.tabs) else None, 'the terms used are those of %s' % show(root(I, V), 4)[:150], m.loc)
                g = land(*[truth(assume_in(clean(I.rewrite(x)), J.facts)) for x in m.guards if not is_loop_cond(I, m, x)])
                r = logic.equiv(g, TRUE, J.assume())
                J.ob(r if r or definite(g, known) else None, 'the predicate is used only if %s' % show(g, 5)[:200], m.loc)
                Z = [x for e in er for q in e.guards for x in subterms(clean(q)) if pred_call(x)]
                if not Z:
                    J.ob(None, 'the condition for removing terms', er[0].loc)
                    continue
                removed_if(J, m, el, lnot(Z[0]), er, 'if the predicate is false', lambda q: known(q) or q.startswith('hx::'))


def placed(J):
    """Terms copied from one series to another go to the table they come from."""
    op, I = J.op, J.I
    for x in insertions(I):
        destination(op, x)
    for e in I.trace:
        if e.kind == 'call' and qof(e).startswith(UM) and qof(e).endswith('::insert') and len(e.args) == 2 and e.args[1].op == 'elem':
            R = e.args[1].args[1]
            x = type('X', (), {'table': e.args[0], 'e': e, 'I': I})
            vec, i = table_of(x)
            if vec is None or R.op not in ('idx', 'elem'):
                J.ob(None, 'the table terms are inserted into', e.loc)
                continue
            i = strip_cast(i)
            if R.op == 'idx':
                j = strip_cast(R.args[1])
                two = i.op == 'c' and i is not j and not seg_single(land(*[nseg(I, clean(g)) for g in e.guards]), seg(I, vec))
                J.ob(True if i is j else False if two else None, 'terms of table %s are inserted into table %s' % (show(j, 3), show(i, 3)), e.loc)
            else:
                two = i.op == 'c' and not seg_single(land(*[nseg(I, clean(g)) for g in e.guards]), seg(I, vec))
                J.ob(False if two else None, 'terms of any table are inserted into table %s' % show(i, 3), e.loc)


def adding_symbols(cx, P):
    for f in cx.entry(P, 'hx::add_symbols', 1, pred=lambda f: bool(f.get('ta'))):
        with cx.item(nice(f)):
            op = Op(cx, P, f, stops_=stops4)
            s, ss = (p(q['n']) for q in f['params'])
            X = operand_ss(s)
            a, b, fl = (X, ss, 0) if not show(ss, 6) < show(X, 6) else (ss, X, 1)
            mg = lambda i: mk('idx', mk('merged', a, b), C({0: 0, 1: 2, 2: 1}[i] if fl else i))
            none = eq(C(0), mk('size', mg(1)))
            for J in CJudge(op, op.I.ret, 'symbols added').cases():
                g = canon(J.assume())
                J.tag(mk('fld', s, N.tag))
                own_log2(J, s)
                # With no new symbols, the union is the symbol set of the series.
                for val in (True, False):
                    if not logic.sat(land(g, none if val else lnot(none))):
                        continue
                    K = CJudge(op, assume_in(canon_keys(J.v), {none: val}), J.rule, J.loc, {**{canon(k): v for k, v in J.facts.items()}, none: val}, {mg(0): X} if val else None)
                    K.ss(X if val else mg(0))
                    K.terms([(s, KEY if val else mk('call', 'key_merge_symbols', KEY, mg(1), X), CF)])


def canon_keys(v):
    return v


# ---- trimming ------------------------------------------------------------------------

def built(I, t):
    """A collection filled by a loop: (loop, condition, value) or LookupError."""
    while True:
        if t.op == 'upd' and t.args[0].split('<')[0].rsplit('::', 1)[-1] == 'adopt_sequence':
            t = t.args[-1]
        elif t.op in ('conv', 'cast'):
            t = t.args[1]
        elif t.op == 'ctor' and len(t.args) >= 2 and isinstance(t.args[-1], T) and t.args[-1].op == 'lx':
            t = t.args[-1]
        elif t.op in ('mv', 'ss'):
            t = t.args[0]
        else:
            break
    if t.op != 'lx':
        raise LookupError('collection %s' % show(t, 4)[:160])
    L, k = I.loops[t.args[0]], t.args[1]
    b = L.init[k]
    while b.op == 'upd' and b.args[0].rsplit('::', 1)[-1] == 'reserve':
        b = b.args[2]
    if b.op not in ('ctor', 'new') or len(b.args) != 1:
        raise LookupError('collection started from %s' % show(b, 3)[:100])
    me = mk('lv', L.id, k)

    def go(x):
        if x is me:
            return []
        if x.op == 'ite':
            return [(land(x.args[0], c), v) for c, v in go(x.args[1])] + [(land(lnot(x.args[0]), c), v) for c, v in go(x.args[2])]
        if x.op == 'upd' and x.args[2] is me and x.args[0].split('<')[0].rsplit('::', 1)[-1] in ('push_back', 'emplace_back', 'insert', 'emplace', 'emplace_hint'):
            return [(TRUE, x.args[-1])]
        raise LookupError('step of the collection %s' % show(x, 4)[:120])
    r = go(clean(L.step[k]))
    if len(r) != 1:
        raise LookupError('%d insertions in the collection' % len(r))
    return L, r[0][0], r[0][1]


def norm_el(t):
    """Elements reached through iterators or positions."""
    def f(x):
        if x.op == 'deref' and x.args[0].op == 'ref':
            return subst(x.args[0].args[0], f)
        if x.op == 'call' and x.args[0].split('<')[0].endswith('iterator::operator*') and len(x.args) == 2:
            return subst(mk('deref', x.args[1]), f)
        if x.op == 'deref' and x.args[0].op == 'lin':
            b = [q for q, n in x.args[0].args[1] if n == 1 and (q.op == 'begin' or is_call(q, 'begin') or is_call(q, 'cbegin'))]
            if b:
                return mk('idx', subst(b[0].args[-1], f), subst(sub(x.args[0], b[0]), f))
        if x.op in ('cast', 'conv') and len(x.args) == 2 and isinstance(x.args[1], T):
            return subst(x.args[1], f)
        return None
    return canon(subst(t, f))


def trimming(cx, P):
    for f in cx.entry(P, 'hx::trim_s', 1, pred=lambda f: bool(f.get('ta'))):
        with cx.item(nice(f)):
            op = Op(cx, P, f, stops_=lambda q, n: stops(q, n) or q.endswith('obake::safe_convert'))
            I = op.I
            s = p(f['params'][0]['n'])
            X = operand_ss(s)
            rule = 'trim'
            v = clean(I.rewrite(I.ret))
            ob = lambda r, d, loc='': op.ob(r, rule, loc, d)
            known12 = lambda q: known(q) or q.startswith('hx::')
            # The flags of the symbols.
            flags = None
            for e in I.trace:
                if e.kind == 'call' and e.q == 'hx::key_trim_identify' and e.loops and I.loops[e.loops[0]].kind != 'cb':
                    V, key, ss = e.args[0], norm_el(e.args[1]), canon(e.args[2])
                    ob(True if ss is X else False if definite(ss, known12) else None, 'the flags are found with the symbols %s' % show(ss, 4)[:120], e.loc)
                    L = I.loops[e.loops[0]]
                    el = key.args[0] if key.op == 'fld' and key.args[1] == 'first' else None
                    over = el is not None and (el is mk('elem', el.args[0], s) if el.op == 'elem' else False)
                    if el is not None and not over:
                        try:
                            from .r_series7 import terms_of
                            over = terms_of(I, el, s)[1] == 0
                        except Partial as z:
                            over = False
                            ob(False, str(z), z.loc)
                        except LookupError as z:
                            over = False
                    ob(True if over else None, 'the monomials used for the flags are %s' % show(key, 4)[:120], e.loc)
                    xs = [truth(x[0]) for l in e.loops for x in I.loops[l].exits]
                    ob(True if not xs else False if any(x is TRUE for x in xs) else None, 'monomials left unvisited', L.loc)
                    if V.op != 'lv':
                        ob(None, 'the flags', e.loc)
                        continue
                    A = I.loops[V.args[0]]
                    k = V.args[1]
                    B = I.loops[e.loops[0]]
                    init = B.init.get(k)
                    while init is not None and init.op == 'lv':
                        init = I.loops[init.args[0]].init.get(init.args[1])
                    i2 = init
                    flags = mk('lx', B.id, k)
                    ok = False
                    if i2 is not None and i2.op == 'ctor' and 'vector' in i2.args[0] and len(i2.args) >= 3:
                        n = norm_el(i2.args[1])
                        if n.op == 'upd' and n.args[0].split('<')[0].endswith('safe_convert') and n.args[1] == 0:
                            n = n.args[-1]
                        okn = n is mk('size', X)
                        okv = i2.args[2].op == 'c' and i2.args[2] is not C(0)
                        ob(True if okn else False if definite(n, known12) else None, 'the number of flags is %s' % show(n, 4)[:100], e.loc)
                        ob(okv if i2.args[2].op == 'c' else None, 'the flags are initially %s' % show(i2.args[2], 2), e.loc)
                    else:
                        ob(None, 'the initial flags are %s' % (show(init, 4)[:100] if init is not None else 'unknown'), e.loc)
            if flags is None:
                ob(None, 'the flags of the symbols')
                continue

            def collection(t, kind, want):
                """The indices or the names selected by the flags."""
                try:
                    L, c, val = built(I, t)
                except LookupError as e:
                    ob(None, '%s: %s' % (kind, e))
                    return False
                if L.exits:
                    ob(None, '%s: loop with exits' % kind, L.loc)
                    return False
                ixs = {x.args[1] for x in subterms(norm_el(c)) if x.op == 'idx' and x.args[0] is flags}
                if len(ixs) != 1:
                    ob(None, '%s: condition %s' % (kind, show(c, 4)[:120]), L.loc)
                    return False
                i = ixs.pop()
                if i.op != 'lv':
                    ob(None, '%s: index %s' % (kind, show(i, 4)[:120]), L.loc)
                    return False
                k = i.args[1]
                lc = norm_el(L.cond)
                n = mk('size', X)
                full = L.init[k] is C(0) and strip_cast(L.step[k]) is add(i, C(1)) and (lc is lt(i, n) or lc is lnot(eq(i, n)))
                cnt = L.init[k].op == 'c' and all(x.op in ('lv', 'lin', 'size', 'c', 'lt', 'eq', 'not') or x is X or x in list(subterms(X)) for x in subterms(lc))
                ob(True if full else False if cnt else None, '%s: the symbols visited run from %s while %s' % (kind, show(L.init[k], 2), show(lc, 4)[:120]), L.loc)
                F = p('flag')
                c2 = truth(subst(norm_el(c), lambda x: F if x.op == 'idx' and x.args[0] is flags else TRUE if x is lc else None))
                r = logic.equiv(c2, want(eq(C(0), F)), nonneg=())
                ob(True if r else False if all(x.op in ('p', 'c', 'eq', 'lt', 'not', 'and', 'or') for x in subterms(c2)) else None,
                   '%s: symbols are included if %s' % (kind, show(c2, 4)[:120]), L.loc)
                w = norm_el(val)
                wv = i if kind == 'removed symbols' else mk('idx', X, i)
                ob(True if w is wv else False if definite(subst(w, lambda x: p('i') if x is i else None), known12) else None, '%s: %s is included' % (kind, show(w, 4)[:120]), L.loc)
                return True
            # The result.
            nss = unwith(v, [N.ss])
            keys = [x for x in (y for e in I.trace for a in e.args if isinstance(a, T) for y in subterms(a)) if x.op == 'call' and x.args[0].split('<')[0] == 'hx::key_trim']
            sis = {x.args[2] for x in keys}
            if len(sis) != 1:
                ob(None, 'the trimming of the monomials')
                continue
            SI, NS = p('indices removed'), p('symbols left')
            si = sis.pop()
            collection(si, 'removed symbols', lnot)
            while nss.op in ('conv', 'cast', 'fw') and isinstance(nss.args[-1], T):
                nss = nss.args[-1]
            raw = nss
            collection(raw, 'symbols left', lambda z: z)

            def g(x):
                return SI if x is si else NS if x is raw else None
            for J in CJudge(op, v, rule).cases():
                J.v = subst(J.v, g)
                J.tag(mk('fld', s, N.tag))
                own_log2(J, s)
                J.log2(mk('fld', s, N.log2))
                K = TJudge(J, si, SI, raw, NS)
                K.terms([(s, mk('call', 'hx::key_trim', KEY, SI, X), mk('call', 'hx::trim', CF))])


class TJudge(CJudge):
    def __init__(self, J, si, SI, raw, NS):
        self.pair = {si: SI, raw: NS}
        CJudge.__init__(self, J.op, subst(J.v, self.pair.get), J.rule, J.loc, J.facts, J.equal)

    def norm(self, t):
        return CJudge.norm(self, subst(t, self.pair.get))


@rule('S12', ['series.cpp'], 'Trimming of an arbitrary series.', min_obligations=8)
def s12(cx):
    P = cx.progs['series.cpp']
    names(P)
    trimming(cx, P)


@rule('S13', ['series.cpp'], 'Filtering of an arbitrary series by an arbitrary predicate, and addition of symbols.', min_obligations=8)
def s13(cx):
    P = cx.progs['series.cpp']
    names(P)
    filtering(cx, P)
    adding_symbols(cx, P)
