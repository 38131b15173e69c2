"""Series: degrees and evaluation, reductions over all the terms."""
from .r_series5 import *
from ..series import N, names


def stops10(q, n):
    return stops8(q, n) or bool(re.search(r'obake::detail::(ss_intersect_idx|sm_intersect_idx|safe_int_add)$', q))


def terms_of(I, el, s):
    """The loop visiting every term of the series once, with the number of terms skipped at the start."""
    if el.op == 'elem' and el.args[1] is s:
        L = I.loops[el.args[0]]
        return L, 0
    if el.op == 'deref' and el.args[0].op in ('lv', 'lin'):
        cur = el.args[0]
        d = cur.args[0] if cur.op == 'lin' else 0
        lv = sub(cur, C(d))
        if lv.op != 'lv':
            raise LookupError('terms visited: %s' % show(el, 4)[:120])
        L = I.loops[lv.args[0]]
        k = lv.args[1]
        b = L.init.get(k)
        n = 0
        if b is not None and b.op == 'lin':
            n = b.args[0]
            b = sub(b, C(n))
        if b is None or series_query(b) not in ('begin', 'cbegin') or b.args[1] is not s:
            raise LookupError('iteration from %s' % (show(b, 4)[:100] if b is not None else 'unknown'))
        st = L.step.get(k)
        if st is not add(lv, C(1)):
            raise LookupError('the iterator advances to %s' % show(st, 4)[:100])
        c = L.cond
        if c is None or c.op != 'not' or c.args[0].op != 'eq' or cur not in c.args[0].args:
            raise LookupError('iteration condition')
        e = [x for x in c.args[0].args if x is not cur][0]
        if series_query(e) not in ('end', 'cend') or e.args[1] is not s:
            raise LookupError('iteration end %s' % show(e, 4)[:100])
        return L, n + d
    if el.op == 'elem' and el.args[1].op == 'elem' and el.args[1].args[1] is mk('fld', s, N.tabs):
        L = I.loops[el.args[0]]
        A = I.loops[el.args[1].args[0]]
        if A.exits:
            raise Partial(A.loc, 'some of the terms are not visited')
        return L, 0
    if el.op == 'elem' and el.args[1].op == 'idx' and el.args[1].args[0] is mk('fld', s, N.tabs):
        L = I.loops[el.args[0]]
        i = el.args[1].args[1]
        if i.op == 'c':
            raise Partial(L.loc, 'only the terms of one table are visited')
        if i.op == 'lv':
            A = I.loops[i.args[0]]
            if A.exits:
                raise Partial(A.loc, 'some of the terms are not visited')
            all_indices(I, A, i, el.args[1].args[0])
            return L, 0
    raise LookupError('terms visited: %s' % show(el, 4)[:120])


def unit(t):
    """Values in normal form."""
    def f(x):
        if x.op == 'deref' and x.args[0].op == 'ref':
            return subst(x.args[0].args[0], f)
        return None
    return canon(plain(subst(clean(t), f)))


def accumulation(I, t):
    """(loop, key of the accumulator, value before, value after one term), through nested loops."""
    if t.op != 'lx':
        raise LookupError('result %s' % show(t, 4)[:120])
    lid, k = t.args
    L = I.loops[lid]
    init = L.init[k]
    st = L.step[k]
    me = mk('lv', lid, k)
    if st.op == 'ite' and me in st.args[1:]:
        c, st = (st.args[0], st.args[2]) if st.args[1] is me else (lnot(st.args[0]), st.args[1])
        N0 = p('terms')
        if st.op == 'lx' and L.range is not None:
            tab = mk('elem', lid, L.range)

            def sz(x):
                if x.op in ('size', 'empty', 'call') and isinstance(x.args[-1], T) and x.args[-1] is tab:
                    m = x.op if x.op != 'call' else x.args[0].rsplit('::', 1)[-1]
                    return {'size': N0, 'empty': eq(C(0), N0)}.get(m)
                return None
            c2 = truth(subst(clean(c), sz))
            if not logic.implies(c2, eq(C(0), N0), nonneg=(N0,)):
                simple = all(x.op in ('p', 'c', 'eq', 'lt', 'and', 'or', 'not') for x in subterms(c2))
                raise Partial(L.loc, 'the terms of a table are skipped if %s' % show(c2, 4)[:120]) if simple else LookupError('tables skipped if %s' % show(c, 4)[:100])
        else:
            st = L.step[k]
    if st.op == 'lx' and st.args[0] != lid:
        # A nested loop which starts from the value so far.
        M = I.loops[st.args[0]]
        i2 = M.init[st.args[1]]
        if i2 is not mk('lv', lid, k):
            raise Partial(M.loc, 'the result is started again for each table') if i2 is init else LookupError('nested accumulation')
        M2, k2, _i, s2 = accumulation(I, st)
        return M2, k2, init, s2
    return L, k, init, st


def degree_of(f, x, s, names_):
    """The degree required of a term."""
    ta = f['ta']
    ss = operand_ss(s)
    k, c = mk('fld', x, 'first'), mk('fld', x, 'second')
    if names_ is not None:
        idx = mk('call', 'obake::detail::ss_intersect_idx', names_, ss)
        kd, cd = mk('call', 'hx::key_p_degree', k, idx, ss), mk('call', 'hx::p_degree', c, names_)
    else:
        kd, cd = mk('call', 'hx::key_degree', k, ss), mk('call', 'hx::degree', c)
    if 'key0' in ta:
        return [cd]
    if 'hx::cf' in ta:
        return [kd]
    if 'hx::cq' in ta:
        return [mk('call', 'hx::operator+', kd, cd), mk('call', 'hx::operator+', cd, kd)]
    return [mk('call', 'obake::detail::safe_int_add<long>', kd, cd), mk('call', 'obake::detail::safe_int_add<long>', cd, kd)]


def max_of(st, me):
    """The other value, if a step keeps the largest of two."""
    if st.op in ('max', 'smax', 'umax') and me in st.args:
        o = [x for x in st.args if x is not me]
        return o[0] if len(o) == 1 else None
    if st.op == 'min' and me in st.args:
        raise Partial('', 'the smallest degree is kept')
    if st.op == 'ite':
        c, a, b = st.args
        if c.op == 'not':
            c, a, b = c.args[0], b, a
        less = None
        if c.op == 'call' and c.args[0].split('<')[0].endswith('operator') and c.args[0].split('operator')[-1].startswith('<') and len(c.args) == 3:
            less = c.args[1:]
        elif c.op == 'lt':
            less = c.args
        if less:
            u, v = less
            if {plain(u), plain(v)} == {plain(a), plain(b)} and me in (plain(u), plain(v)):
                # if (u < v) a else b
                if plain(a) is plain(v):
                    return [x for x in (plain(a), plain(b)) if x is not me][0]
                raise Partial('', 'the smallest degree is kept')
    return None


def largest(cx, op, f, s, names_):
    I = op.I
    rule = 'degree'
    t = clean(I.rewrite(I.ret))
    E = mk('call', 'obake::series::empty', s)
    known10 = lambda q: known(q) or q.startswith(('obake::series::', 'obake::detail::safe_int_add', 'obake::detail::ss_intersect_idx', 'hx::'))

    def f0(x):
        q = series_query(x)
        if x.op == 'eq' and x.args[0] is C(0) and series_query(x.args[1]) == 'size' and x.args[1].args[1] is s:
            return E
        if x.op == 'eq' and all(series_query(z) in ('begin', 'cbegin', 'end', 'cend') and z.args[1] is s for z in x.args) and len({series_query(z)[-3:] for z in x.args}) == 2:
            return E
        return None
    t = subst(t, f0)
    for fact in (True, False):
        v = unit(assume_in(t, {E: fact}))
        if fact:
            if v.op == 'lx':
                L = I.loops[v.args[0]]
                try:
                    _l, _k, v, _s = accumulation(I, v)
                    v = unit(v)
                except (LookupError, Partial):
                    pass
            op.ob(True if v is C(0) else False if definite(v, known10) else None, rule, '', 'the degree of an empty series is %s' % show(v, 4)[:120])
            continue
        try:
            L, k, init, st = accumulation(I, v)
        except Partial as e:
            op.ob(False, rule, e.loc, str(e))
            continue
        except LookupError as e:
            op.ob(False if definite(v, known10) else None, rule, '', 'the degree of a series: %s' % e)
            continue
        me = mk('lv', L.id, k)
        st, init = unit(st), unit(assume_in(init, {E: False}))
        try:
            d = max_of(st, me)
        except Partial as e:
            op.ob(False, rule, L.loc, str(e))
            continue
        if d is None:
            op.ob(None, rule, L.loc, 'each term changes the degree to %s' % show(st, 5)[:200])
            continue
        els = [x for x in subterms(d) if x.op == 'fld' and x.args[1] in ('first', 'second')]
        if not els:
            op.ob(None, rule, L.loc, 'the degree of a term is %s' % show(d, 5)[:200])
            continue
        el = els[0].args[0]
        try:
            T_, skip = terms_of(I, el, s)
            if T_ is not L:
                raise LookupError('loops do not match')
            if L.exits:
                raise Partial(L.loc, 'some of the terms are not visited')
            op.ob(True if skip in (0, 1) else False, rule, L.loc, 'the terms visited skip the first %s' % skip)
        except Partial as e:
            op.ob(False, rule, e.loc or L.loc, str(e))
            continue
        except LookupError as e:
            op.ob(None, rule, L.loc, str(e))
            continue
        want = [unit(x) for x in degree_of(f, el, s, names_)]
        op.ob(True if d in want else False if definite(subst(d, lambda z: p('term') if z is el else None), known10) else None, rule, L.loc,
              'the degree of a term is %s' % show(d, 6)[:240])
        # The first value.
        firsts = [x.args[0] for x in subterms(init) if x.op == 'fld' and x.args[1] in ('first', 'second')]
        el0 = firsts[0] if firsts else None
        at_begin = el0 is not None and el0.op == 'deref' and series_query(el0.args[0]) in ('begin', 'cbegin') and el0.args[0].args[1] is s
        ok = at_begin and init in [unit(x) for x in degree_of(f, el0, s, names_)]
        op.ob(True if ok else False if definite(init, known10) else None, rule, L.loc, 'the largest degree starts from %s' % show(init, 5)[:200])


@rule('S10', ['series.cpp'], 'Total and partial degree of an arbitrary series, for keys and coefficients with and without a degree.', min_obligations=8)
def s10(cx):
    P = cx.progs['series.cpp']
    names(P)
    for fn in ('deg', 'pdeg'):
        for f in cx.entry(P, 'hx::' + fn, 4, pred=lambda f: bool(f.get('ta'))):
            with cx.item('%s %s' % (fn, nice(f))):
                op = Op(cx, P, f, stops_=stops10)
                op.what = '%s degree, %s' % ('partial' if fn == 'pdeg' else 'total', nice(f))
                op.loc = retloc(op) or op.loc
                ps = [p(q['n']) for q in f['params']]
                largest(cx, op, f, ps[0], ps[1] if fn == 'pdeg' else None)


@rule('S11', ['series.cpp'], 'Evaluation of an arbitrary series over an arbitrary map of values.', min_obligations=5)
def s11(cx):
    P = cx.progs['series.cpp']
    names(P)
    known11 = lambda q: known(q) or q.startswith(('obake::series::', 'obake::detail::sm_intersect_idx', 'hx::')) or q in ('size',)
    for f in cx.entry(P, 'hx::eval', 1, pred=lambda f: bool(f.get('ta'))):
        with cx.item(nice(f)):
            op = Op(cx, P, f, stops_=stops10)
            op.what = 'evaluation'
            op.loc = retloc(op) or op.loc
            I = op.I
            s, sm = (p(q['n']) for q in f['params'])
            ss = operand_ss(s)
            short = lambda t: subst(t, lambda x: mk('call', 'obake::detail::sm_intersect_idx', *x.args[1:]) if x.op == 'call' and x.args[0].startswith('obake::detail::sm_intersect_idx<') else None)
            si = mk('call', 'obake::detail::sm_intersect_idx', sm, ss)
            thr = short(unit(clean(throw_cond(I, lambda e: e.q != 'rethrow'))))
            a, b = p('symbols mapped'), p('symbols')

            def sz(x):
                if x.op in ('size', 'call') and isinstance(x.args[-1], T) and (x.op == 'size' or x.args[0].rsplit('::', 1)[-1] == 'size'):
                    return a if x.args[-1] is si else b if x.args[-1] is ss else None
                return None
            g = truth(subst(thr, sz))
            r = logic.equiv(g, lnot(eq(a, b)), lnot(lt(b, a)), nonneg=(a, b))
            op.ob(True if r else False if g.op == 'c' or definite(g, known11) else None, 'evaluation', '', 'an error is raised if %s' % show(g, 5)[:200])
            t = clean(I.rewrite(I.ret))
            try:
                L, k, init, st = accumulation(I, t)
            except Partial as e:
                op.ob(False, 'evaluation', e.loc, str(e))
                continue
            except LookupError as e:
                op.ob(False if definite(t, known11) else None, 'evaluation', '', str(e))
                continue
            init = unit(init)
            op.ob(True if init is C(0) else False if definite(init, known11) else None, 'evaluation', L.loc, 'the sum starts from %s' % show(init, 4)[:100])
            me = mk('lv', L.id, k)
            st = short(unit(st))
            d = st.args[3] if st.op == 'upd' and st.args[0].split('<')[0].endswith('operator+=') and len(st.args) == 4 and st.args[2] is me else None
            if d is None:
                op.ob(False if definite(subst(st, lambda z: p('sum') if z is me else p('term') if z.op == 'elem' else None), known11) else None, 'evaluation', L.loc,
                      'each term changes the sum to %s' % show(st, 5)[:200])
                continue
            els = [x.args[0] for x in subterms(d) if x.op == 'fld' and x.args[1] in ('first', 'second')]
            try:
                if not els:
                    raise LookupError('terms visited')
                T_, skip = terms_of(I, els[0], s)
                if T_ is not L:
                    raise LookupError('loops do not match')
                if L.exits:
                    raise Partial(L.loc, 'some of the terms are not visited')
                op.ob(skip == 0, 'evaluation', L.loc, 'the terms visited skip the first %s' % skip)
            except Partial as e:
                op.ob(False, 'evaluation', e.loc or L.loc, str(e))
                continue
            except LookupError as e:
                op.ob(None, 'evaluation', L.loc, str(e))
                continue
            el = els[0]
            kv = mk('call', 'hx::key_evaluate', mk('fld', el, 'first'), si, ss)
            cv = mk('call', 'hx::evaluate', mk('fld', el, 'second'), sm)
            want = [mk('call', 'hx::operator*', kv, cv), mk('call', 'hx::operator*', cv, kv)]
            op.ob(True if d in want else False if definite(subst(d, lambda z: p('term') if z is el else None), known11) else None, 'evaluation', L.loc,
                  'each term contributes %s' % show(d, 7)[:260])
            for e in I.trace:
                if e.kind == 'call' and str(e.q).endswith('operator+=') and e.args[0] is me:
                    g = land(*[clean(I.rewrite(z)) for z in e.guards])
                    g = assume_in(short(unit(g)), {})
                    extra = [z for z in (g.args if g.op == 'and' else (g,)) if mentions_el(z, el)]
                    op.ob(True if not extra else None, 'evaluation', e.loc, 'a term contributes if %s' % show(land(*extra), 4)[:160])


def mentions_el(t, el):
    return any(x is el for x in subterms(t))
