"""Series: lookup, iteration, size, state changes, construction from other values."""
from ..rlib import *
from ..series import *
from ..series import N
from .. import logic
from . import rule
from .r_series import Op, series_ops, p, nice

UM = 'boost::unordered::unordered_flat_map::'


def um(name, *a):
    return mk('call', UM + name, *a)


def tabs(s):
    return mk('fld', s, N.tabs)


def in_world(I, t, single, lg):
    """A term with a single table / several tables."""
    t = nseg(I, t)
    facts = {eq(C(0), lg): single}
    t = assume_in(t, facts)
    if single:
        t = subst(t, lambda x: C(1) if x is mk('nseg', lg) or x is mk('shl', C(1), lg) else C(0) if x is lg else None)
    return truth(t) if t.op in BOOL_OPS else t


def default(t):
    """A value-initialised object."""
    while t.op in ('conv', 'cast'):
        t = t.args[1]
    return t.op == 'ctor' and len(t.args) == 1 or t.op == 'new'


def definite(t, known):
    """Is the term made of known vocabulary only?"""
    for x in subterms(t):
        if x.op in ('opq', 'havoc', 'unk', 'lv', 'lx', 'clo'):
            return False
        if x.op == 'call' and not known(x.args[0].split('<')[0]):
            return False
    return True


KNOWN = lambda q: q.startswith(UM) or q.startswith('hx::') or q.startswith('boost::flyweights::')


def same_or(cx, rule, what, loc, got, want, name, known=KNOWN):
    if got is want:
        return cx.ob(True, rule, what, loc)
    return cx.ob(False if definite(got, known) else None, rule, what, loc, '%s is %s where %s is required' % (name, show(got, 6)[:300], show(want, 6)[:300]))


# ---- lookup ------------------------------------------------------------------------

def find_index(cx, P):
    """The table in which lookups expect a key, as a function of its hash and the number of tables (None if not recognised)."""
    f = [f for f in P.find('hx::find') if f.get('body') is not None and f.get('ta')]
    if not f:
        return None
    I = cx.analyse(P, f[0], exact=True)
    lg = mk('fld', p('s'), N.log2)
    ix = set()
    for e in I.trace:
        if e.kind == 'call' and qof(e) == UM + 'find' and len(e.args) == 2 and e.args[0].op == 'idx' and e.args[0].args[0] is tabs(p('s')):
            if in_world(I, land(*e.guards), False, lg) is not FALSE:
                ix.add(in_world(I, strip_cast(e.args[0].args[1]), False, lg))
    return ix.pop() if len(ix) == 1 else None


def lookup(cx, op):
    """find() returns the iterator to the element with the key in the table of its hash, or the end."""
    I = op.I
    s, k = p('s'), p('k')
    lg = mk('fld', s, N.log2)
    T_ = tabs(s)
    for single in (True, False):
        r = in_world(I, I.ret, single, lg)
        want_i = C(0) if single else mk('band', mk('call', 'hx::hash', k), sub(mk('nseg', lg), C(1)))
        finds = {x for x in subterms(r) if is_call(x, 'unordered_flat_map::find')}
        loc = [e.loc for e in I.trace if e.kind == 'call' and qof(e) == UM + 'find']
        loc = loc[0] if loc else op.loc
        if len(finds) > 1 and not single:
            for e in I.trace:
                if e.kind == 'call' and qof(e) == UM + 'find' and e.args[0].op == 'idx' and strip_cast(e.args[0].args[1]) is C(0):
                    g = in_world(I, land(*e.guards), False, lg)
                    if g is not FALSE and definite(g, KNOWN) and logic.sat(g):
                        op.ob(False, 'find', e.loc, 'only the first table is searched although there may be several: %s' % show(g, 5)[:200])
                        break
        if len(finds) != 1:
            op.ob(None if finds else False, 'find', loc, 'no lookup in a table' if not finds else 'several lookups')
            continue
        F = finds.pop()
        if F.args[1].op != 'idx' or F.args[1].args[0] is not T_:
            op.ob(None, 'find', loc, 'lookup in %s' % show(F.args[1], 5)[:200])
            continue
        i = strip_cast(F.args[1].args[1])
        if single:
            same_or(cx, 'find', op.what, loc, i, want_i, 'with a single table, the index of the table searched')
        else:
            # Any function of the hash will do as long as it is the one used by insertions (checked with them) and a valid index.
            hs = [x for x in subterms(i) if x.op == 'call' and x.args[0].endswith('hash')]
            if i is want_i:
                op.ob(True, 'find', loc)
            elif not hs or any(x.args[-1] is not k for x in hs):
                op.ob(False if definite(i, KNOWN) else None, 'find', loc, 'the table is %s' % show(i, 5)[:200])
            else:
                ok = i.op in ('band', 'mod')
                op.ob(False if i.op == 'band' and not any(y is sub(mk('nseg', lg), C(1)) for y in i.args) else None, 'find', loc,
                      'the table is %s' % show(i, 5)[:200])
        op.ob(F.args[2] is k, 'find', loc, 'key %s is looked for' % show(F.args[2], 4))
        E = um('end', F.args[1])
        c = eq(F, E)
        for found in (True, False):
            w = assume_in(r, {c: not found})
            tp, ix, lo = (unwith(w, [n]) for n in (N.it_tabs, N.it_idx, N.it_loc))
            what = 'if the key is %sfound, ' % ('' if found else 'not ')
            if any(subterm_is(x, c) for x in (tp, ix, lo)) or any(x.op == 'ite' for x in (tp, ix, lo)):
                op.ob(None, 'find', loc, 'result not recognised')
                continue
            same_or(cx, 'find', op.what, loc, tp, mk('addr', ('a', 0), (('f', N.tabs),)), what + 'the iterator refers to tables which')
            wi = F.args[1].args[1] if found else (C(1) if single else mk('nseg', lg))
            same_or(cx, 'find', op.what, loc, strip_cast(ix), strip_cast(wi), what + 'the table index of the result')
            if found:
                same_or(cx, 'find', op.what, loc, lo, F, what + 'the position in the table')
            else:
                op.ob(True if default(lo) else False if definite(lo, KNOWN) else None, 'find', loc, what + 'the position in the table is %s' % show(lo, 5)[:200])


def subterm_is(t, x):
    return any(y is x for y in subterms(t))


# ---- sums over tables --------------------------------------------------------------

def over_tables(I, L, V):
    """Does the loop visit every table once?  (element term, problem)"""
    if L.kind == 'rfor':
        if L.range is V:
            return mk('elem', L.id, V)
        return None
    if L.kind == 'cb' and L.range is not None and L.range.op == 'cbdom':
        a = L.range.args
        if a[0].split('<')[0] == 'std::accumulate' and a[1] is mk('begin', V) and a[2] is mk('end', V):
            return 'acc'
    if L.kind in ('for', 'while') and not L.exits:
        for k, i in L.init.items():
            if i is C(0) and strip_cast(L.step.get(k, i)) is add(mk('lv', L.id, k), C(1)):
                c = nseg(I, strip_cast(L.cond)) if L.cond is not None else None
                try:
                    lg = seg(I, V)
                except LookupError:
                    return None
                lv = mk('lv', L.id, k)
                if c in (lt(lv, mk('nseg', lg)), lnot(eq(lv, mk('nseg', lg))), lt(lv, mk('shl', C(1), lg)), lnot(eq(lv, mk('shl', C(1), lg)))):
                    return mk('idx', V, lv)
    return None


def table_sum(I, t, V):
    """Sum of a quantity of each table: (per-table term with the table replaced by TAB, type) or None."""
    TAB = mk('TAB')
    if t.op == 'call' and t.args[0].split('<')[0] == 'std::accumulate':
        for L in I.loops.values():
            if L.kind == 'cb' and over_tables(I, L, V) == 'acc' and t.args[1:4] == L.range.args[1:4]:
                acc = [x for x in subterms(L.result) if x.op == 'cbarg' and x.args[:2] == (L.id, 0)]
                el = [x for x in subterms(L.result) if x.op == 'cbarg' and x.args[:2] == (L.id, 1)]
                if len(acc) != 1:
                    return None
                per = subst(sub(L.result, acc[0]), lambda x: TAB if el and x is el[0] else None)
                ty = t.args[0]
                return t.args[3], per, acc[0].args[2]
        return None
    if t.op == 'lx':
        L = I.loops[t.args[0]]
        k = t.args[1]
        el = over_tables(I, L, V)
        if el is None or k not in L.init or k not in L.step:
            return None
        per = sub(L.step[k], mk('lv', L.id, k))
        if subterm_is(per, mk('lv', L.id, k)):
            return None
        return L.init[k], subst(per, lambda x: TAB if x is el or x.op == 'elem' and x.args[0] == L.id else None), None
    return None


def some_table(I, c, V):
    """exists table: condition, with the table replaced by TAB."""
    neg = False
    if c.op == 'not':
        neg, c = True, c.args[0]
    if c.op in ('ex', 'all') and isinstance(c.args[0], int):
        L = I.loops.get(c.args[0])
        el = over_tables(I, L, V) if L is not None else None
        if el is None or isinstance(el, str):
            return None
        b = subst(c.args[1], lambda x: mk('TAB') if x is el else None)
        b = truth(b)
        if c.op == 'all':
            neg, b = not neg, lnot(b)
        return neg, b
    return None


NONEMPTY = (lnot(um('empty', mk('TAB'))), lnot(eq(C(0), um('size', mk('TAB')))), lt(C(0), um('size', mk('TAB'))))


def emptiness(cx, op, c, loc, rule, want_empty=True):
    """The condition says that the series has no terms."""
    I = op.I
    V = tabs(p('s'))
    r = some_table(I, c, V)
    if r is not None:
        neg, b = r
        if b in NONEMPTY:
            return op.ob(neg == want_empty, rule, loc, 'the condition is inverted')
        return op.ob(False if definite(b, KNOWN) else None, rule, loc, 'the test on each table is %s' % show(b, 5)[:200])
    n = c.args[0] if c.op == 'not' else c
    if n.op == 'eq' and C(0) in n.args:
        o = n.args[1] if n.args[0] is C(0) else n.args[0]
        sm = table_sum(I, o, V)
        if sm is not None and sm[0] is C(0) and sm[1] is um('size', mk('TAB')):
            return op.ob((c.op != 'not') == want_empty, rule, loc, 'the condition is inverted')
    if c in (TRUE, FALSE):
        return op.ob(False, rule, loc, 'the condition is always %s' % (c is TRUE))
    bad = [x for x in subterms(c) if is_call(x, 'unordered_flat_map::empty') and x.args[1].op == 'idx' and x.args[1].args[1].op == 'c']
    return op.ob(False if bad and definite(c, KNOWN) else None, rule, loc, 'condition %s' % show(c, 6)[:200])


def retloc(op):
    fn = op.f['q'].split('::')[-1]
    for e in op.I.trace:
        if e.kind == 'ret' and e.loc and 'harness' not in e.loc:
            return e.loc
    return op.loc


# ---- iteration ---------------------------------------------------------------------

def iteration(cx, P):
    V = mk('deref', mk('fld', mk('this') if False else p('this'), N.it_tabs))
    for q in ('equal', 'dereference', 'increment'):
        fs = [f for f in P.find('obake::series::iterator_impl::' + q) if f.get('body') is not None]
        if not fs:
            raise Broken('anchor iterator %s not found' % q)
        for f in fs:
            what = 'iterator::%s %s' % (q, f.get('ta') or '')
            with cx.item(what):
                I = cx.analyse(P, f, exact=True)
                loc = P.loc(f)
                th = None
                for t in I.final.store.values():
                    for x in subterms(t):
                        if x.op == 'p' and x.args[0] == 'this':
                            th = x
                th = th or p('this')
                if q == 'equal':
                    iterator_equal(cx, I, what, loc, th)
                elif q == 'dereference':
                    r = strip_refs(I.ret)
                    d = mk('deref', mk('fld', th, N.it_loc))
                    same_or(cx, 'iteration', what, loc, r, d, 'the element')
                else:
                    iterator_increment(cx, I, what, loc, th)


def strip_refs(t):
    while t.op in ('conv', 'cast', 'ref') and isinstance(t.args[-1], T):
        t = t.args[-1]
    return t


def iterator_equal(cx, I, what, loc, th):
    o = [x for x in subterms(I.ret) if x.op == 'p' and x is not th]
    if not o:
        return cx.ob(False if definite(I.ret, KNOWN) else None, 'iteration', what, loc, 'comparison %s' % show(I.ret, 5)[:200])
    o = o[0]
    a = eq(mk('fld', th, N.it_idx), mk('fld', o, N.it_idx))
    b = eq(mk('fld', th, N.it_loc), mk('fld', o, N.it_loc))
    c = eq(mk('fld', th, N.it_tabs), mk('fld', o, N.it_tabs))
    # Iterators of the same series: the tables are the same.
    x = assume_in(I.ret, {c: True})
    r = logic.equiv(x, land(a, b))
    if not r and x is b:
        r = None        # positions of different tables never compare equal
    cx.ob(r, 'iteration', what, loc, 'iterators are equal if %s' % show(I.ret, 6)[:200])


def iterator_increment(cx, I, what, loc, th):
    V = mk('deref', mk('fld', th, N.it_tabs))
    i0, l0 = mk('fld', th, N.it_idx), mk('fld', th, N.it_loc)
    l1 = add(l0, C(1))
    # First the position in the current table is advanced.
    adv = [e for e in I.trace if e.kind in ('asg', 'call') and not e.loops and e.places and e.places[0] is not None
           and e.places[0].path and e.places[0].path[-1] == ('f', N.it_loc)]
    if not adv or adv[0].args[-1] is not l1 and not (adv[0].q.endswith('++')):
        cx.ob(False if adv and definite(adv[0].args[-1], KNOWN) or not adv else None, 'iteration', what, adv[0].loc if adv else loc,
              'the position in the table is not advanced first')
        return
    cx.ob(True if not adv[0].guards else None, 'iteration', what, adv[0].loc, 'conditional advance')
    loops = [L for L in I.loops.values() if L.parent is None]
    if len(loops) != 1:
        return cx.ob(False if not loops else None, 'iteration', what, loc, 'the next non-empty table is not looked for')
    L = loops[0]
    atend = eq(l1, um('end', mk('idx', V, i0)))
    g = strip_cast(land(*L.guards))
    ki = [k for k in L.init if k[-1] == ('f', N.it_idx)]
    if len(ki) != 1:
        return cx.ob(None, 'iteration', what, L.loc, 'loop state')
    ki = ki[0]
    lv = mk('lv', L.id, ki)
    cond = strip_cast(L.cond) if L.cond is not None else TRUE
    # Normalise to "the table tested in this iteration is lv+1".
    nxt = add(lv, C(1))
    N_ = mk('size', V)
    st = strip_cast(L.step[ki])
    if strip_cast(L.init[ki]) is not i0 or st is not nxt:
        return cx.ob(False if definite(strip_cast(L.init[ki]), KNOWN) and (st is lv or st.op == 'lin') and strip_cast(L.init[ki]).op in ('lin', 'fld', 'c') and not loop_alt(I, L, ki, i0) else None,
                     'iteration', what, L.loc, 'the index starts from %s and becomes %s at each step' % (show(L.init[ki], 5), show(st, 5)))
    ok = g is atend
    part = subterm_is(g, atend) and logic.equiv(g, atend) is False
    cx.ob(True if ok else False if definite(g, KNOWN) and (g is TRUE or part) else None, 'iteration', what, L.loc,
          'the next table is looked for if %s' % show(g, 6)[:200])
    ex = [(strip_cast(c), k) for c, k in L.exits]
    end = eq(N_, nxt)
    ne = lnot(um('empty', mk('idx', V, nxt)))
    allx = lor(*[land(c, cond) for c, k in ex], lnot(cond))
    r = logic.equiv(allx, lor(end, ne))
    cx.ob(r, 'iteration', what, L.loc, 'the search for the next table stops if %s; it must stop at the end or at the first non-empty table' % show(allx, 6)[:250])
    # Position at the stop.
    at_end = at_ne = False
    for e in I.trace:
        if e.kind == 'asg' and L.id in e.loops and e.places and e.places[0].path and e.places[0].path[-1] == ('f', N.it_loc):
            c = strip_cast(land(*[x for x in e.guards if x not in L.guards]))
            v = strip_cast(e.args[-1])
            if logic.implies(c, end):
                at_end = True
                cx.ob(True if default(v) else False if definite(v, KNOWN) else None, 'iteration', what, e.loc, 'position at the end: %s' % show(v, 5)[:200])
            elif logic.implies(c, ne):
                at_ne = True
                same_or(cx, 'iteration', what, e.loc, v, um('begin', mk('idx', V, nxt)), 'the position in the next table')
            else:
                cx.ob(None, 'iteration', what, e.loc, 'position changed if %s' % show(c, 6)[:200])
    for f, n in ((at_end, 'at the end'), (at_ne, 'in the next table')):
        if not f:
            later = [e for e in I.trace if e.kind == 'asg' and not e.loops and e.places and e.places[0] is not None and e.places[0].path
                     and e.places[0].path[-1] == ('f', N.it_loc) and e is not adv[0]]
            cx.ob(None if later else False, 'iteration', what, L.loc, 'the position %s is not set' % n)


def loop_alt(I, L, k, i0):
    return strip_cast(L.init[k]) is add(i0, C(1)) and strip_cast(L.step[k]) is add(mk('lv', L.id, k), C(1))


def beginning(cx, op):
    """begin(): the first non-empty table."""
    I = op.I
    r = I.ret
    V = tabs(p('s'))
    tp, ix, lo = (unwith(r, [n]) for n in (N.it_tabs, N.it_idx, N.it_loc))
    loc = retloc(op)
    same_or(cx, 'iteration', op.what, loc, tp, mk('addr', ('a', 0), (('f', N.tabs),)), 'the tables iterated over')
    if ix.op != 'lx':
        return op.ob(False if definite(ix, KNOWN) and ix.op in ('c', 'size') else None, 'iteration', loc, 'the first table is %s' % show(ix, 5)[:200])
    L = I.loops[ix.args[0]]
    lv = mk('lv', L.id, ix.args[1])
    el = over_tables_open(I, L, V, ix.args[1])
    if el is None:
        return op.ob(None, 'iteration', L.loc, 'loop over the tables not recognised')
    i0, st = strip_cast(L.init[ix.args[1]]), strip_cast(L.step[ix.args[1]])
    if i0 is not C(0) or st is not add(lv, C(1)):
        return op.ob(False if i0.op == 'c' and (st.op == 'lin' or st is lv) else None, 'iteration', L.loc, 'the index starts from %s and becomes %s' % (show(i0, 4), show(st, 4)))
    ex = lor(*[c for c, k in L.exits])
    ne = lnot(um('empty', el))
    cx.cond('iteration', op.what, L.loc, ex, ne, 'stopping condition')
    n = 0
    for e in I.trace:
        if e.kind == 'asg' and e.places and e.places[0] is not None and e.places[0].path and e.places[0].path[-1] == ('f', N.it_idx) and e.loops:
            c = land(*e.guards)
            op.ob(not logic.sat(land(c, ne)), 'iteration', e.loc, 'the index is changed although the table is not empty')
        if e.kind == 'asg' and e.places and e.places[0] is not None and e.places[0].path and e.places[0].path[-1] == ('f', N.it_loc) and e.loops:
            n += 1
            c = land(*e.guards)
            op.ob(True if logic.implies(c, ne) else None, 'iteration', e.loc, 'position set if %s' % show(c, 5)[:200])
            same_or(cx, 'iteration', op.what, e.loc, e.args[-1], um('begin', el), 'the position in the first table')
    if not n:
        op.ob(None if lo.op not in ('lx', 'ctor') else False, 'iteration', L.loc, 'the position in the first table is not set')


def over_tables_open(I, L, V, k):
    if L.kind == 'rfor' and L.range is V:
        return mk('elem', L.id, V)
    if L.kind in ('for', 'while') and L.cond is not None:
        lv = mk('lv', L.id, k)
        try:
            lg = seg(I, V)
        except LookupError:
            return None
        c = nseg(I, strip_cast(L.cond))
        if c in (lt(lv, mk('nseg', lg)), lnot(eq(lv, mk('nseg', lg)))):
            return mk('idx', V, lv)
    return None


def ending(cx, op):
    I = op.I
    s = p('s')
    r = nseg(I, I.ret)
    tp, ix, lo = (unwith(r, [n]) for n in (N.it_tabs, N.it_idx, N.it_loc))
    loc = retloc(op)
    same_or(cx, 'iteration', op.what, loc, tp, mk('addr', ('a', 0), (('f', N.tabs),)), 'the tables iterated over')
    lg = mk('fld', s, N.log2)
    if strip_cast(ix) is not mk('shl', C(1), lg):
        same_or(cx, 'iteration', op.what, loc, strip_cast(ix), mk('nseg', lg), 'the index of the end')
    op.ob(True if default(lo) else False if definite(lo, KNOWN) else None, 'iteration', loc, 'position of the end: %s' % show(lo, 5)[:200])


@rule('S02', ['series.cpp'], 'Lookup, size, emptiness and iteration of series agree with the way terms are stored.', min_obligations=60)
def s02(cx):
    P = cx.progs['series.cpp']
    names(P)
    none = lambda q, n: False
    for fn in ('find', 'find_mut', 'size', 'empty', 'is_zero_s', 'single', 'begin', 'begin_m', 'end', 'end_m', 'it_conv'):
        fs = cx.entry(P, 'hx::' + fn, 1, pred=lambda f: bool(f.get('ta')))
        for f in fs:
            with cx.item(nice(f)):
                op = Op(cx, P, f, stops_=(lambda q, n: bool(re.search(r'series::(size|begin|end|empty)$', q))) if fn == 'single' else none)
                V = tabs(p('s'))
                if fn.startswith('find'):
                    lookup(cx, op)
                elif fn == 'size':
                    total(cx, op, V)
                elif fn in ('empty', 'is_zero_s'):
                    emptiness(cx, op, op.I.ret, retloc(op), 'empty')
                elif fn in ('begin', 'begin_m'):
                    beginning(cx, op)
                elif fn == 'it_conv':
                    for n in (N.it_tabs, N.it_idx, N.it_loc):
                        same_or(cx, 'iteration', op.what, retloc(op), strip_refs(unwith(op.I.ret, [n])), mk('fld', p('it'), n), 'the field %s of the converted iterator' % n)
                elif fn in ('end', 'end_m'):
                    ending(cx, op)
                else:
                    single_cf(cx, op)
    iteration(cx, P)


def total(cx, op, V):
    I = op.I
    r = table_sum(I, I.ret, V)
    loc = retloc(op)
    if r is None:
        bad = definite(I.ret, KNOWN) and I.ret.op in ('c', 'call')
        return op.ob(False if bad else None, 'size', loc, 'size %s' % show(I.ret, 5)[:200])
    i, per, ty = r
    same_or(cx, 'size', op.what, loc, i, C(0), 'the initial value of the sum')
    same_or(cx, 'size', op.what, loc, per, um('size', mk('TAB')), 'the contribution of a table')
    if ty is not None:
        op.ob(ty in ('unsigned long', 'unsigned long long', 'unsigned __int128'), 'size', loc, 'the sum is accumulated in a value of type %s' % ty)


def single_cf(cx, op):
    """is_single_cf: no terms, or one term with unitary key."""
    I = op.I
    s = p('s')
    r = css(clean(I.ret))
    n = mk('call', 'obake::series::size', s)
    one = [x for x in subterms(r) if is_call(x, 'key_is_one')]
    emp = [x for x in subterms(r) if is_call(x, 'series::empty')]
    loc = retloc(op)
    if len(set(one)) != 1:
        return op.ob(False if not one and definite(r, lambda q: KNOWN(q) or q.startswith('obake::series')) else None, 'single-cf', loc, 'is_single_cf is %s' % show(r, 5)[:200])
    o = one[0]
    k = o.args[1]
    b = [x for x in subterms(k) if is_call(x, 'series::begin') and x.args[1] is s]
    ok = bool(b) and k in (mk('fld', mk('deref', b[0]), 'first'),)
    op.ob(True if ok else None, 'single-cf', loc, 'key %s' % show(k, 5)[:150])
    op.ob(o.args[2] is mk('ss', mk('fld', s, N.ss)), 'single-cf', loc, 'symbol set %s' % show(o.args[2], 5)[:150])
    fz = lambda x: subst(x, lambda y: eq(C(0), n) if is_call(y, 'series::empty') else None)
    cx.cond('single-cf', op.what, loc, fz(r), lor(eq(C(0), n), land(eq(C(1), n), o)), 'is_single_cf', nonneg=(n,))
