"""Symbol sets: union and insertion maps, positional intersections, printing, hashing, serialization."""
import re
from ..rlib import *
from . import rule
from .r_util import gen_loc, ret_loc
from .r_types import strip_ref

p = lambda n: mk('p', n)
ADDS = re.compile(r'::(push_back|emplace_back|emplace_hint|emplace|try_emplace|insert|insert_or_assign)$')


def size_of(t):
    return mk('size', t) if False else mk('call', 'size', t)


def lvar(lp, pred):
    """Carried variables (key, entry value, next value) of a loop selected by a predicate."""
    return [(k, lp.init[k], lp.step[k]) for k in lp.init if k in lp.step and pred(k, lp.init[k], lp.step[k])]


def live_loops(I):
    used = set()
    for e in I.trace:
        used |= set(e.loops)
    return [I.loops[l] for l in sorted(used)]


def nm(e):
    return e.q.split('::')[-1]


def is_begin(t):
    return t.op in ('begin', 'call') and show(t, 1).startswith('begin(')


def begin_of(t):
    """s of begin(s)."""
    return t.args[-1] if is_begin(t) else None


def is_end(t, s):
    return show(t, 1).startswith('end(') and t.args[-1] is s


def intersect(cx, P, q, is_map):
    what = 'intersection of a symbol %s with a symbol set' % ('map' if is_map else 'set')
    with cx.item(what):
        f = cx.entry(P, q)[0]
        I = cx.analyse(P, f, stops={'obake::detail::safe_cast_impl'})
        loc = ret_loc(I)
        src, r = (p('m') if is_map else p('s')), p('r')
        los = [e for e in I.calls(r'^std::lower_bound$') if e.loops]
        if len(los) != 1:
            ub = [e for e in I.calls(r'^std::upper_bound$') if e.loops]
            if ub and not los:
                return cx.ob(False, 'search', what, ub[0].loc, 'the search skips a symbol equal to the one looked for')
            return cx.ob(None, 'search', what, loc, 'search not recognised')
        lo = los[0]
        lp = I.loops[lo.loops[-1]]
        if lp.kind != 'rfor':
            return cx.ob(None, 'search', what, lo.loc, 'loop not recognised')
        cx.ob(lp.range is src and len(lo.loops) == 1, 'every-symbol', what, lp.loc, 'the search is not made for every symbol of the first argument')
        el = mk('elem', lp.id, src)
        key = mk('fld', el, 'first') if is_map else el
        first, last, val = lo.args[:3]
        res = lo.res
        cx.ob(is_end(last, r), 'range', what, lo.loc, 'the search does not extend to the end of the reference set')
        cx.ob(val is key, 'key', what, lo.loc, 'the search is for %s instead of the current symbol' % show(val))
        if len(lo.args) > 3:
            # The order must be the one of the set: a comparison of its two arguments.
            g = lo.args[3]
            cmp = [h for q, hs in P.by_q.items() if '(lambda)::operator()' in q for h in hs if h.get('body') and lo.loc and P.loc(h).rsplit(':', 1)[0] == lo.loc.rsplit(':', 1)[0]
                   and abs(int(P.loc(h).rsplit(':', 1)[1]) - int(lo.loc.rsplit(':', 1)[1])) <= 1]
            ok = None
            if len(cmp) == 1 and len(cmp[0]['params']) == 2:
                J = cx.analyse(P, cmp[0])
                a, b = [mk('p', x['n']) for x in cmp[0]['params']]
                if not contains(J.ret, lambda x: x.op in ('a', 'b')):
                    ok = J.ret is lt(a, b) or (False if all(x.op in ('lt', 'size', 'p', 'not', 'eq', 'b', 'and', 'or') for x in subterms(J.ret)) else None)
            cx.ob(ok, 'order', what, lo.loc, 'the search uses an order which is not the one of the set')
        at_end = eq(res, last)
        hit = land(lnot(at_end), eq(mk('deref', res), key))
        base = tuple(lo.guards)
        if first.op == 'lv' and first.args[0] == lp.id:
            k = first.args[1]
            cx.ob(begin_of(lp.init[k]) is r, 'start', what, lo.loc, 'the first search does not start from the first symbol of the reference set')
            st = lp.step.get(k)
            ok = True
            for sit, g in ((res, None), (add(res, C(1)), True)):
                pass
            alts = set()

            def leaves(t, c):
                if t.op == 'ite':
                    leaves(t.args[1], land(c, t.args[0]))
                    leaves(t.args[2], land(c, lnot(t.args[0])))
                else:
                    alts.add((t, c))
            leaves(st, TRUE)
            for t, c in alts:
                if t is res or t is first:
                    continue
                d = sub(t, res)
                if is_c(d):
                    n = cval(d)
                    # Going past the result is sound only if it compared equal.
                    if n < 0 and False:
                        continue
                    if n > 0:
                        ok = n == 1 and logic.implies(land(c, lnot(at_end)), eq(mk('deref', res), key))
                        if not ok:
                            cx.ob(False, 'carry', what, lo.loc, 'the next search starts %d past the position found under %s' % (n, show(c, 6)[:200]))
                else:
                    ok = None
            cx.ob(ok, 'carry', what, lo.loc, 'next position not recognised: %s' % show(st, 8)[:300])
        else:
            cx.ob(True if begin_of(first) is r else None, 'start', what, lo.loc, 'search start not recognised')
        for g, kind in lp.exits:
            cx.ob(logic.implies(land(g, *base), at_end), 'stop', what, lp.loc, 'the scan stops under %s, when further symbols may be common' % show(g, 6)[:200])
        ins = [e for e in I.calls(ADDS) if e.loops and e.loops[-1] == lp.id]
        if not ins:
            return cx.ob(False if not any('erase' in e.q for e in I.trace) else None, 'record', what, lp.loc, 'no position is recorded')
        tot = FALSE
        for e in ins:
            g = land(*[x for x in e.guards if x not in base])
            tot = lor(tot, g)
            a = [strip_ref(x) for x in e.args[1:]]
            if len(a) == 1 and a[0].op == 'agg':
                a = list(a[0].args[2:])
            if nm(e) in ('emplace_hint',):
                a = a[1:]
            cx.same('position', what, e.loc, a[0], sub(res, mk(lo.args[1].op, *(['begin'] + [r])) if False else lp_begin(I, r)), mod=False, signed=True, what='the recorded position')
            if is_map:
                cx.ob(len(a) > 1 and strip_ref(a[1]) is mk('fld', el, 'second') if len(a) > 1 else None, 'mapped', what, e.loc, 'the recorded value is not the one of the symbol')
        cx.cond('record', what, ins[0].loc, tot, hit, 'a position is recorded when', assume=land(*base))
        adopt = [e for e in I.calls(r'::adopt_sequence$')]
        seqk = [k for k, v in lp.step.items() if contains(v, lambda x: x.op == 'upd' and ADDS.search(str(x.args[0])))]
        out = strip_ref(I.ret)
        cx.ob(bool(seqk) and contains(out, lambda x: x.op == 'lx' and x.args[0] == lp.id and x.args[1] in seqk) or None, 'result', what, loc, 'result not recognised: %s' % show(out, 5)[:300])


def lp_begin(I, r):
    for e in I.trace:
        for a in list(e.args) + [e.res]:
            if isinstance(a, T):
                for x in subterms(a):
                    if begin_of(x) is r:
                        return x
    raise LookupError('begin')


def merge(cx, P):
    with cx.item('union'):
        f = cx.entry(P, 'hx::merge')[0]
        I = cx.analyse(P, f)
        loc = ret_loc(I)
        s1, s2 = p('s1'), p('s2')
        sz = lambda s: mk('size', s)
        un = I.calls(r'^std::set_union$')
        if len(un) != 1:
            return cx.ob(None, 'union', 'union', loc, 'union not recognised')
        u = un[0]
        a = u.args
        rng = {frozenset((begin_of(a[0]), )), frozenset((begin_of(a[2]), ))}
        cx.ob(is_begin(a[0]) and is_begin(a[2]) and {begin_of(a[0]), begin_of(a[2])} == {s1, s2} and is_end(a[1], begin_of(a[0])) and is_end(a[3], begin_of(a[2])),
              'ranges', 'union', u.loc, 'the union is not over the two whole sets')
        cx.ob(len(a) == 5 or None, 'order', 'union', u.loc, 'custom order')
        buf = begin_of(a[4])
        ok = None
        if buf is not None and buf.op == 'upd' and buf.args[0].endswith('::resize'):
            cx.same('storage', 'union', u.loc, buf.args[3], add(sz(s1), sz(s2)), what='size of the storage')
            er = [e for e in I.calls(r'::erase$') if strip_ref(e.args[0]) is buf]
            ok = len(er) == 1 and strip_it(er[0].args[1]) is u.res and len(er[0].args) == 3 and is_end(strip_it(er[0].args[2]), buf)
            cx.ob(ok, 'excess', 'union', er[0].loc if er else u.loc, 'the unused storage is not erased')
        elif buf is None and contains(a[4], lambda x: 'insert' in str(x.args[0]) if x.args else False):
            ok = True
        cx.ob(ok, 'storage', 'union', u.loc, 'storage of the union not recognised')
        thr = [e for e in I.trace if e.kind == 'throw']
        if thr:
            c = throw_cond(I)
            top = C((1 << 64) - 1)
            cx.cond('overflow', 'union', thr[0].loc, c, lt(sub(top, sz(s2)), sz(s1)), 'the size overflow is refused when')
        else:
            cx.ob(False, 'overflow', 'union', u.loc, 'the size computation is not checked')
        r = strip_ref(I.ret)
        if r.op != 'agg' or len(r.args) != 5:
            return cx.ob(None, 'result', 'union', loc, 'result not recognised: %s' % show(r, 3)[:200])
        U, m1, m2 = r.args[2:]
        cx.ob(contains(U, lambda x: x is u.res) or None, 'result', 'union', loc, 'the first result is not recognised as the union')
        for s, m in ((s1, m1), (s2, m2)):
            insertion_map(cx, I, s, U, m)


def strip_it(t):
    t = strip_ref(t)
    while t.op == 'ctor' and len(t.args) == 2 and isinstance(t.args[1], T):
        t = t.args[1]
    return t


def maptag(t, loops):
    """Loops whose results a map term is built from."""
    return {x.args[0] for x in subterms(t) if x.op in ('lx', 'lv')}


def insertion_map(cx, I, s, U, m):
    sn = s.args[0]
    what = 'insertion map of ' + ('the first set' if sn == 's1' else 'the second set')
    with cx.item(what):
        n = mk('size', s)
        loops = live_loops(I)
        outs = [l for l in loops if not l.parent and contains(m, lambda x: x.op in ('lx', 'lv') and x.args[0] == l.id)]
        outs = [l for l in outs if l.kind in ('for', 'while') and l.cond is not None and contains(l.cond, lambda x: x.op == 'size' or x is s)]
        o1 = [l for l in outs if contains(l.cond, lambda x: x is s)]
        oth = [l for l in outs if contains(l.cond, lambda x: x.op == 'p' and x is not s)]
        if not o1 and oth:
            return cx.ob(False, 'set', what, oth[0].loc, 'the insertion maps are exchanged or computed from the other set')
        if len(o1) != 1:
            return cx.ob(None, 'scan', what, '', 'scan of the set not recognised')
        L = o1[0]
        # A map which is, under some condition, the one computed from the other set.
        t = m
        while t.op == 'ite':
            c, a, b = t.args
            mine = [contains(x, lambda y: y.op in ('lx', 'lv') and y.args[0] == L.id) for x in (a, b)]
            his = [contains(x, lambda y: y.op in ('lx', 'lv') and any(y.args[0] == l.id for l in oth)) for x in (a, b)]
            if mine[0] != mine[1]:
                same = c if mine[1] else lnot(c)
                if his[0] != his[1] and not contains(c, lambda y: y.op == 'eq' and set(y.args) == {p('s1'), p('s2')}):
                    cx.ob(False, 'set', what, oth[0].loc, 'the map is computed from the other set, if %s' % show(same, 4)[:150])
                else:
                    cx.ob(None, 'set', what, L.loc, 'the map depends on %s' % show(c, 4)[:150])
                t = b if mine[1] else a
                continue
            break
        idx = lvar(L, lambda k, a, b: a is C(0) and sub(b, mk('lv', L.id, k)) is C(1))
        if len(idx) != 1:
            return cx.ob(None, 'scan', what, L.loc, 'position variable not recognised')
        i = mk('lv', L.id, idx[0][0])
        cx.cond('scan', what, L.loc, L.cond, lt(i, n), 'the scan continues while')
        walks = lvar(L, lambda k, a, b: begin_of(strip_it(a)) is U)
        if len(walks) != 1:
            return cx.ob(None, 'walk', what, L.loc, 'scan of the union not recognised')
        wk = walks[0][0]
        w = mk('lv', L.id, wk)
        sb = [x for e in I.trace for a in e.args if isinstance(a, T) for x in subterms(a) if begin_of(x) is s]
        cur = mk('deref', add(sb[0], i))
        need = lt(mk('deref', w), cur)
        emp = [e for e in I.calls(ADDS) if e.loops and e.loops[0] == L.id and len(e.loops) == 1 and 'flat_map' in e.q]
        if len(emp) != 1 or nm(emp[0]) not in ('emplace_hint', 'emplace', 'try_emplace'):
            return cx.ob(None, 'insert', what, L.loc, 'insertion not recognised')
        check_insert(cx, I, what, 'inner', emp[0], i, w, need, L, s, base_guards(L), lambda w2: lt(mk('deref', w2), cur), wk)
        inner = [l for l in loops if l.parent == L.id]
        nx = ite(need, mk('lx', inner[0].id, wk), w) if inner else None
        if inner:
            cx.ob(logic_same(L.step[wk], add(nx, C(1))), 'advance', what, L.loc, 'after a symbol of the set the union is continued from %s' % show(L.step[wk], 8)[:300])
        # Symbols past the last one of the set.
        wx = mk('lx', L.id, wk)
        tail = [e for e in I.calls(ADDS) if not e.loops and 'flat_map' in e.q and contains(land(*e.guards), lambda x: x is wx)]
        if not tail:
            t2 = [e for e in I.calls(ADDS) if not e.loops and 'flat_map' in e.q and contains(e.args[0], lambda x: x.op == 'lx' and x.args[0] == L.id)]
            return cx.ob(False if not t2 else None, 'tail', what, L.loc, 'symbols of the union past the last one of the set are not inserted')
        e = tail[0]
        ends = [x for g in e.guards for x in subterms(g) if is_end(x, U)]
        if not ends:
            return cx.ob(None, 'tail', what, e.loc, 'end test not recognised')
        en = ends[0]
        check_insert(cx, I, what, 'tail', e, n, wx, lnot(eq(wx, en)), None, s, base_guards(L), lambda w2: lnot(eq(w2, en)), wk)
        last = [e2 for e2 in (tail[0],) if contains(m, lambda x: x.op == 'upd' and x.args[0] == e2.q)]
        cx.ob(bool(last) or None, 'result', what, e.loc, 'the returned map is not recognised')


def base_guards(L):
    return tuple(L.guards)


def logic_same(a, b):
    if a is b:
        return True
    for c in [x.args[0] for x in subterms(a) if x.op == 'ite'] + [x.args[0] for x in subterms(b) if x.op == 'ite']:
        r1 = assume_in(a, {c: True}), assume_in(b, {c: True})
        r2 = assume_in(a, {c: False}), assume_in(b, {c: False})
        if r1[0] is r1[1] and r2[0] is r2[1]:
            return True
    d = sub(a, b)
    if is_c(d):
        return cval(d) == 0
    return None


def check_insert(cx, I, what, part, e, key, w, cond, L, s, base, more, wk):
    a = [strip_ref(x) for x in e.args]
    args = a[2:] if nm(e) == 'emplace_hint' else a[1:]
    lg = set(base) | ({L.cond} if L else set())
    g = land(*[x for x in e.guards if x not in lg])
    cx.cond(part + '-condition', what, e.loc, g, cond, 'symbols are inserted when', assume=land(*e.guards[:0]))
    cx.same(part + '-position', what, e.loc, args[0], key, what='the insertion position')
    first = mk('deref', w)
    ok = contains(args[1], lambda x: x is first) if len(args) > 1 else None
    cx.ob(ok or None, part + '-first', what, e.loc, 'first inserted symbol not recognised')
    if len(args) > 1:
        others = [x for x in subterms(args[1]) if x.op == 'deref' and x is not first]
        if others and not ok:
            cx.ob(False, part + '-first', what, e.loc, 'the first inserted symbol is %s' % show(others[0]))
    ins = [x for x in I.calls(ADDS) if x.loops and ('flat_set' in x.q or 'flat_tree' in x.q) and contains(x.args[0], lambda t: t is e.res) ]
    pl = [x for x in ins]
    if not pl:
        rest = subst(args[1], lambda t: C(0) if t is first else None) if len(args) > 1 else C(0)
        otherwise = contains(rest, lambda t: t is w) or any(x is not e and x.i > e.i and x.kind == 'call' and re.search(r'::(insert|emplace|try_emplace|emplace_hint|insert_or_assign|swap|merge|adopt_sequence|operator\[\]|at|assign|set_\w+|copy\w*)$', x.q.split('<')[0]) and any(isinstance(y, T) and contains(y, lambda t: t is e.res) for y in x.args) for x in I.trace)
        return cx.ob(None if otherwise else False, part + '-more', what, e.loc, 'further missing symbols are not inserted at the same position')
    x = pl[0]
    l = I.loops[x.loops[-1]]
    if wk not in l.init:
        return cx.ob(None, part + '-more', what, x.loc, 'loop over the missing symbols not recognised')
    w2 = mk('lv', l.id, wk)
    cx.same(part + '-next', what, l.loc, l.init[wk], add(w, C(1)), mod=False, what='the second missing symbol')
    if l.step[wk].op == 'ite':
        cx.ob(None, part + '-step', what, l.loc, 'step not recognised')
    else:
        cx.same(part + '-step', what, l.loc, l.step[wk], add(w2, C(1)), mod=False, what='the next missing symbol')
    cx.cond(part + '-more', what, l.loc, l.cond, more(w2), 'further symbols are inserted while')
    ig = land(*[y for y in x.guards if y not in set(e.guards) and y is not l.cond])
    cx.ob(ig is TRUE or None, part + '-every', what, x.loc, 'insertion is conditional on %s' % show(ig)[:200])
    cx.ob(strip_ref(x.args[-1]) is mk('deref', w2) or (False if strip_ref(x.args[-1]).op == 'deref' else None), part + '-symbol', what, x.loc, 'the inserted symbol is %s' % show(strip_ref(x.args[-1]))[:200])


@rule('U14', ['symbols.cpp'],
      'The summary of the union (ranges handed to the standard set union, storage, overflow guard), the two loop nests building the '
      'insertion maps (transition relations of position and walking iterator, insertion guards, keys, inserted symbols), the positional '
      'intersections, printing, hashing and serialization are compared with the required relations.',
      ['The standard algorithms and the containers behave as specified.'], 60)
def u14(cx):
    P = cx.progs['symbols.cpp']
    merge(cx, P)
    intersect(cx, P, 'hx::ssi', False)
    intersect(cx, P, 'hx::smi', True)
    s = p('s')
    with cx.item('hash of a symbol set'):
        I = cx.analyse(P, cx.entry(P, 'hx::hash')[0])
        what, loc = 'hash of a symbol set', ret_loc(I)
        es = I.calls(r'::hash_combine$')
        if not es or not es[0].loops:
            cx.ob(None, 'every-symbol', what, loc, 'combination not recognised')
        else:
            e = es[0]
            l = I.loops[e.loops[-1]]
            cx.ob(l.kind == 'rfor' and l.range is s and not l.exits and not [g for g in e.guards if g not in set(l.guards)] or (False if l.kind == 'rfor' else None), 'every-symbol', what, e.loc, 'the hash does not depend on every symbol')
            cx.ob(e.args[1] is mk('elem', l.id, s), 'symbol', what, e.loc, 'the hash combines %s' % show(e.args[1]))
            k = [k for k in l.init]
            cx.ob(len(k) == 1 and is_c(l.init[k[0]]) or None, 'seed', what, e.loc, 'the initial value is not recognised as constant')
            cx.ob(I.ret is mk('lx', l.id, k[0]) or None, 'result', what, loc, 'result not recognised')
    printing(cx, P)
    serial(cx, P)


def printing(cx, P):
    what = 'printed symbol set'
    with cx.item(what):
        I = cx.analyse(P, cx.entry(P, 'hx::str')[0])
        loc = ret_loc(I)
        s = p('s')
        ls = live_loops(I)
        if len(ls) != 1:
            return cx.ob(None, 'scan', what, loc, 'scan not recognised')
        l = ls[0]
        sk = [k for k in l.init if contains(l.step[k], lambda x: x.op == 'upd' and '+=' in x.args[0])]
        if len(sk) != 1:
            return cx.ob(None, 'scan', what, l.loc, 'text variable not recognised')
        sk = sk[0]
        acc = mk('lv', l.id, sk)
        if l.kind == 'rfor':
            sym, lastc = mk('elem', l.id, s), None
        else:
            its = [k for k in l.init if begin_of(l.init[k]) is s]
            if len(its) != 1:
                return cx.ob(None, 'scan', what, l.loc, 'iterator not recognised')
            it = mk('lv', l.id, its[0])
            cx.same('scan', what, l.loc, l.step[its[0]], add(it, C(1)), mod=False, what='next symbol')
            ends = [x for x in subterms(l.cond) if is_end(x, s)]
            if not ends:
                return cx.ob(None, 'scan', what, l.loc, 'end not recognised')
            cx.cond('scan', what, l.loc, l.cond, lnot(eq(it, ends[0])), 'the scan continues while')
            sym = mk('deref', it)
            lastc = eq(add(it, C(1)), ends[0])
            firstc = eq(it, l.init[its[0]])

        def pieces(t):
            out = []
            while t.op == 'upd' and len(t.args) == 4 and ('+=' in t.args[0] or t.args[0].endswith(('::push_back', '::append'))):
                out.append(t.args[3])
                t = t.args[2]
            return t, out[::-1]
        text = lambda x: x if not is_c(x) else chr(cval(x))
        st = l.step[sk]
        alts = []

        def leaves(t, c, more):
            b, ps = pieces(t)
            if b.op == 'ite' and len(alts) < 16:
                leaves(b.args[1], land(c, b.args[0]), ps + more)
                leaves(b.args[2], land(c, lnot(b.args[0])), ps + more)
            else:
                alts.append((b, ps + more, c))

        def moved(x):
            # it + n, std::next(it, n).
            if x.op == 'call' and len(x.args) in (2, 3) and re.search(r'::operator\+$|^std::next$', str(x.args[0]).split('<')[0]):
                n = x.args[2] if len(x.args) == 3 else C(1)
                i = subst(x.args[1], moved)
                return add(i, n) if is_c(n) else None
            return None
        leaves(st, TRUE, [])

        def norm(ps):
            o = []
            for x in ps:
                x = cstr(x)
                if isinstance(x, str) and o and isinstance(o[-1], str):
                    o[-1] += x
                else:
                    o.append(x)
            return o
        for b, ps, c in alts:
            c = subst(c, moved)
            if b is not acc or l.kind == 'rfor':
                cx.ob(None, 'text', what, l.loc, 'text not recognised')
                continue
            w = norm(ps)
            if c is TRUE:
                cx.ob(False if w in (["'", sym, "', "], ["'", sym, "'"]) else None, 'separator', what, l.loc, 'the separator is not written between the symbols only')
                continue
            alone, after, before = ["'", sym, "'"], ["'", sym, "', "], [", '", sym, "'"]
            want = None
            for k, v in ((lastc, alone), (lnot(lastc), after), (firstc, alone), (lnot(firstc), before)):
                if logic.equiv(c, k, l.cond) is True and (v is not alone or w == alone or want is None):
                    want = v
            if want is None:
                # A case split that is neither on the first nor on the last symbol.
                plain = all(x.op in ('eq', 'not', 'lin', 'c', 'lv', 'lt') or is_end(x, s) or begin_of(x) is s or x is s for x in subterms(c))
                cx.ob(False if plain and w in (alone, after, before) else None, 'separator', what, l.loc, 'the separator depends on %s' % show(c, 5)[:200])
                continue
            known = all(isinstance(x, str) or x is sym for x in w)
            cx.ob(w == want or (False if known or len(w) == 3 else None), 'text', what, l.loc, 'each symbol is printed as %s' % [x if isinstance(x, str) else show(x) for x in w])
        b, ps = pieces(I.ret)
        w, o = norm(ps), cstr(l.init[sk])
        lit = b is mk('lx', l.id, sk) and all(isinstance(x, str) for x in w)
        cx.ob(lit and w == ['}'] or (False if lit else None), 'close', what, loc, 'the text does not end with a brace')
        cx.ob(o == '{' or (False if isinstance(o, str) else None), 'open', what, loc, 'the text does not start with a brace')


def cstr(x):
    x = strip_ref(x)
    if is_c(x) and 0 <= cval(x) < 128:
        return chr(cval(x))
    if x.op == 's':
        return x.args[0]
    if x.op == 'ctor' and len(x.args) > 1:
        if is_c(x.args[1]):
            # A number of copies of a character.
            o = cstr(x.args[2]) if len(x.args) > 2 else x
            return o * cval(x.args[1]) if isinstance(o, str) and 0 <= cval(x.args[1]) < 64 else x
        return cstr(x.args[1])
    t = show(x, 3)
    if len(t) > 1 and t[0] == "'" and t[-1] == "'":
        return t[1:-1]
    return x


def serial(cx, P):
    what = 'saved symbol set'
    ar, s = p('ar'), p('s')
    with cx.item(what):
        I = cx.analyse(P, cx.entry(P, 'hx::save')[0])
        loc = gen_loc(I) if False else (I.trace[0].loc if I.trace else '')
        outs = I.calls(r'operator(<<|&)$')
        top = [e for e in outs if not e.loops]
        el = [e for e in outs if e.loops]
        cx.ob(len(top) == 1 and top[0].args[1] is mk('size', s) and not top[0].guards, 'size', what, loc, 'the number of symbols is not saved first')
        ok = None
        if len(el) == 1:
            l = I.loops[el[0].loops[-1]]
            ok = len(top) == 1 and el[0].i > top[0].i and el[0].args[1] is mk('elem', l.id, s) and l.range is s and not l.exits and set(el[0].guards) <= set(l.guards) if l.kind == 'rfor' else None
        elif not el:
            ok = False
        cx.ob(ok, 'symbols', what, el[0].loc if el else loc, 'not every symbol is saved, in order, after their number')
    what = 'loaded symbol set'
    with cx.item(what):
        I = cx.analyse(P, cx.entry(P, 'hx::load')[0])
        loc = I.trace[0].loc if I.trace else ''
        ins = I.calls(r'operator(>>|&)$')
        top = [e for e in ins if not e.loops]
        el = [e for e in ins if e.loops]
        if len(top) != 1 or len(el) != 1 or el[0].i < top[0].i:
            return cx.ob(None, 'load', what, loc, 'loading not recognised')
        read = mk('upd', top[0].q, 1, ar, top[0].args[1])
        rs = I.calls(r'::resize$')
        if len(rs) == 1:
            cx.same('size', what, rs[0].loc, rs[0].args[1], read, what='the number of symbols')
            buf = mk('upd', rs[0].q, 0, rs[0].args[0], rs[0].args[1])
            l = I.loops[el[0].loops[-1]]
            cx.ob((l.range is buf or strip_ref(l.range) is buf) and el[0].args[1] is mk('elem', l.id, l.range) and not l.exits and set(el[0].guards) <= set(l.guards) if l.kind == 'rfor' else None, 'symbols', what, el[0].loc, 'not every symbol is read, in order')
            fin = I.final.store.get(('a', 1))
            ad = I.calls(r'::adopt_sequence$')
            cx.ob(len(ad) == 1 and not ad[0].guards and contains(fin, lambda x: x.op == 'lx' and x.args[0] == l.id) or (False if not ad and (fin is None or not contains(fin, lambda x: x.op in ('ctor', 'call', 'lx'))) else None), 'adopt', what, loc, 'the symbols read do not become those of the set')
        else:
            cx.ob(None, 'size', what, loc, 'storage not recognised')
