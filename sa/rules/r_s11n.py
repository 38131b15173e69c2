"""Archives: what is loaded is what was saved."""
from ..rlib import *
from ..series import clean, insertions, qof
from .r_series5 import is_loop_cond
from .r_series2 import definite
from . import rule

SAVE = ('hx::oar::operator<<', 'hx::oar::operator&')
LOAD = ('hx::iar::operator>>', 'hx::iar::operator&')
KNOWN = lambda q: q.startswith(('hx::', 'std::variant', 'boost::flyweights::', 'boost::container::', 'boost::unordered::'))


class Node:
    def __init__(self, e=None, loop=None):
        self.e, self.loop, self.sub = e, loop, []

    @property
    def type(self):
        return re.sub(r'\bconst ', '', str(self.e.ta).strip('<>'))


class Side:
    def __init__(self, cx, P, f, ops):
        self.P, self.f = P, f
        self.I = I = cx.analyse(P, f)
        self.thr = clean(throw_cond(I, lambda e: e.q != 'rethrow'))
        self.top = []
        self.events = [e for e in I.trace if e.kind == 'call' and str(e.q) in ops and self.guard(e) is not FALSE]
        for e in self.events:
            lvl, pre = self.top, ()
            for l in e.loops:
                pre += (l,)
                if not lvl or lvl[-1].loop != l:
                    lvl.append(Node(loop=l))
                lvl = lvl[-1].sub
            lvl.append(Node(e))
        self.vals = {}
        for e in self.events:
            self.vals[mk('upd', e.q, 1, *e.args)] = e

    def guard(self, e):
        I = self.I
        g = land(*[clean(I.rewrite(x)) for x in e.guards if not is_loop_cond(I, e, x)])
        return g

    def always(self, e):
        return logic.implies(land(lnot(self.thr), *[c for c in [TRUE]]), self.guard(e)) is True

    def read(self, t):
        """The event a value was read by."""
        t = bare(t)
        return self.vals.get(t)

    def value(self, e):
        return mk('upd', e.q, 1, *e.args)


def bare(t):
    while t.op in ('conv', 'cast', 'fw') and isinstance(t.args[-1], T) or t.op == 'ctor' and len(t.args) == 2 and isinstance(t.args[1], T):
        t = t.args[-1]
    return t


def unget(t):
    """The field behind a flyweight access."""
    t = strip_cast(t)
    while True:
        if t.op == 'deref' and t.args[0].op == 'ref':
            t = t.args[0].args[0]
        elif t.op == 'call' and t.args[0].endswith('flyweight::get') and len(t.args) == 2:
            t = t.args[1]
        elif t.op == 'conv' and isinstance(t.args[-1], T):
            t = t.args[-1]
        else:
            return t


def counted(t):
    """The container whose size this is."""
    t = strip_cast(t)
    if t.op == 'size':
        return t.args[0]
    if t.op == 'call' and t.args[0].split('<')[0].endswith('::size') and len(t.args) == 2:
        return t.args[1]
    return None


def visited(I, L):
    """(container, element, first index) of a loop over all the elements in order."""
    if L.kind == 'rfor':
        return L.range, mk('elem', L.id, L.range), None
    c = clean(L.cond) if L.cond is not None else TRUE
    for k in L.init:
        i = mk('lv', L.id, k)
        st = strip_cast(L.step[k])
        for z in subterms(c):
            X = counted(z)
            if X is not None and c in (lt(i, z), lnot(eq(i, z))) and L.init[k].op == 'c' and st is add(i, C_(1)):
                return X, mk('idx', X, i), L.init[k]
        b = L.init[k]
        if c.op == 'not' and c.args[0].op == 'eq' and i in c.args[0].args:
            e = [x for x in c.args[0].args if x is not i]
            nm = lambda t: t.op if t.op in ('begin', 'end') else t.args[0].split('<')[0].rsplit('::', 1)[-1] if t.op == 'call' else ''
            if len(e) == 1 and nm(b) in ('begin', 'cbegin') and nm(e[0]) in ('end', 'cend') and b.args[-1] is e[0].args[-1] \
                    and (st is add(i, C_(1)) or st.op in ('upd', 'call', 'next') and i in st.args and '++' in str(st.args[0])):
                return b.args[-1], mk('deref', i), None
    return None, None, None


class Pair:
    def __init__(self, cx, what, A, B):
        self.cx, self.what, self.A, self.B = cx, what, A, B
        self.map = {}          # written value -> event reading it
        self.stored = []       # (written container, load loop, items)
        self.good = True

    def ob(self, r, rule, loc, d):
        if not r:
            self.good = False
        return self.cx.ob(r, rule, self.what, loc, d)

    def level(self, S, R, where):
        ok = [n.loop is not None for n in S] == [n.loop is not None for n in R]
        sig = lambda N: [n.type if n.loop is None else 'loop' for n in N]
        loc = next((n.e.loc for n in R if n.e is not None), self.B.I.loops[R[0].loop].loc if R and R[0].loop is not None else '')
        if not ok:
            return self.ob(False, 'order', loc, 'saved: %s; loaded: %s (%s)' % (', '.join(sig(S))[:120], ', '.join(sig(R))[:120], where))
        prev = []
        for a, b in zip(S, R):
            if a.loop is None:
                t = a.type == b.type
                opaque = 'boost::serialization' in a.type + b.type
                self.ob(True if t else None if opaque else False, 'order', b.e.loc, 'saved as %s, loaded as %s' % (a.type[:80], b.type[:80]))
                self.map[strip_cast(a.e.args[1])] = b.e
                prev.append((a, b))
                continue
            self.loops(a, b, prev)

    def loops(self, a, b, prev):
        A, B = self.A.I, self.B.I
        L, M = A.loops[a.loop], B.loops[b.loop]
        if L.exits or M.exits:
            return self.ob(None, 'elements', M.loc, 'loop with exits')
        # What is saved.
        C, el, k0 = visited(A, L)
        if C is None:
            rev = lambda I, L: any(x.op == 'call' and re.search(r'::c?rbegin$', x.args[0].split('<')[0]) for v in L.init.values() for x in subterms(v))
            return self.ob(False if rev(A, L) and not rev(B, M) and visited(B, M)[0] is not None else None, 'elements', L.loc, 'the order of the elements saved')
        if k0 is not None and k0 is not C_(0):
            self.ob(False, 'elements', L.loc, 'elements are saved from index %s' % show(k0, 2))
        C = unget(C)
        # How many of them are expected.
        n = None
        for x, y in prev:
            X = counted(x.e.args[1])
            if X is not None and unget(X) is C:
                n = self.B.value(y.e)
        segs = None
        if n is None and C.op == 'fld':
            for x, y in prev:
                w = strip_cast(x.e.args[1])
                if w.op == 'fld' and w.args[0] is C.args[0] and 'unsigned' in x.type:
                    segs = self.B.value(y.e)
        got, base = self.count(M)
        if got is not None and got.op == 'ite' and base is got:
            self.branches(got, n, TRUE, M, segs)
        elif got is None:
            self.ob(None, 'elements', M.loc, 'the number of elements loaded')
        elif n is not None:
            simple = all(x.op in ('lin', 'c', 'cast') or x is n or x in n_sub(n) for x in subterms(got))
            self.ob(True if got is n else False if simple else None, 'elements', M.loc, '%s elements are loaded where %s were saved' % (show(got, 3)[:100], show(n, 3)[:100]))
        elif segs is not None:
            w = mk('shl', C_(1), segs)
            simple = all(x.op in ('lin', 'c', 'shl', 'cast') or x is segs or x in n_sub(segs) for x in subterms(got))
            self.ob(True if got is w else False if simple else None, 'elements', M.loc, '%s tables are loaded where 2**%s were saved' % (show(got, 3)[:100], show(segs, 3)[:100]))
        else:
            written = [show(x.e.args[1], 3) for x, y in prev]
            self.ob(False if not prev or all(unget(x.e.args[1]).op in ('fld', 'p', 'c') or counted(x.e.args[1]) is not None for x, y in prev) else None,
                    'elements', L.loc, 'the number of elements is not saved before them (saved: %s)' % ', '.join(written)[:150])
        before = len(self.map)
        self.level(a.sub, b.sub, 'for each element')
        # All of the element is saved.
        leaf = [strip_cast(x.e.args[1]) for x in a.sub if x.loop is None]
        if not any(x.loop is not None for x in a.sub):
            parts = [unget(x) for x in leaf]
            whole = parts == [el]
            pair = [x for x in parts if x.op == 'fld' and x.args[0] is el and x.args[1] in ('first', 'second')]
            two = len(parts) == 2 and len(pair) == 2 and pair[0] is not pair[1]
            plain = all(x is el or x in pair for x in parts)
            self.ob(True if whole or two else False if plain else None, 'elements', L.loc, 'saved for each element: %s' % ', '.join(show(x, 3) for x in parts)[:150])
        self.stored.append((C, el, L, M, base, a, b))

    def count(self, M):
        """The number of iterations of a loop loading elements, what it runs over."""
        I = self.B.I
        if M.kind == 'rfor':
            R = M.range
            b = R
            while b.op in ('conv', 'cast'):
                b = b.args[-1]
            if b.op == 'upd' and b.args[0].split('<')[0].endswith('::resize') and b.args[1] == 0:
                return strip_cast(b.args[3]), R
            if b.op == 'ctor' and len(b.args) >= 2:
                return strip_cast(b.args[1]), R
            if b.op == 'ite':
                return b, R
            return None, R
        c = clean(M.cond) if M.cond is not None else TRUE
        for k in M.init:
            i = mk('lv', M.id, k)
            st = strip_cast(M.step[k])
            if st is add(i, C_(1)):
                for z in conj(c):
                    if z.op == 'lt' and z.args[0] is i:
                        n = strip_cast(z.args[1])
                    elif z.op == 'not' and z.args[0].op == 'eq' and i in z.args[0].args:
                        n = strip_cast([x for x in z.args[0].args if x is not i][0])
                    elif z.op == 'not' and z.args[0].op == 'lt' and z.args[0].args[1] is i:
                        n = add(strip_cast(z.args[0].args[0]), C_(1))
                    else:
                        continue
                    return sub(n, M.init[k]), None
            if st is sub(i, C_(1)) and c in (lnot(eq(C_(0), i)), lt(C_(0), i)):
                return strip_cast(M.init[k]), None
        return None, None

    def branches(self, t, n, g, M, segs=None):
        """A container resized in some cases only."""
        if t.op == 'ite':
            self.branches(t.args[1], n, land(g, t.args[0]), M, segs)
            self.branches(t.args[2], n, land(g, lnot(t.args[0])), M, segs)
            return
        if n is None and segs is not None and t.op == 'fld' and logic.sat(g):
            return self.ob(False, 'elements', M.loc, 'the elements loaded are added to those of the tables already there, if %s' % show(g, 4)[:120])
        if n is None:
            return self.ob(None, 'elements', M.loc, 'the number of elements loaded')
        if t.op == 'upd' and t.args[0].split('<')[0].endswith('::resize') and t.args[1] == 0:
            k = strip_cast(t.args[3])
            return self.ob(True if k is n else None, 'elements', M.loc, '%s elements are loaded' % show(k, 3)[:100])
        z = lambda x: p('size') if counted(x) is t and x.op in ('size', 'call') else p('saved') if x is n else None
        h = truth(subst(g, z))
        r = logic.implies(h, eq(p('size'), p('saved')))
        plain = all(x.op in ('p', 'c', 'lt', 'eq', 'not', 'and', 'or', 'lin') for x in subterms(h))
        self.ob(True if r else False if plain else None, 'elements', M.loc, 'as many elements are loaded as the container happens to have, if %s' % show(h, 4)[:120])

    def final(self, t):
        """The value of a part of the object after loading."""
        I = self.B.I
        t = unget(t)
        if t.op == 'p':
            return clean(I.rewrite(I.final.store.get(('a', 1), mk('unk'))))
        if t.op == 'fld' and t.args[0] is mk('p', 'this'):
            o = clean(I.rewrite(I.final.store.get(('this',), mk('unk'))))
            return clean(unwith(o, [t.args[1]]))
        return None

    def check(self):
        A, B = self.A, self.B
        for S in (A, B):
            for e in S.events:
                if not S.always(e):
                    return self.variant()
        self.level(A.top, B.top, 'in order')
        for w, e in self.map.items():
            X = counted(w)
            u = unget(w)
            if not (u.op == 'p' or u.op == 'fld' and u.args[0] is mk('p', 'this')):
                continue
            v = self.final(u)
            if v is None:
                continue
            r = B.read(v)
            self.ob(True if r is e else False if r is not None or definite(v, KNOWN) and v.op != 'ite' else None, 'restored', e.loc,
                    'saved: %s; after loading it is %s' % (show(u, 3), show(v, 4)[:150]))
        for x in self.stored:
            self.container(*x)
        # Everything is saved.
        rec = self.P_fields()
        if rec is not None:
            saved = {unget(w) for w in self.map} | {x[0] for x in self.stored}
            for n in rec:
                t = mk('fld', mk('p', 'this'), n)
                self.ob(True if t in saved else None if any(t in list(subterms(s)) for s in saved) else False, 'complete', B.f.get('loc', ''),
                        'member %s is %ssaved' % (n, '' if t in saved else 'not '))

    def P_fields(self):
        c = self.A.f.get('cls')
        r = self.A.P.rec_by_t.get(self.A.P.ty(c)) if c is not None else None
        if r is None:
            return None
        return [x['n'] for x in r.get('fields', ())]

    def container(self, C, el, L, M, base, a, b):
        B = self.B
        I = B.I
        if any(x.loop is not None for x in b.sub):
            return      # the inner loop
        reads = [x.e for x in b.sub]
        outer = None
        t = C
        if C.op == 'elem':
            for x in self.stored:
                if x[2].id == C.args[0]:
                    outer, t = x, x[0]
        v = self.final(t)
        if v is None:
            return self.ob(None, 'restored', M.loc, 'the container %s' % show(C, 3))
        # Elements read in place.
        inplace = base is not None and len(reads) == 1 and reads[0].args[1] is mk('elem', M.id, M.range)
        if not inplace and len(reads) == 1 and reads[0].args[1].op in ('idx', 'deref'):
            W, e1, k0 = visited(I, M)
            i = reads[0].args[1]
            if i.op == 'idx' and i.args[1].op == 'lv' and i.args[1].args[0] == M.id:
                k = i.args[1].args[1]
                inplace = M.init[k] is C_(0) and strip_cast(M.step[k]) is add(i.args[1], C_(1))
            elif W is not None and e1 is i:
                inplace = True
            if not inplace:
                return self.ob(None, 'restored', M.loc, 'elements are read into %s' % show(i, 3))
            if base is None:
                b0 = i.args[0]
                while b0.op == 'lv':
                    b0 = I.loops[b0.args[0]].init[b0.args[1]]
                big = b0.op == 'upd' and b0.args[0].split('<')[0].endswith('::resize') and strip_cast(b0.args[3]) is self.count(M)[0]
                self.ob(True if big else None, 'restored', M.loc, 'the container is %s when the elements are read' % show(b0, 4)[:120])
        if inplace:
            lx = [x for x in subterms(v) if x.op == 'lx' and x.args[0] == M.id]
            ok = v.op == 'lx' and v.args[0] == M.id or v.op == 'upd' and v.args[0].split('<')[0].endswith('::adopt_sequence') and v.args[-1] in lx
            return self.ob(True if ok else False if not lx and definite(v, KNOWN) else None, 'restored', M.loc, 'the container %s is %s after loading' % (show(C, 3), show(v, 4)[:150]))
        # Elements added to it.
        vals = [B.value(e) for e in reads]
        parts = [unget(x.e.args[1]) for x in a.sub]
        if any(x.op == 'fld' and x.args[1] == 'second' for x in parts) and len(vals) == 2 and parts[0].args[1] == 'second':
            vals.reverse()
        adds = [e for e in I.trace if e.kind == 'call' and e.loops == reads[-1].loops and qof(e).rsplit('::', 1)[-1] in ('try_emplace', 'emplace', 'emplace_back', 'push_back', 'insert', 'emplace_hint')
                and not any(x.op == 'caught' for g in e.guards for x in subterms(g))]
        if len(adds) != 1:
            return self.ob(None if adds else False, 'restored', M.loc, 'the elements loaded are added %d times' % len(adds))
        e = adds[0]
        got = [bare(x) for x in e.args[1:]]
        if len(got) == 1 and len(vals) == 2 and got[0].op in ('agg', 'call', 'ctor'):
            return self.ob(None, 'restored', e.loc, 'added: %s' % show(got[0], 3)[:150])
        self.ob(True if got == vals else False if all(x in B.vals or definite(x, KNOWN) for x in got) else None, 'restored', e.loc,
                'added: %s' % ', '.join(show(x, 3) for x in got)[:200])
        g = logic.implies(lnot(B.thr), B.guard(e))
        self.ob(True if g else None, 'restored', e.loc, 'elements are added if %s' % show(B.guard(e), 4)[:150])
        pl = e.places[0] if e.places else None
        if outer is not None:
            M2 = outer[3]
            ok = pl is not None and pl.root == ('e', M2.id) and not pl.path
            fixed = pl is not None and pl.path and isinstance(pl.path[-1], tuple) and pl.path[-1][0] == 'i' and isinstance(pl.path[-1][1], T) and pl.path[-1][1].op == 'c'
            self.ob(True if ok else False if fixed else None, 'restored', e.loc, 'the elements are added to %s' % ('another table' if fixed else 'some table'))
            for x in insertions(I):
                if x.e is e:
                    try:
                        s1 = x.sign()[0]
                    except LookupError:
                        s1 = -1 if any(z.q.endswith('negate') for z in x.mods if logic.sat(B.guard(z))) else None
                    self.ob(True if s1 == 1 else False if s1 == -1 else None, 'restored', e.loc, 'the coefficient is changed after it is added')
            init = [M2.range]
            while init[-1].op == 'lv':
                init.append(I.loops[init[-1].args[0]].init[init[-1].args[1]])
            self.ob(True if init[-1].op == 'ctor' else None, 'restored', M2.loc, 'the tables are empty before loading')
        else:
            self.ob(None, 'restored', e.loc, 'the container is empty before loading')

    def variant(self):
        """A value with alternatives: index, then the alternative."""
        A, B = self.A, self.B
        cbs = [n for n in A.top if n.loop is not None and A.I.loops[n.loop].kind == 'cb']
        first = A.top[0]
        if not cbs or first.loop is not None or any(len(n.sub) != 1 or n.sub[0].loop is not None for n in cbs) or len(A.top) != 1 + len(cbs):
            return self.ob(None, 'order', A.events[0].loc if A.events else '', 'items saved conditionally')
        w = strip_cast(first.e.args[1])
        if not (w.op == 'call' and w.args[0].endswith('variant::index')):
            return self.ob(None, 'alternatives', first.e.loc, 'saved first: %s' % show(w, 4)[:100])
        R = B.events
        if not R or any(e.loops for e in R) or not B.always(R[0]):
            return self.ob(None, 'alternatives', '', 'the items loaded')
        self.ob(Node(first.e).type == Node(R[0]).type, 'order', R[0].loc, 'index saved as %s, loaded as %s' % (first.type, Node(R[0]).type))
        v = B.value(R[0])
        fin = clean(B.I.rewrite(B.I.final.store.get(('a', 1), mk('unk'))))
        for k, n in enumerate(cbs):
            x = n.sub[0].e.args[1]
            e0 = n.sub[0].e
            self.ob(True if x.op == 'cbarg' and x.args[1] == 0 else None, 'alternatives', e0.loc, 'alternative saved: %s' % show(x, 3)[:100])
            at = lambda t: subst(t, lambda y: C_(k) if y is v else None)
            here = [e for e in R[1:] if truth(at(B.guard(e))) is TRUE]
            maybe = [e for e in R[1:] if truth(at(B.guard(e))) not in (TRUE, FALSE)]
            if maybe:
                self.ob(None, 'alternatives', maybe[0].loc, 'conditions for loading')
                continue
            types = [Node(e).type for e in here]
            self.ob(types == [n.sub[0].type], 'order', here[0].loc if here else R[0].loc, 'for index %d %s is saved, %s loaded' % (k, n.sub[0].type[:60], ', '.join(types)[:60] or 'nothing is'))
            thr = truth(at(B.thr))
            self.ob(True if thr is FALSE else False if thr is TRUE else None, 'alternatives', R[0].loc, 'index %d is %srejected' % (k, '' if thr is TRUE else 'not '))
            if len(here) == 1:
                f = bare(reduce_ite(fin, v, k))
                while f.op == 'upd' and f.args[0].split('<')[0].endswith('reset_object_address'):
                    f = bare(f.args[3 if f.args[1] == 1 else 2])
                empty = Node(here[0]).type.endswith('no_truncation')
                r = f is B.value(here[0]) or B.vals.get(f) is here[0]
                self.ob(True if r else False if f in B.vals or definite(f, KNOWN) and not empty else None, 'restored', here[0].loc, 'the alternative %d is restored as %s' % (k, show(f, 4)[:150]))
        out = lnot(lor(*[eq(C_(k), v) for k in range(len(cbs))]))
        r = logic.implies(out, B.thr)
        self.ob(True if r else None, 'alternatives', R[0].loc, 'other indices are errors')


def reduce_ite(t, v, k):
    at = lambda c: truth(subst(c, lambda y: C_(k) if y is v else None))
    while t.op == 'ite':
        c = at(t.args[0])
        if c is TRUE:
            t = t.args[1]
        elif c is FALSE:
            t = t.args[2]
        else:
            return t
    return t


def n_sub(n):
    return set(subterms(n))


C_ = C


def p(n):
    return mk('p', n)


@rule('U19', ['s11n.cpp'], 'Saving to and loading from an archetype of an archive, for every serialisable class.', min_obligations=30)
def u19(cx):
    P = cx.progs['s11n.cpp']
    fs = {}
    for f in P.funcs.values():
        n = f['q'].rsplit('::', 1)[-1]
        if n not in ('save', 'load', 'serialize') or not f.get('body') or not f.get('ta') or f['q'].startswith('hx::'):
            continue
        side = 'oar' if 'hx::oar' in f['ta'] else 'iar' if 'hx::iar' in f['ta'] else None
        if side is None:
            continue
        free = f.get('cls') is None
        if free and len(f['params']) < 2:
            continue
        key = ('c', f['cls']) if not free else ('t', re.sub(r'\bconst |\s*&$', '', P.ty(f['params'][1]['t'])))
        fs.setdefault(key[:1] + (P.ty(key[1]),) if key[0] == 'c' else key, {})[(n, side)] = f
    if len(fs) < 6:
        raise Broken('serialisation functions not found')
    for key, d in sorted(fs.items(), key=lambda x: str(x[0])):
        a, b = d.get(('save', 'oar')), d.get(('load', 'iar'))
        if a is None and b is None:
            a, b = d.get(('serialize', 'oar')), d.get(('serialize', 'iar'))
        f = a or b
        what = '%s (%s)' % ((f.get('clsq') or f['q']), str(key[1])[:60])
        with cx.item(what):
            if a is None or b is None:
                cx.ob(None, 'order', what, '', 'saving and loading are not a pair of functions')
                continue
            A, B = Side(cx, P, a, SAVE), Side(cx, P, b, LOAD)
            cx.ob(len(A.events) > 0 or None, 'order', what, '', '%d items saved, %d loaded' % (len(A.events), len(B.events)))
            Pair(cx, what, A, B).check()
