"""Series values: terms of the table vector read as polynomials of insertions over their sources."""
from .rlib import *
from . import logic

TRY = 'unordered_flat_map::try_emplace'
OTHER_INS = re.compile(r'unordered_flat_map::(emplace|emplace_hint|insert|insert_or_assign|operator\[\]|merge|at)$')


class N:
    """Names of the fields of a series, found by type."""
    tabs, log2, tag, ss = 'm_s_table', 'm_log2_size', 'm_tag', 'm_symbol_set'
    it_tabs, it_idx, it_loc = 'm_s_table_ptr', 'm_idx', 'm_local_it'


def names(P):
    for r in P.recs:
        if r['q'] == 'obake::series':
            for f in r['fields']:
                t = P.types[f['t']]
                if 'small_vector<' in t and 'unordered_flat_map' in t:
                    N.tabs = f['n']
                elif t.startswith('unsigned'):
                    N.log2 = f['n']
                elif 'flyweight<' in t:
                    N.ss = f['n']
                else:
                    N.tag = f['n']
        if r['q'] == 'obake::series::iterator_impl':
            for f in r['fields']:
                t = P.types[f['t']]
                if t.endswith('*'):
                    N.it_tabs = f['n']
                elif 'table_iterator' in t or 'iterator' in t:
                    N.it_loc = f['n']
                else:
                    N.it_idx = f['n']


STOPS = re.compile(r'obake::series::(size|empty|get_symbol_set|get_symbol_set_fw|find|is_single_cf)$|obake::detail::merge_symbol_sets$')


def stops(q, n):
    return bool(STOPS.search(q))


def qof(e):
    return e.q.split('<')[0]


def is_call(t, name):
    return isinstance(t, T) and t.op == 'call' and t.args[0].split('<')[0].endswith(name)


def cargs(t):
    return t.args[1:]


def has_caught(t):
    return any(x.op == 'caught' for x in subterms(t))


def rest_guards(e, base):
    b = set(base.guards)
    return [g for g in e.guards if g not in b]


class Ins:
    """An insertion into a table and what is done with it afterwards."""

    def __init__(self, I, e):
        self.I, self.e = I, e
        self.loc = e.loc
        self.R = e.res
        self.table = e.args[0]
        self.place = e.places[0]
        self.key = e.args[1]
        self.cf = e.args[2:]
        self.first = mk('deref', mk('fld', self.R, 'first'))
        self.K = mk('fld', self.first, 'first')
        self.V = mk('fld', self.first, 'second')
        self.ok = mk('fld', self.R, 'second')
        self.mods = []        # events modifying the coefficient
        self.erases, self.clears, self.rethrows, self.other = [], [], [], []
        self.after = []
        n = len(e.loops)
        for x in I.trace:
            if x.i <= e.i or x.loops[:n] != e.loops or x.kind not in ('call', 'throw', 'asg', 'ctor'):
                continue
            b = set(e.guards)
            if not b <= set(x.guards):
                continue
            if x.kind == 'throw':
                if x.q == 'rethrow':
                    self.rethrows.append(x)
                continue
            if not x.args:
                continue
            pl = x.places[0] if x.places else None
            if x.kind == 'call' and pl is not None and pl == self.place and len(x.loops) == n:
                nm = qof(x).rsplit('::', 1)[-1]
                if nm == 'erase' and any(y is mk('fld', self.R, 'first') or contains_t(y, self.R) for y in x.args[1:]):
                    self.erases.append(x)
                    continue
                if nm == 'clear' and any(has_caught(g) for g in rest_guards(x, e)):
                    self.clears.append(x)
                    continue
            if pl is not None and pl == self.place_of(x, 'second') and x.kind in ('call', 'asg'):
                self.after.append(x)
                if qof(x).rsplit('::', 1)[-1] in ('is_zero',):
                    continue
                self.mods.append(x)

    def place_of(self, x, what):
        pl = x.places[0]
        if pl is None or pl.root[0] != 'd' or pl.root[1] is not self.first.args[0] or pl.path != (('f', what),):
            return None
        return pl

    def rel(self, x):
        return land(*[g for g in rest_guards(x, self.e) if not has_caught(g)])

    def value(self, ok):
        """(final coefficient if the insertion took place / found the key, problem)."""
        v = self.V
        for x in self.mods:
            r = assume_in(self.rel(x), {self.ok: ok})
            if r is FALSE:
                continue
            if r is not TRUE:
                raise LookupError('coefficient modified if %s' % show(r, 6)[:200])
            if x.kind == 'asg':
                v = x.args[-1]
            else:
                v = mk('upd', x.q, 0, v, *x.args[1:])
        return v

    def same_cf(self, t):
        """The value is the inserted coefficient."""
        def un(ts):
            out = []
            for a in ts:
                while a.op in ('conv', 'cast') or a.op == 'ctor' and len(a.args) == 2:
                    a = a.args[1]
                out.append(a)
            return tuple(out)
        if t.op == 'ctor':
            c = t.args[1:]
        else:
            c = (t,)
        return un(c) == un(self.cf)

    def sign(self):
        """(sign if inserted, sign if accumulated or None when never accumulated)."""
        a = self.value(True)
        s1 = 1
        while a is not self.V:
            if a.op == 'upd' and a.args[0].split('<')[0].endswith('negate') and len(a.args) == 3:
                s1 = -s1
                a = a.args[2]
            else:
                raise LookupError('inserted coefficient %s' % show(a, 5)[:200])
        b = self.value(False)
        if b is self.V:
            return s1, None
        if b.op == 'upd' and b.args[2] is self.V and len(b.args) == 4:
            nm = b.args[0].split('<')[0].rsplit('::', 1)[-1]
            if nm in ('operator+=', 'operator-='):
                if not self.same_cf(b.args[3]):
                    return s1, 0
                return s1, 1 if nm == 'operator+=' else -1
        raise LookupError('accumulated coefficient %s' % show(b, 5)[:200])


def contains_t(t, x):
    return any(y is x for y in subterms(t))


def insertions(I):
    return [Ins(I, e) for e in I.trace if e.kind == 'call' and qof(e).endswith(TRY)]


def clean(t, facts=()):
    """Without exceptional alternatives (and under the given truth values)."""
    f = dict(facts)

    def step(x):
        if x.op == 'caught':
            return FALSE
        return None
    t = subst(t, step)
    t = truth(t) if t.op in BOOL_OPS else t
    return assume_in(t, f) if f else t


# ---- the number of segments --------------------------------------------------------

def seg(I, t):
    """log2 of the number of tables of a vector of tables."""
    if t.op == 'fld' and t.args[1] == N.tabs:
        return mk('fld', t.args[0], N.log2) if t.args[0].op == 'p' else segof(I, t.args[0])
    if t.op in ('lx', 'lv'):
        L = I.loops[t.args[0]]
        if t.args[1] in L.init:
            return seg(I, L.init[t.args[1]])
    if t.op == 'ctor' and len(t.args) == 2:
        n = strip_cast(t.args[1])
        if n is C(1):
            return C(0)
        if n.op == 'shl' and n.args[0] is C(1):
            return n.args[1]
    if t.op == 'with':
        return seg(I, t.args[0])
    if t.op == 'upd':
        return seg(I, t.args[1] if t.args[0] == 'elemwrite' else t.args[2])
    if t.op == 'ite':
        return ite(t.args[0], seg(I, t.args[1]), seg(I, t.args[2]))
    raise LookupError('segments of %s' % show(t, 4)[:150])


def segof(I, x):
    """log2 field of a series value."""
    return unwith(x, [N.log2])


def nseg(I, c):
    """Conditions on the number of tables expressed through its log2."""
    def f(x):
        if x.op == 'size' and len(x.args) == 1:
            try:
                return mk('nseg', seg(I, x.args[0]))
            except LookupError:
                return None
        return None

    def g(x):
        if x.op == 'eq' and C(1) in x.args:
            o = x.args[1] if x.args[0] is C(1) else x.args[0]
            if o.op == 'nseg':
                return eq(C(0), o.args[0])
        if x.op == 'lt' and x.args[0] is C(1) and x.args[1].op == 'nseg':
            return lnot(eq(C(0), x.args[1].args[0]))
        if x.op == 'lt' and x.args[1] is C(2) and x.args[0].op == 'nseg':
            return eq(C(0), x.args[0].args[0])
        return None
    return subst(subst(c, f), g)


# ---- contents ----------------------------------------------------------------------

class Split(Exception):
    def __init__(self, c):
        Exception.__init__(self, show(c, 4)[:200])
        self.c = c


class Layer:
    """Something done to the terms: kind, term, loops and conditions it is subject to."""

    def __init__(self, kind, term, loops=(), conds=()):
        self.kind, self.term, self.loops, self.conds = kind, term, loops, conds

    def same(self, o):
        return self.kind == o.kind and self.term is o.term and self.loops == o.loops


TABLE_MODS = {'try_emplace': 'ins', 'insert': 'ins2', 'emplace': 'ins2', 'erase': 'erase', 'clear': 'clear', 'reserve': 'same', 'rehash': 'same'}


def chain_root(t):
    """The object an update chain starts from."""
    while t.op == 'upd' and t.args[0] != 'elemwrite':
        t = t.args[2]
    return t


def walk(I, t, loops=(), conds=()):
    """(base, layers): the base vector and what has been done to its tables since."""
    if t.op == 'ite':
        c = t.args[0]
        a, la = walk(I, t.args[1], loops, conds + (c,))
        b, lb = walk(I, t.args[2], loops, conds + (lnot(c),))
        if a is not b:
            raise Split(c)
        both = [x for x in la if any(x.same(y) and x.conds[len(conds) + 1:] == y.conds[len(conds) + 1:] for y in lb)]
        out = []
        for x in la:
            if x in both:
                out.append(Layer(x.kind, x.term, x.loops, x.conds[:len(conds)] + x.conds[len(conds) + 1:]))
            else:
                out.append(x)
        for x in lb:
            if not any(x.same(y) for y in both):
                out.append(x)
        return a, out
    if t.op == 'with' and t.args[1] == 'i':
        b, lb = walk(I, t.args[0], loops, conds)
        v, lv = walk(I, t.args[3], loops, conds)
        if v.op == 'idx' and v.args[1] is t.args[2]:
            v2, lv2 = walk(I, v.args[0], loops, conds)
            if v2 is b:
                return b, lb + [x for x in lv2 + lv if not any(x.same(y) for y in lb)]
        raise LookupError('table replaced by %s' % show(t.args[3], 4)[:150])
    if t.op == 'upd':
        nm = t.args[0].split('<')[0].rsplit('::', 1)[-1]
        if nm == 'elemwrite':
            b, lb = walk(I, t.args[1], loops, conds)
            r = chain_root(t.args[2])
            if r.op == 'fld' and r.args[1] == 'second' and r.args[0].op in ('elem', 'deref', 'idx'):
                return b, lb + [Layer('mod', t.args[2], loops, conds)]
            v, lv = walk(I, t.args[2], loops, conds)
            if v.op == 'elem':
                return b, lb + lv
            raise LookupError('element replaced by %s' % show(t.args[2], 4)[:150])
        if nm in TABLE_MODS and t.args[1] == 0:
            b, lb = walk(I, t.args[2], loops, conds)
            return b, lb + [Layer(TABLE_MODS[nm], t, loops, conds)]
        raise LookupError('operation %s on the tables' % nm)
    if t.op == 'lx':
        L = I.loops[t.args[0]]
        k = t.args[1]
        if k not in L.init or k not in L.step:
            raise LookupError('loop value')
        b, ls = walk(I, clean(L.step[k]), loops + (L.id,), conds)
        if b is not mk('lv', L.id, k):
            raise LookupError('loop carries %s' % show(b, 4)[:150])
        b0, l0 = walk(I, L.init[k], loops, conds)
        return b0, l0 + ls
    if t.op == 'fld' and t.args[1] == N.tabs and t.args[0].op in ('with', 'ite'):
        u = unwith(t.args[0], [N.tabs])
        if u is not t:
            return walk(I, u, loops, conds)
    if t.op == 'fld' and t.args[1] == N.tabs and t.args[0].op in ('lx', 'upd'):
        # A series modified through its iterators.
        return walk_series(I, t.args[0], loops, conds)
    if t.op == 'idx':
        # The table of a vector.
        if t.args[0].op in ('ite', 'with', 'lx', 'upd'):
            b, ls = walk(I, t.args[0], loops, conds)
            return mk('idx', b, t.args[1]), ls
    return t, []


def walk_series(I, t, loops, conds):
    if t.op == 'lx':
        L = I.loops[t.args[0]]
        k = t.args[1]
        if k not in L.init or k not in L.step:
            raise LookupError('loop value')
        s = clean(L.step[k])
        lv = mk('lv', L.id, k)
        out = []

        def mods(s, conds):
            if s is lv:
                return
            if s.op == 'ite':
                mods(s.args[1], conds + (s.args[0],))
                mods(s.args[2], conds + (lnot(s.args[0]),))
                return
            if s.op == 'upd' and s.args[0] == 'elemwrite':
                mods(s.args[1], conds)
                r = chain_root(s.args[2])
                if r.op == 'fld' and r.args[1] == 'second' and r.args[0].op == 'elem':
                    out.append(Layer('mod', s.args[2], loops + (L.id,), conds))
                    return
            raise LookupError('series modified: %s' % show(s, 4)[:150])
        mods(s, conds)
        b, ls = walk(I, mk_tabs(L.init[k]), loops, conds)
        return b, ls + out
    raise LookupError('series %s' % show(t, 3)[:150])


def mk_tabs(s):
    return unwith(s, [N.tabs])


# ---- contents of a series ----------------------------------------------------------

KEY, CF = mk('KEY'), mk('CF')


class Entry:
    """The terms of an operand, with their keys and coefficients transformed."""

    def __init__(self, op, key=KEY, cf=CF, conds=(), only=TRUE, loc=''):
        self.op, self.key, self.cf, self.conds, self.only, self.loc = op, key, cf, conds, only, loc

    def __repr__(self):
        return '<%s key=%s cf=%s if %s>' % (self.op, show(self.key, 5), show(self.cf, 5), show(land(*self.conds, self.only), 4))


def iterated(I, loops, conds):
    """(tables iterated over, element): every term of the tables is visited once."""
    if len(loops) == 1:
        L = I.loops[loops[0]]
        if L.kind == 'rfor' and not L.exits:
            R = L.range
            if R.op == 'idx' and R.args[1] is C(0):
                lg = seg(I, R.args[0])
                g = land(*[nseg(I, clean(c)) for c in tuple(conds) + tuple(L.guards)])
                if lg is C(0) or seg_single(g, lg):
                    return R.args[0], mk('elem', L.id, R)
                raise Partial(L.loc, 'only the terms of the first table are used')
            if R.op in ('p', 'with', 'lx', 'ite'):
                return mk_tabs(R), mk('elem', L.id, R)
        raise LookupError('loop over %s' % (show(L.range, 3)[:100] if L.range is not None else L.kind))
    if len(loops) == 2:
        A, B = I.loops[loops[0]], I.loops[loops[1]]
        if B.kind == 'rfor' and not B.exits and not A.exits:
            R = B.range
            if A.kind == 'rfor' and R is mk('elem', A.id, A.range):
                return A.range, mk('elem', B.id, R)
            if A.kind in ('for', 'while') and R.op == 'idx' and R.args[1].op == 'lv' and R.args[1].args[0] == A.id and all_indices(I, A, R.args[1], R.args[0]):
                return R.args[0], mk('elem', B.id, R)
            if R.op == 'idx' and R.args[1].op == 'c' and not seg_single(land(*[nseg(I, clean(c)) for c in tuple(conds) + tuple(B.guards)]), seg(I, R.args[0])):
                raise Partial(B.loc, 'only the terms of one table are used')
    raise LookupError('iteration not recognised')


def via_iterator(I, w, depth=0):
    for y in subterms(w):
        if y.op in ('begin', 'end') or y.op == 'call' and re.search(r'::c?(begin|end|find)$', y.args[0].split('<')[0]):
            return True
        if y.op in ('lv', 'lx') and depth < 3:
            L = I.loops[y.args[0]]
            if y.args[1] in L.init and via_iterator(I, L.init[y.args[1]], depth + 1):
                return True
    return False


def every_table(I, l):
    """An operation on the tables themselves, done on each of them."""
    c = l.term.args[2]
    V = None
    if len(l.loops) == 1:
        L = I.loops[l.loops[0]]
        if L.kind == 'rfor' and not L.exits and L.range.op != 'idx' and c is mk('elem', L.id, L.range):
            return
        if L.kind in ('for', 'while') and not L.exits and c.op == 'idx' and c.args[1].op == 'lv' and c.args[1].args[0] == L.id:
            all_indices(I, L, c.args[1], c.args[0])
            return
    if not l.loops and c.op == 'idx' and c.args[1].op == 'c':
        lg = seg(I, c.args[0])
        if lg is C(0) or seg_single(land(*l.conds), lg):
            return
        raise Partial('', 'only the first table is cleared')
    raise LookupError('tables cleared')


class Partial(Exception):
    def __init__(self, loc, msg):
        Exception.__init__(self, msg)
        self.loc = loc


def seg_single(g, lg):
    z = eq(C(0), lg)
    if z in conj(g):
        return True
    rel = [c for c in conj(g) if contains_t(c, lg)]
    return logic.implies(land(*rel), z) is True if rel else False


def all_indices(I, L, lv, V):
    """Does the index visit all the tables?"""
    k = lv.args[1]
    lg = seg(I, V)
    if L.init.get(k) is not C(0):
        raise Partial(L.loc, 'the first table used is %s' % show(L.init.get(k, C(0)), 3)) if L.init.get(k) is not None and L.init[k].op == 'c' else LookupError('start index')
    if strip_cast(L.step[k]) is not add(lv, C(1)):
        raise LookupError('index step %s' % show(L.step[k], 4)[:100])
    n, sh = mk('nseg', lg), mk('shl', C(1), lg)
    c = subst(nseg(I, strip_cast(L.cond)), lambda x: n if x is sh else None)
    if c in (lt(lv, n), lnot(eq(lv, n))):
        return True
    if c.op == 'lt' and c.args[0] is lv and (c.args[1].op in ('c', 'lin') or c.args[1] is lg):
        raise Partial(L.loc, 'the tables used are those with index less than %s' % show(c.args[1], 4))
    raise LookupError('index condition %s' % show(c, 4)[:100])


def contents(I, t, depth=0, ins=None):
    """The entries a vector of tables consists of."""
    if depth > 6:
        raise LookupError('too deep')
    ins = ins if ins is not None else insertions(I)
    if depth == 0:
        own = {x.first.args[0] for x in ins}
        for w in I.dwrites:
            if w not in own and via_iterator(I, w):
                raise LookupError('terms modified through %s' % show(w, 4)[:100])
    b, layers = walk(I, clean(t))
    if b.op in ('ctor', 'new'):
        out = []
    elif b.op == 'fld' and b.args[1] == N.tabs and b.args[0].op == 'p':
        out = [Entry(b.args[0].args[0])]
    elif b.op == 'fld' and b.args[1] == N.tabs and b.args[0].op in ('fld', 'deref', 'call'):
        out = [Entry(b.args[0])]
    else:
        raise LookupError('tables %s' % show(b, 4)[:150])
    own = []
    for l in layers:
        conds = tuple(nseg(I, clean(c)) for c in l.conds)
        if l.kind == 'same':
            continue
        if l.kind == 'clear':
            if land(*conds) is TRUE:
                every_table(I, l)
                out = []
                continue
            raise LookupError('conditional clear')
        if l.kind == 'mod':
            m = subst(l.term, lambda x: CF if x.op == 'fld' and x.args[1] == 'second' and x.args[0].op == 'elem' else None)
            V, el = iterated(I, l.loops, conds)
            for e in out:
                f = subst(m, lambda x: e.cf if x is CF else None)
                e.cf = f if land(*conds) is TRUE else ite(land(*conds), f, e.cf)
            continue
        if l.kind == 'ins2':
            a = l.term.args[3]
            V, el = iterated(I, l.loops, conds)
            if a is not el:
                raise LookupError('element %s inserted' % show(a, 4)[:100])
            only = [c for c in conds if contains_t(c, el)]
            sub_ = contents(I, V, depth + 1, ins)
            for e in sub_:
                f = lambda x: mk('TERM') if x is el else None
                out.append(Entry(e.op, e.key, e.cf, tuple(c for c in conds if c not in only) + e.conds, land(e.only, *[truth(subst(c, f)) for c in only]), loc=''))
            continue
        if l.kind == 'ins':
            key, cf = l.term.args[3], l.term.args[4:]
            x = [x for x in ins if x.key is key and x.e.loops == l.loops and x.cf == cf and land(*[clean(g) for g in x.e.guards]) is not FALSE]
            x = x[-1] if x else None
            own.append(key)
            loc = x.loc if x else ''
            s1, s2 = x.sign() if x else (None, None)
            if s1 is None:
                raise LookupError('insertion not recognised')
            if not l.loops:
                out.append(Entry(None, key, mk('neg', cf[0]) if s1 == -1 and len(cf) == 1 else cf[0] if len(cf) == 1 else mk('ctor', '', *cf), conds, loc=loc))
                continue
            V, el = iterated(I, l.loops, conds + tuple(g for g in (x.e.guards if x else ())))
            only = [c for c in conds if contains_t(c, el)]
            rest = tuple(c for c in conds if c not in only)
            for e in contents(I, V, depth + 1, ins):
                k1, c1 = mk('fld', el, 'first'), mk('fld', el, 'second')
                f = lambda y: e.key if y is k1 else e.cf if y is c1 else None
                nc = subst(cf[0], f) if len(cf) == 1 else mk('ctor', '', *[subst(y, f) for y in cf])
                out.append(Entry(e.op, subst(key, f), mk('neg', nc) if s1 == -1 else nc, rest + e.conds, land(e.only, *only), loc))
            continue
        if l.kind == 'erase':
            a = l.term.args[3:]
            if any(y.op == 'fld' and y.args[1] == 'first' and y.args[0].op in ('call', 'rc') for y in a) or any(
                    x.R is z for x in ins for y in a for z in subterms(y)) or any(y in own for y in a):
                continue        # removal of a zero term just inserted
            out.append(('erase', l))
            continue
        raise LookupError('operation %s' % l.kind)
    return out


# ---- symbol sets -------------------------------------------------------------------

EMPTY_SS = mk('ss-empty')


def ssval(x):
    """The symbol set held by a handle."""
    while True:
        if x.op in ('conv', 'cast'):
            x = x.args[1]
        elif x.op == 'ctor' and len(x.args) == 2:
            x = x.args[1]
        else:
            break
    if x.op == 'ctor' and len(x.args) == 1 or x.op == 'new':
        return EMPTY_SS
    if x.op == 'deref' and x.args[0].op == 'ref':
        return ssval(x.args[0].args[0])
    if is_call(x, 'series::get_symbol_set') or is_call(x, 'series::get_symbol_set_fw'):
        y = ss_of(x.args[1])
        return y.args[0] if y.op == 'ss' else x
    return x


def css(t):
    """Symbol sets of series in one normal form: ss(value of the field)."""
    def f(x):
        if x.op == 'deref' and x.args[0].op == 'ref':
            c = x.args[0].args[0]
            if is_call(c, 'series::get_symbol_set') or is_call(c, 'series::get_symbol_set_fw'):
                return ss_of(css(c.args[1]))
            if is_call(c, 'flyweight::get'):
                return mk('ss', ssval(css(c.args[1])))
        return None
    return subst(t, f)


def ss_of(x):
    """The symbol set of a series value."""
    def go(v):
        if v.op == 'ite':
            return ite(v.args[0], go(v.args[1]), go(v.args[2]))
        return mk('ss', ssval(v))
    return go(unwith(x, [N.ss]))
