"""Series: insertion of terms, container state, arithmetic."""
from ..rlib import *
from ..series import *
from ..series import N
from .. import logic
from . import rule

p = lambda n: mk('p', n)
MAXU = C(2 ** 64 - 1)
API = ('add_term', 'sub_term', 'add_term_m', 'add_term_i', 'sub_term_i')
MINUS = ('sub_term', 'sub_term_i')
INSERTING = API + ('make', 'make_m', 'make_ss', 'assign_from', 'add', 'add_m', 'sub', 'sub_m', 'iadd', 'iadd_m', 'isub', 'isub_m', 'eq', 'ne',
                   'power', 'trim_s', 'add_symbols')


def nice(f):
    ta = f['ta']
    ta = re.sub(r'obake::series<hx::key, obake::series<hx::key, hx::cf, hx::tag>, hx::tag>', 'SS', ta)
    ta = re.sub(r'obake::series<hx::key, hx::cf, hx::tag>', 'S', ta)
    ta = re.sub(r'obake::series<hx::key, hx::cg, hx::tag>', 'S2', ta)
    return f['q'].replace('hx::', '') + ta.replace('hx::', '')


class Op:
    """An operation on series, analysed."""

    def __init__(self, cx, P, f, stops_=None, **kw):
        self.cx, self.P, self.f = cx, P, f
        self.what = nice(f)
        names(P)
        kw.setdefault('exact', True)
        self.I = cx.analyse(P, f, stops=stops_ or stops, **kw)
        self.loc = ret_loc_of(self.I, P, f)

    def ob(self, ok, rule, loc='', detail=''):
        return self.cx.ob(ok, rule, self.what, loc or self.loc, detail)


def ret_loc_of(I, P, f):
    for e in reversed(I.trace):
        if e.loc and '/repo/' in e.loc or e.loc and 'obake' in e.loc and 'harness' not in e.loc:
            return e.loc
    return P.loc(f)


def series_ops(cx, P, fns):
    for fn in fns:
        fs = [f for f in P.find('hx::' + fn) if f.get('body') is not None and f.get('ta')]
        if not fs:
            raise Broken('anchor hx::%s not found' % fn)
        for f in fs:
            with cx.item(nice(f)):
                yield Op(cx, P, f)


def implied(I, guards, want):
    """Do the guards imply the condition?  Only the conjuncts about the same quantities are used."""
    g = [nseg(I, clean(x)) for x in guards]
    g = [y for x in g for y in conj(x)]
    if want in g:
        return True
    at = set()

    def atoms(x, out):
        if x.op in ('and', 'or', 'not', 'ite'):
            for y in x.args:
                atoms(y, out)
        else:
            out.add(x)
    atoms(want, at)
    rel = []
    for x in g:
        a = set()
        atoms(x, a)
        if a & at and len(a) <= 8:
            rel.append(x)
    return logic.implies(land(*rel), want) is True if rel else False


def is_hash(t, key):
    return t.op == 'call' and t.args[0].split('<')[0].split('::')[-1] == 'hash' and t.args[-1] is key


def table_of(x):
    """(vector of tables, index) of the table an insertion goes to."""
    I, t = x.I, x.table
    if t.op == 'idx':
        return t.args
    if t.op in ('lv', 'lx'):
        L = I.loops[t.args[0]]
        i = L.init.get(t.args[1])
        b = table_base(I, i) if i is not None else None
        if b is not None:
            return b
    return table_base(I, t) or (None, None)


def table_base(I, t):
    if t.op == 'ite':
        a, b = table_base(I, t.args[1]), table_base(I, t.args[2])
        if a is None or b is None or a[1] is not b[1]:
            return None
        return ite(t.args[0], a[0], b[0]), a[1]
    try:
        b, _ = walk(I, t)
    except (LookupError, Split):
        return None
    if b.op == 'idx':
        return b.args
    if b.op == 'lv':
        L = I.loops[b.args[0]]
        return table_base(I, L.init[b.args[1]])
    return None


def destination(op, x):
    """The term is looked for and stored in the table selected by its hash."""
    I, e = x.I, x.e
    vec, i = table_of(x)
    if vec is None:
        return op.ob(None, 'table', x.loc, 'table not recognised: %s' % show(x.table, 4)[:200])
    try:
        lg = seg(I, vec)
    except LookupError as err:
        return op.ob(None, 'table', x.loc, str(err))
    single = implied(I, e.guards, eq(C(0), lg)) or lg is C(0)
    if i is C(0):
        if single:
            return op.ob(True, 'table', x.loc)
        c = nseg(I, clean(land(*e.guards)))
        if logic.sat(land(*[y for y in conj(c) if contains_t(y, lg)], lnot(eq(C(0), lg)))):
            return op.ob(False, 'table', x.loc, 'the term goes to the first table whatever its hash, although there may be several tables')
        return op.ob(None, 'table', x.loc, 'number of tables unknown')
    i = nseg(I, strip_cast(i))
    if single and subst(i, lambda y: C(1) if y is mk('nseg', lg) or y is mk('shl', C(1), lg) else C(0) if y is lg else None) is C(0):
        return op.ob(True, 'table', x.loc)
    if i.op == 'band':
        a = list(i.args)
        m = [y for y in a if sub(y, C(-1)).op == 'nseg' or y is sub(mk('shl', C(1), lg), C(1))]
        h = [y for y in a if y not in m]
        if len(m) == 1 and len(h) == 1:
            okm = m[0] is sub(mk('nseg', lg), C(1)) or m[0] is sub(mk('shl', C(1), lg), C(1))
            okh = is_hash(h[0], x.key)
            if okm and okh and sameix(i, index_of_find(op, x, lg)):
                op.ob(True, 'table', x.loc)
                return limit(op, x, vec, lg, single)
            if okm and not okh and h[0].op == 'call' and 'hash' in h[0].args[0]:
                return op.ob(False, 'table', x.loc, 'the table is selected by the hash of %s, the inserted key is %s' % (
                    show(h[0].args[-1], 5)[:150], show(x.key, 5)[:150]))
    if i.op == 'mod' and len(i.args) == 2 and is_hash(i.args[0], x.key) and i.args[1] in (mk('nseg', lg), mk('shl', C(1), lg)):
        op.ob(True, 'table', x.loc)
        return limit(op, x, vec, lg, single)
    # Made of the hash of the key and the number of tables only, and not the required function of them.
    if i.op in ('band', 'mod', 'shr', 'shl', 'div', 'call'):
        lv = set()

        def leaves(y):
            if is_hash(y, x.key) or y is mk('nseg', lg) or y is lg:
                lv.add('h' if y.op == 'call' else 'n')
            elif y.op == 'c' or y.op in ('shl', 'shr', 'band', 'bor', 'lin', 'add', 'mul', 'mod', 'div', 'bxor'):
                for z in y.args:
                    if isinstance(z, T):
                        leaves(z)
                    elif isinstance(z, tuple):
                        for w in z:
                            for v in (w if isinstance(w, tuple) else (w,)):
                                if isinstance(v, T):
                                    leaves(v)
            else:
                lv.add('?')
        leaves(i)
        fi = index_of_find(op, x, lg)
        if fi is not None and sameix(i, fi):
            op.ob(True, 'table', x.loc)
            return limit(op, x, vec, lg, single)
        if '?' not in lv and lv:
            return op.ob(False, 'table', x.loc, 'the term is stored in table %s, where a lookup would not find it' % show(i, 5)[:200])
    # The same table as the one the key comes from.
    if x.key.op == 'fld' and x.key.args[0].op == 'elem':
        r = x.key.args[0].args[1]
        if r.op == 'idx' and strip_cast(r.args[1]) is strip_cast(table_of(x)[1]):
            try:
                same = seg(I, r.args[0]) is lg
            except LookupError:
                same = False
            return op.ob(True if same else None, 'table', x.loc, 'tables of a different vector')
    return op.ob(None, 'table', x.loc, 'table index %s' % show(i, 5)[:200])


def sameix(a, b):
    return b is None or a is b or a.op == b.op == 'band' and set(a.args) == set(b.args)


def index_of_find(op, x, lg):
    """The index of the table lookups expect the key in, for this key and number of tables."""
    cx = op.cx
    if not hasattr(cx, 'findix'):
        from .r_series2 import find_index
        cx.findix = find_index(cx, op.P)
    if cx.findix is None:
        return None
    h = mk('call', 'hx::hash', x.key)
    return subst(cx.findix, lambda y: h if y.op == 'call' and y.args[0].endswith('hash') else mk('nseg', lg) if y.op == 'nseg' else None)


def limit(op, x, vec, lg, single):
    """The size of a table is checked before it grows (the total must stay representable)."""
    I, e = x.I, x.e
    tab = nseg(I, x.table)
    sz = mk('call', 'boost::unordered::unordered_flat_map::size', tab)
    lim = mk('div', MAXU, mk('shl', C(1), lg))
    g = [y for h in e.guards for y in conj(nseg(I, clean(h)))]
    for y in g:
        for z in subterms(y):
            if z.op == 'call' and z.args[0].endswith('unordered_flat_map::size') and z.args[1] is tab:
                ok = y in (lnot(eq(sz, lim)), lt(sz, lim)) or y.op == 'not' and y.args[0].op == 'eq' and set(y.args[0].args) == {sz, lim}
                if not ok:
                    r = logic.implies(y, lt(sz, lim))
                    at = [w for w in subterms(y) if w.op in ('lt', 'eq')]
                    plain = all(set(w.args) <= {sz, lim} or all(v is sz or v.op == 'c' or contains_t(v, lim) for v in w.args) for w in at)
                    ok = True if r else False if plain and logic.sat(land(y, lt(lim, sz))) and logic.sat(land(y, eq(lim, sz))) else None
                return op.ob(ok, 'table-limit', x.loc, 'limit on the size of a table: %s' % show(y, 6)[:200])
    return op.ob(False, 'table-limit', x.loc, 'nothing bounds the size of the table the term is inserted into')


def updates(op, x, api, conv):
    """Sign, accumulation, removal of zeros, exceptions."""
    I, e = x.I, x.e
    s1, s2 = x.sign()
    if s2 == 0:
        b = x.value(False)
        return op.ob(False, 'accumulate', x.loc, 'an existing coefficient is updated with %s, the inserted one is %s' % (
            show(b.args[3], 5)[:150], ', '.join(show(a, 5) for a in x.cf)[:150]))
    if s2 is None:
        # Only where the key cannot be there already.
        op.ob(starts_empty(x), 'accumulate', x.loc, 'a term with the same key may be there already, and its coefficient is not updated')
    else:
        op.ob(s1 == s2, 'accumulate', x.loc, 'a new term gets the coefficient with sign %d, an existing one is updated with sign %d' % (s1, s2))
    # Removal of zeros.
    need = {True: bool(api or conv or s2 is not None), False: s2 is not None}
    erased = FALSE
    for z in x.erases:
        if not any(strip_refs_it(a) in (mk('fld', x.R, 'first'), x.K, x.key) for a in z.args[1:]):
            return op.ob(None, 'no-zero', z.loc, 'erasure of %s' % show(z.args[1], 5)[:200])
        erased = lor(erased, x.rel(z))
    ss = None
    for ok in (True, False):
        if not ok and s2 is None:
            continue
        V = x.value(ok)
        iz = [t for t in subterms(erased) if t.op == 'call' and t.args[0].split('<')[0].endswith('is_zero') and 'key' not in t.args[0]]
        c = assume_in(erased, {x.ok: ok})

        # Atoms: the coefficient is zero, the key is zero.
        def f(t):
            if t.op == 'call' and t.args[0].split('<')[0].endswith('key_is_zero'):
                return mk('KZ') if t.args[1] in (x.K, x.key) else None
            if t.op == 'call' and t.args[0].split('<')[0].endswith('is_zero'):
                return mk('CZ') if assume_in(t.args[1], {x.ok: ok}) is V else None
            return None
        c2 = subst(c, f)
        c2 = truth(c2) if c2.op in BOOL_OPS else c2
        at = set()
        for t in subterms(c2):
            if t.op in ('call', 'KZ', 'CZ') or t.op == 'p':
                at.add(t)
        known = {mk('KZ'), mk('CZ')}
        unk = not at <= known
        want_lo = lor(mk('CZ') if need[ok] else FALSE, mk('KZ') if api else FALSE)
        lo, hi = logic.implies(want_lo, c2), logic.implies(c2, lor(mk('CZ'), mk('KZ')))
        when = 'inserted' if ok else 'accumulated'
        if lo and hi:
            op.ob(True, 'no-zero', x.loc)
        else:
            # A test of a value other than the stored one is a definite mismatch.
            other = [t for t in subterms(c2) if t.op == 'call' and t.args[0].split('<')[0].endswith('is_zero')]
            if c2 is FALSE or not unk or other and not lo:
                op.ob(False, 'no-zero', x.loc, 'the %s term is removed if %s; it must be removed exactly if its coefficient%s is zero' % (
                    when, show(c2, 6)[:250], ' or its key' if api else ''))
            else:
                op.ob(None, 'no-zero', x.loc, 'removal condition %s' % show(c2, 6)[:250])
    # Exceptions while the table is inconsistent.
    risky = [m for m in x.after if m.kind == 'call'] if (s1 == -1 or s2 is not None or api or conv) else []
    for m in risky:
        nm = qof(m).rsplit('::', 1)[-1]
        tids = {t[0] if isinstance(t, tuple) else t for t in m.tries} - {t[0] if isinstance(t, tuple) else t for t in e.tries}
        allt = {t[0] if isinstance(t, tuple) else t for t in m.tries}
        good = False
        for z in x.clears:
            for g in rest_guards(z, e):
                for t in subterms(g):
                    if t.op == 'caught' and t.args[0] in allt:
                        good = True
        if good:
            op.ob(True, 'exception', m.loc)
            continue
        # Another way of restoring the invariant may be in use.
        guard = [y for y in I.trace if y.kind == 'ctor' and y.q.startswith('obake::') and y.i < m.i and y.loops == e.loops
                 and not re.search(r'obake::(series|polynomials|detail::series_key)', y.q)]
        op.ob(None if guard or tids - {None} and not x.clears and any(handles(I, t, x) for t in tids) else False, 'exception', m.loc,
              'an exception thrown by %s would leave an invalid term in the table' % nm)


def starts_empty(x):
    """Is the destination filled from scratch by this kind of insertions only?"""
    vec, i = table_of(x)
    if vec is None:
        return None

    def go(t, n=0):
        if n > 12:
            return None
        try:
            b, ls = walk(x.I, t)
        except Split as e:
            return None
        except LookupError:
            return None
        if b.op == 'lv':
            return go(x.I.loops[b.args[0]].init[b.args[1]], n + 1)
        if b.op == 'ctor' or b.op == 'new':
            return True
        if b.op == 'fld' and b.args[0].op == 'p':
            return False
        return None
    return go(vec)


def handles(I, tid, x):
    """Does the handler do something to the series we do not recognise?"""
    for y in I.trace:
        if y.kind == 'call' and any(t.op == 'caught' and t.args[0] == tid for g in y.guards for t in subterms(g)):
            if not qof(y).endswith('clear'):
                return True
            if y.places and y.places[0] is not None and y.places[0] != x.place:
                return True
    return False


def strip_refs_it(t):
    while t.op in ('conv', 'cast') or t.op == 'ctor' and len(t.args) == 2:
        t = t.args[1]
    return t


@rule('S01', ['series.cpp'], 'Every insertion of a term reachable from the operations on series: destination table, limit on its size, sign and value '
      'accumulated, removal of zero terms, restoration after an exception; the checks made on terms supplied by the user.', min_obligations=1000)
def s01(cx):
    P = cx.progs['series.cpp']
    names(P)
    for op in series_ops(cx, P, INSERTING):
        I = op.I
        fn = op.f['q'].replace('hx::', '')
        api = fn in API
        seen = insertions(I)
        for e in I.trace:
            if e.kind == 'call' and OTHER_INS.search(qof(e)):
                op.ob(None, 'insertion', e.loc, 'insertion by %s' % qof(e))
        for x in seen:
            with cx.item(op.what):
                conv = needs_conv(P, x)
                destination(op, x)
                updates(op, x, api, conv)
        if api:
            for x in seen:
                with cx.item(op.what):
                    compatible(op, x)
            with cx.item(op.what):
                arguments(op, seen, -1 if fn in MINUS else 1)


def targs(t):
    """Template arguments of a type."""
    if '<' not in t:
        return []
    out, d, cur = [], 0, ''
    for ch in t[t.index('<') + 1:t.rindex('>')]:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def needs_conv(P, x):
    """The stored coefficient is converted from a value of another type."""
    n = x.e.node or {}
    to = targs(P.types[n['cls']]) if n.get('cls') is not None else []
    fr = targs(x.e.ta) if x.e.ta else []
    if len(to) < 2 or len(fr) != 1 or len(x.cf) != 1:
        return False
    return re.sub(r'^const | ?&+$', '', fr[0]).strip() != to[1]


def compatible(op, x):
    """A term offered by the user is stored only if its key is compatible with the symbol set."""
    I, e = x.I, x.e
    s = p('s')
    c = mk('call', 'hx::key_is_compatible', x.key, mk('ss', mk('fld', s, N.ss)))
    g = [css(y) for h in e.guards for y in conj(clean(h))]
    ok = c in g or any(is_call(y, 'key_is_compatible') and y.args[1] is x.key and y.args[2] is c.args[2] for y in g)
    if not ok:
        near = [y for y in g if any(is_call(z, 'key_is_compatible') for z in subterms(y))]
        want = [z for y in near for z in subterms(y) if is_call(z, 'key_is_compatible') and z.args[1] is x.key and z.args[2] is c.args[2]]
        if want:
            r = logic.implies(land(*near), want[0])
            if r:
                return op.ob(True, 'compatible', x.loc)
            if r is False:
                return op.ob(False, 'compatible', x.loc, 'the key may be stored although not compatible with the symbol set: %s' % show(land(*near), 6)[:250])
        return op.ob(None if near and not all(is_call(y, 'key_is_compatible') or y.op == 'not' for y in near) else False, 'compatible', x.loc,
                     'the key is stored without having been found compatible with the symbol set%s' % (
                         ': %s' % show(near[0], 5)[:150] if near else ''))
    op.ob(True, 'compatible', x.loc)


def arguments(op, seen, sign):
    """Key and coefficient supplied by the user are the ones stored; refusals are errors."""
    I = op.I
    k = p('k')
    cfp = [p(a) for a in ('c', 'n')]
    reach = FALSE
    for x in seen:
        op.ob(x.key is k, 'argument', x.loc, 'key %s is inserted' % show(x.key, 4)[:150])
        op.ob(len(x.cf) == 1 and any(contains_t(x.cf[0], c) for c in cfp), 'argument', x.loc,
              'coefficient %s is inserted' % ', '.join(show(a, 4) for a in x.cf)[:150])
        s1, _ = x.sign()
        op.ob(s1 == sign, 'sign', x.loc, 'the coefficient is inserted with sign %d' % s1)
        reach = lor(reach, land(*e_guards(I, x.e)))
    bad = FALSE
    for e in I.trace:
        if e.kind == 'throw' and e.q != 'rethrow':
            g = land(*e_guards(I, e))
            bad = lor(bad, g)
            at = [y for y in conj(g)]
            if 'invalid_argument' in e.q:
                ok = any(y.op == 'not' and is_call(y.args[0], 'key_is_compatible') for y in at)
                op.ob(True if ok else None, 'refusal', e.loc, 'invalid_argument if %s' % show(g, 6)[:200])
            elif 'overflow_error' in e.q:
                ok = any(y.op == 'eq' and any(z.op == 'div' for z in y.args) or y.op == 'not' and y.args[0].op == 'lt' for y in at)
                op.ob(True if ok else None, 'refusal', e.loc, 'overflow_error if %s' % show(g, 6)[:200])
    r = logic.equiv(lor(reach, bad), TRUE)
    op.ob(True if r else None if r is None or not seen else False, 'every-term', seen[0].loc if seen else '',
          'the term is silently dropped unless %s' % show(lor(reach, bad), 6)[:300])


def e_guards(I, e):
    return [nseg(I, clean(g)) for g in e.guards]
