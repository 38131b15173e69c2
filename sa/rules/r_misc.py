"""Stack traces and serialization traits."""
from ..rlib import *
from ..scan import cases, size
from . import rule

ST, NM, C0, C1 = mk('p', 'trace'), mk('p', 'name'), mk('p', 'index'), mk('p', 'location')
BT = 'boost::stacktrace::basic_stacktrace'


def bcall(t, name):
    return t.op == 'call' and re.sub(r'<.*?>$', '', str(t.args[0])).endswith(name)


def pieces(t, base):
    """The text appended to a string: a list of terms (literals merged)."""
    if t is base:
        return []
    if t.op == 'call' and re.match(r'std::operator\+', str(t.args[0])) and len(t.args) == 3:
        return pieces(t.args[1], base) + pieces(t.args[2], base)
    if t.op == 'upd' and t.args[1] == 0 and re.search(r'::(operator\+=|append|push_back)$', t.args[0]) and len(t.args) == 4:
        return pieces(t.args[2], base) + pieces(t.args[3], base)
    if t.op == 'str':
        return [t.args[0]]
    if t.op == 'c' and 0 < t.args[0] < 128:
        return [chr(t.args[0])]
    return [t]


def merged(l):
    out = []
    for x in l:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


@rule('U18', ['strace.cpp'], 'Summary of the function making stack traces: frames requested from the tracing library, rows stored per frame, column '
      'widths as running maxima over the rows, text of a line and separator compared with the required ones.', min_obligations=10)
def u18(cx):
    P = cx.progs['strace.cpp']
    for f in cx.entry(P, 'hx::trace', 1):
        with cx.item('stack trace'):
            trace(cx, P, f)


def trace(cx, P, f):
    W = 'stack trace'
    I = cx.analyse(P, f, exact=True, stops=lambda q, n: q.startswith('obake::detail::to_string'))
    n = mk('p', 'n')
    nms = {x for t in [I.ret] + [y for L in I.loops.values() for y in list(L.step.values()) + [L.cond]] if t is not None
           for x in subterms(t) if x.op == 'ctor' and 'basic_stacktrace<' in str(x.args[0])}
    if len(nms) != 1:
        raise LookupError('stack trace object')
    nm = nms.pop()
    loc = next(e.loc for e in I.trace if e.kind == 'ctor' and e.q.endswith('basic_stacktrace::basic_stacktrace'))
    args = [a for a in nm.args[1:] if 'allocator' not in show(a, 2)]
    sk = strip_cast(args[0]) if args else ZERO
    cx.same('frames-skipped', W, loc, sk, add(n, C(2)), what='number of frames skipped')
    if len(args) > 1:
        cx.same('depth', W, loc, strip_cast(args[1]), sub(C(2**64 - 1), add(n, C(2))), what='maximum depth')
    else:
        cx.ob(True, 'depth', W, loc)
    S = lambda t: subst(t, lambda x: ST if x is nm else None)
    sz = lambda t: bcall(t, '::size') and t.args[-1] is ST or t is size(ST)

    # The loop storing the rows, the loop printing them.
    rows = lines = None
    for L in I.loops.values():
        for k in L.init:
            st = S(L.step.get(k, ZERO))
            if st.op == 'upd' and re.search(r'::(push_back|emplace_back)$', st.args[0]) and st.args[2] is mk('lv', L.id, k):
                rows = (L, k, st.args[3])
            elif L.init[k] is mk('str', ''):
                lines = (L, k, st)
    if rows is None or lines is None:
        raise LookupError('loops')
    L, rk, v = rows
    i = next((k for k in L.init if L.init[k].op == 'c' and sub(L.step[k], mk('lv', L.id, k)) is ONE), None)
    if i is not None:
        cx.ob(L.init[i] is ZERO, 'every-frame', W, L.loc, 'rows are made from frame %s' % show(L.init[i], 2))
    c = S(L.cond)
    iv = mk('lv', L.id, i) if i else None
    full = i is not None and (c.op == 'lt' and c.args[0] is iv and sz(c.args[1]) or c.op == 'not' and c.args[0].op == 'eq' and iv in c.args[0].args and any(sz(x) for x in c.args[0].args))
    part = i is not None and c.op == 'lt' and c.args[0] is iv and any(sz(x) for x in subterms(c.args[1]))
    if not full and i is not None:
        N = mk('p', '#frames')
        c2 = strip_cast(subst(c, lambda x: N if sz(x) else None))
        if not contains(c2, lambda x: x.op not in ('lt', 'eq', 'not', 'and', 'or', 'lin', 'c', 'lv', 'p') or x.op == 'lv' and x is not iv or x.op == 'p' and x is not N):
            r = logic.equiv(c2, lt(iv, N), TRUE, (iv, N))
            r2 = logic.equiv(c2, lnot(eq(iv, N)), TRUE, (iv, N))
            full, part = bool(r or r2), r is False and r2 is False
    cx.ob(True if full and not L.exits else False if part and not full else None, 'every-frame', W, L.loc, 'rows are made while %s' % show(c, 6)[:200])
    comp = components(v)
    if comp is None or len(comp) != 2:
        raise LookupError('row %s' % show(v, 4)[:200])
    fr = lambda t: strip(t).op == 'call' and bcall(strip(t), '::operator[]') and strip(t).args[1] is ST and strip(t).args[2] is iv
    a = comp[0]
    cx.ob(True if bcall(a, 'to_string') and wide(a.args[1]) is iv else False if bcall(a, 'to_string') and (a.args[1].op in ('lin', 'c') or strip_all(a.args[1]) is iv) else None,
          'frame-index', W, L.loc, 'the index is %s' % show(a, 5)[:200])
    ps = merged(pieces(comp[1], None))
    def line(t):
        return bcall(t, '::source_line') and fr(t.args[1])
    shape = len(ps) == 3 and bcall(ps[0], '::source_file') and fr(ps[0].args[1]) and bcall(ps[2], 'to_string')
    ok = shape and ps[1] == ':' and line(wide(ps[2].args[1]))
    # A line number is an unsigned 64-bit number.
    lost = shape and line(strip_all(ps[2].args[1])) or shape and ps[1] != ':' and isinstance(ps[1], str) or \
        (len(ps) < 3 and all(isinstance(x, str) or bcall(x, '::source_file') or bcall(x, 'to_string') for x in ps))
    cx.ob(True if ok else False if lost else None, 'frame-location', W, L.loc, 'the location is %s' % show(comp[1], 5)[:200])

    # Widths: running maxima of the sizes of the columns.
    def col(t, L):
        """Column of the row just stored / of the given component."""
        for j in (0, 1):
            if t is comp[j]:
                return j
        if t.op == 'idx' and cval(t.args[1]) in (0, 1):
            b = t.args[0]
            if b.op == 'idx' and b.args[0].op == 'upd' or b.op == 'deref' or b is v or b.op == 'call' and bcall(b, '::back'):
                return cval(t.args[1])
        return None
    issize = lambda o: o.op == 'size' or bcall(o, '::size') or bcall(o, '::length')
    width = {}
    for k in L.init:
        st = S(L.step[k])
        if st.op == 'max' and mk('lv', L.id, k) in st.args and L.init[k].op == 'c':
            o = [x for x in st.args if x is not mk('lv', L.id, k)][0]
            if issize(o):
                width[k] = col(o.args[-1], L) if L.init[k] is ZERO else 'not the maximum'
        elif issize(st) and col(st.args[-1], L) is not None or st.op == 'min' and all(
                x is mk('lv', L.id, k) or x.op in ('c', 'max') or issize(x) and col(x.args[-1], L) is not None for x in st.args):
            width[k] = 'not the maximum'
    L2, tk, st = lines
    its = {k: L2.init[k] for k in L2.init if sub(L2.step[k], mk('lv', L2.id, k)) is ONE}
    fk = [k for k in its if bcall(S(its[k]), 'rbegin') and S(its[k]).args[-1] is ST or (bcall(S(its[k]), '::begin') or bcall(S(its[k]), '::cbegin')) and S(its[k]).args[-1] is ST]
    gk = [k for k in its if contains(its[k], lambda x: x is mk('lx', L.id, rk))]
    if len(fk) != 1 or len(gk) != 1:
        raise LookupError('iterators over the frames')
    fk, gk = fk[0], gk[0]
    cx.ob('rbegin' in show(its[fk], 1) or 'crbegin' in show(its[fk], 1), 'outermost-first', W, L2.loc, 'the frames are printed from %s' % show(S(its[fk]), 3)[:100])
    cx.ob(('rbegin' in show(its[fk], 2)) == ('rbegin' in show(its[gk], 2)), 'rows-match', W, L2.loc, 'rows start from %s, frames from %s' % (show(its[gk], 2)[:60], show(S(its[fk]), 2)[:60]))
    it, row = mk('lv', L2.id, fk), mk('deref', mk('lv', L2.id, gk))
    endc = [x for x in subterms(S(L2.cond)) if x.op == 'call' and (bcall(x, 'rend') or bcall(x, '::end') or bcall(x, '::cend')) and x.args[-1] is ST]
    okc = len(endc) == 1 and S(L2.cond) is lnot(eq(it, endc[0]))
    cx.ob(True if okc and not L2.exits else None, 'every-frame', W, L2.loc, 'lines are made while %s' % show(S(L2.cond), 5)[:200])

    def piece(x):
        if isinstance(x, str):
            return x
        if x.op == 'idx' and x.args[0] is row and cval(x.args[1]) in (0, 1):
            return (C0, C1)[cval(x.args[1])]
        if bcall(x, '::name') and x.args[-1] is mk('deref', it):
            return NM
        if bcall(x, '::substr') and contains(x.args[1], lambda y: bcall(y, '::name') and y.args[-1] is mk('deref', it)):
            return ('part', 'of the name')
        if x.op == 'call' and mk('deref', it) in x.args and str(x.args[0]).startswith('boost::'):
            return ('not the name', re.sub('<.*', '', str(x.args[0])))
        if x.op == 'ctor' and 'basic_string' in str(x.args[0]) and len(x.args) >= 3 and cval(x.args[2]) == 32:
            n = x.args[1]
            sizes = {size(mk('idx', row, C(j))): j for j in (0, 1)}
            for s, j in sizes.items():
                w = add(n, s)
                if w.op == 'lx' and w.args[0] == L.id and w.args[1] in width:
                    return ('pad', width[w.args[1]], j)
                if issize(w) and j == 0 and w.args[-1].op in ('call', 'str') and 'to_string' in str(w.args[-1].args[0]):
                    # The number of digits of an index.
                    last = S(w.args[-1].args[-1])
                    cnt = [y for y in subterms(last) if issize(y) and y.args[-1] is ST]
                    if cnt and sub(last, cnt[0]) is C(-1):
                        return ('pad', 0, 0)
                    if cnt and sub(last, cnt[0]).op == 'c':
                        return ('pad', 'that of the index %s' % show(last, 3)[:60], 0)
            if n.op in ('lin', 'c') and all(y in sizes or y.op == 'lx' and y.args[0] == L.id and y.args[1] in width for y, _ in (n.args[1] if n.op == 'lin' else ())):
                return ('pad', 'none of the columns (%s characters)' % show(n, 3)[:80], next((sizes[y] for y, _ in (n.args[1] if n.op == 'lin' else ()) if y in sizes), 0))
        return x
    frameonly = lambda g: g is not TRUE and all(contains(x, lambda y: y is mk('deref', it)) and not contains(x, lambda y: y.op == 'lx' or bcall(y, 'rend') or bcall(y, '::end'))
                                                and not contains(x, lambda y: y.op == 'call' and not re.search(r'::(name|source_file|source_line|empty|size|address)$', re.sub('<.*?>', '', str(y.args[0]))))
                                                for x in conds(g))
    for val, g in cases(st):
        got = [piece(x) for x in merged(pieces(val, mk('lv', L2.id, tk)))]
        last = lor(*[eq(it, add(endc[0], C(-1)))])
        want = ['# ', ('pad', 0, 0), C0, ' | ', C1, ('pad', 1, 1), ' | ', NM]
        nl = logic.implies(g, lnot(last))
        ll = logic.implies(g, last)
        full = want + (['\n'] if nl else [])
        known = all(isinstance(x, (str, tuple)) or x in (C0, C1, NM) for x in got)
        if not nl and not ll and all(x.op == 'eq' and it in x.args and any(bcall(y, w) and y.args[-1] is ST for y in subterms(x) for w in ('rbegin', 'rend'))
                                     for x in conds(g)) and g is not TRUE:
            cx.ob(False, 'line', W, L2.loc, 'the separator depends on %s' % show(g, 5)[:200])
            continue
        if not nl and not ll and frameonly(g):
            cx.ob(False, 'line', W, L2.loc, 'what is printed depends on what is known of the frame: %s' % show(g, 5)[:200])
            continue
        if not nl and not ll:
            # No distinction made between the last line and the others.
            cx.ob(False if g is TRUE and known else None, 'line', W, L2.loc, 'the separator does not depend on being on the last line')
            continue
        cx.ob(True if got == full else False if known and logic.sat(g) else None, 'line', W, L2.loc,
              'a line is %s' % ', '.join(x if isinstance(x, str) else str(x) for x in got)[:300])
        for x in got:
            if isinstance(x, tuple) and x[0] == 'pad':
                cx.ob(x[1] == x[2], 'padding', W, L2.loc, 'column %d is padded to the width of column %s: the length of the padding can underflow' % (x[2], x[1]))
    r = S(I.ret)
    outs = [(x, g) for x, g in cases(r)]
    txt = mk('lx', L2.id, tk)
    en = [x for x in subterms(r) if bcall(x, '::load')]
    on = en[0] if len(en) == 1 else None
    bad = unk = ''
    for x, g in outs:
        if on is None:
            unk = 'flag'
            break
        if x is txt:
            if not logic.implies(g, on):
                bad = bad or ('traces are generated when disabled' if logic.sat(land(g, lnot(on))) else '')
        elif x.op == 'str':
            if x.args[0] == '':
                zs = {y for y in subterms(g) if sz(y)}
                none = lor(*[eq(ZERO, y) for y in zs] + [x for x in subterms(g) if bcall(x, '::empty') and x.args[-1] is ST])
                if logic.implies(g, none, TRUE, zs) is not True:
                    if all(x is on or x.op in ('lt', 'eq') and all(y in zs or cval(y) is not None or y is n for y in x.args) for x in conds(g)):
                        bad = 'there is no text if %s' % show(g, 5)[:200]
                    else:
                        unk = 'empty text if %s' % show(g, 4)
        elif bcall(x, '::substr') and x.args[1] is txt:
            bad = bad or 'a part of the text is returned'
        else:
            unk = 'result %s' % show(x, 3)[:100]
    cx.ob(False if bad else None if unk else True, 'result', W, loc, bad or unk)


def strip_all(t):
    return subst(t, lambda x: strip_all(x.args[1]) if x.op == 'cast' else None)


def wide(t):
    """Without conversions to types of at least 32 bits: no index or line number needs more."""
    return subst(t, lambda x: wide(x.args[1]) if x.op == 'cast' and not narrow(x.args[0], 32) else None)


def strip(t):
    while t.op in ('deref',) and t.args[0].op in ('ref', 'addr'):
        t = t.args[0].args[0]
    return t


def components(v):
    v = strip(v)
    if v.op == 'agg' and len(v.args) == 3 and isinstance(v.args[2], T) and v.args[2].op == 'agg':
        return v.args[2].args[2:]
    if v.op == 'agg':
        return v.args[2:]
    if v.op == 'ctor' and 'pair' in str(v.args[0]):
        return v.args[1:]
    return None


def conds(g):
    """The atomic conditions of a condition."""
    if g.op in ('and', 'or', 'not'):
        return [y for x in g.args for y in conds(x)]
    return [] if g.op == 'b' else [g]
