"""Type-level witnesses, conversions, checked arithmetic and small value-level helpers."""
from .. import terms
from ..rlib import *
from ..fold import fold, NoValue, canon
from . import rule
from .r_util import gen_loc, ret_loc

p = lambda n: mk('p', n)

CLASS = re.compile(r'^(integral|arithmetic|signed|floating|unsigned|limits)_')


def witnesses(cx, P, pred, rule_, why):
    for g in sorted((g for g in P.gvars.values() if g['q'].startswith('hxw::')), key=lambda g: g['q']):
        n = g['q'][5:]
        if pred(n):
            cx.ob(str(g['val']) == '1', rule_, n.replace('_concept', ' (concept)'), P.loc(g), why)


@rule('U09', ['traits.cpp'],
      'The classification of each of the 20 fundamental arithmetic types, plain, const, volatile, const volatile, as references and as '
      'pointers, and of other types; the unsigned counterpart of each integral type under all qualifiers; and the limits of each integral '
      'type are evaluated by the front end and compared with the definitions of the language.', [], 1100)
def u09(cx):
    witnesses(cx, cx.progs['traits.cpp'], CLASS.match, 'classification', 'the classification differs from the definition of the type')


@rule('U15', ['traits.cpp'],
      'Archetypes that satisfy every clause of a requirement but one (one archetype per clause) are put to the type queries and concepts; '
      'the answers, evaluated by the front end, are compared with the required ones.', [], 700)
def u15(cx):
    witnesses(cx, cx.progs['traits.cpp'], lambda n: not CLASS.match(n), 'requirement', 'the type query gives the wrong answer')


# ---- integral conversions --------------------------------------------------------------

def limits_of(t):
    w, s = INTS[t]
    if w == 1:
        return 0, 1
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


SHAPE = {'and', 'or', 'not', 'eq', 'lt', 'lin', 'c', 'b', 'cast', 'ite', 'p', 'min', 'max'}


def regions(terms, t, extra=()):
    """One point per region of the value space of type t on which the terms are constant."""
    lo, hi = limits_of(t)
    cs = {0, 1, -1, lo, hi} | set(extra)
    ws = set()
    ok = True
    for tm in terms:
        for x in subterms(tm):
            if x.op == 'c':
                cs.add(x.args[0])
            elif x.op == 'lin':
                cs.add(x.args[0])
                cs.add(-x.args[0])
                if any(abs(v) != 1 for k, v in x.args[1]) or len(x.args[1]) > 1:
                    ok = False
            elif x.op == 'cast' and x.args[0] in INTS:
                ws.add(INTS[x.args[0]][0])
                cs |= set(limits_of(x.args[0]))
            elif x.op not in SHAPE:
                ok = False
    base = set(cs) | {-c for c in cs}
    for w in ws:
        for k in (-2, -1, 1, 2):
            base |= {c + k * (1 << w) for c in list(cs)}
    pts = sorted({c + d for c in base for d in (-1, 0, 1) if lo <= c + d <= hi})
    return ok, pts


def conversion(cx, P, f, to, frm):
    where = 'conversion of %s to %s' % (frm, to)
    with cx.item(where):
        I = cx.analyse(P, f, exact=True)
        loc = ret_loc(I)
        n, out = p('n'), p('out')
        if I.trace and any(e.kind == 'throw' for e in I.trace):
            cx.ob(False, 'no-throw', where, loc, 'a conversion between integral types must not throw')
        final = I.final.store[('a', 0)]
        lo, hi = limits_of(to)
        ok, pts = regions([I.ret, final], frm, (lo, hi))
        S = 12345
        for v in pts:
            env = {n: v, out: S}
            try:
                c, o = fold(I.ret, env, 256), fold(final, env, 256)
            except NoValue:
                ok = False
                continue
            want = lo <= v <= hi
            if bool(c) != want:
                cx.ob(False, 'range', where, loc, 'the value %d is %s' % (v, 'accepted' if c else 'refused'))
                return
            if want and o != v:
                cx.ob(False, 'value', where, loc, 'the value %d becomes %s' % (v, o))
                return
            if not want and o != S:
                cx.ob(False, 'untouched', where, loc, 'the target is changed although the value %d is refused' % v)
                return
        cx.ob(True if ok else None, 'range', where, loc, 'condition not recognised')


def is_den_one(x):
    return x.op == 'call' and x.args[0].endswith('integer::is_one') and contains(x, lambda y: y.op == 'call' and y.args[0].endswith('rational::get_den'))


def strip_ref(t):
    def go(x):
        if x.op == 'deref' and x.args[0].op == 'ref':
            return strip_ref(x.args[0].args[0])
        if x.op in ('conv', 'cast'):
            return strip_ref(x.args[1])
        return None
    return subst(t, go)


@rule('U10', ['conv.cpp'],
      'For each of the 196 ordered pairs of integral types, the summary of the conversion (condition of success and final value of the '
      'target, both over the symbolic source value) is decided on every region of the source value space delimited by the constants and '
      'casts it contains; the multiprecision conversions are compared with the required call pattern.',
      ['The multiprecision library converts exactly or reports failure without changing the target.'], 250, r'obake::safe_convert')
def u10(cx):
    P = cx.progs['conv.cpp']
    fs = cx.entry(P, 'hx::conv', 255)
    n = p('n')
    for f in fs:
        m = re.match(r'^<(.*?), ((?:mppp::\w+<1>|[\w ]+))>$', f['ta'])
        to, frm = m.group(1), m.group(2)
        if to in INTS and frm in INTS:
            conversion(cx, P, f, to, frm)
            continue
        where = 'conversion of %s to %s' % (frm, to)
        with cx.item(where):
            I = cx.analyse(P, f)
            loc = ret_loc(I)
            r = I.ret
            final = strip_ref(I.final.store[('a', 0)])
            kind = lambda t: 'Z' if 'integer' in t else 'Q' if 'rational' in t else 'I'
            k = kind(frm) + kind(to)
            if k in ('IZ', 'IQ', 'ZQ', 'ZZ'):
                cx.cond('success', where, loc, r, TRUE, 'the condition for success')
                cx.ob(final is n, 'value', where, loc, 'the target does not receive the value')
            elif k == 'ZI':
                cx.ob(r.op == 'call' and r.args[0].split('<')[0] == 'mppp::get' and strip_ref(r).args[1:3] == (p('out'), n), 'delegate', where, loc,
                      'the checked extraction of the value into the target must decide')
            elif k == 'QI':
                d = [x for x in subterms(r) if is_den_one(x)]
                g = [x for x in subterms(r) if x.op == 'call' and x.args[0].split('<')[0] == 'mppp::get']
                ok = len(d) == 1 and len(g) == 1
                if not ok:
                    cx.ob(False, 'delegate', where, loc, 'a rational converts only if its denominator is one, by checked extraction of its numerator')
                else:
                    cx.cond('success', where, loc, r, land(d[0], g[0]), 'the condition for success')
                    a = strip_ref(g[0]).args
                    cx.ob(a[1] is p('out') and a[2].op == 'call' and a[2].args[0].endswith('get_num') and a[2].args[1] is n, 'delegate', where, loc,
                          'the numerator must be extracted into the target')
            elif k == 'QZ':
                d = [x for x in subterms(r) if is_den_one(x)]
                if len(d) != 1:
                    cx.ob(False, 'delegate', where, loc, 'a rational converts to an integer only if its denominator is one')
                    continue
                cx.cond('success', where, loc, r, d[0], 'the condition for success')
                fin = I.final.store[('a', 0)]
                y, z = strip_ref(assume_in(fin, {d[0]: True})), strip_ref(assume_in(fin, {d[0]: False}))
                cx.ob(y.op == 'call' and y.args[0].endswith('get_num') and y.args[1] is n, 'value', where, loc, 'the target does not receive the numerator')
                cx.ob(z is p('out'), 'untouched', where, loc, 'the target is changed although the value is refused')


@rule('U11', ['conv.cpp'],
      'For a conversion with an opaque implementation, and for eight concrete type pairs, the exceptional and normal exits of the checked '
      'cast are compared with the result of the conversion: thrown type, condition, and returned value.', [], 18, r'obake::safe_cast')
def u11(cx):
    P = cx.progs['conv.cpp']
    for q, v in (('hx::cast_op', 's'), ('hx::cast_op_rv', 's')):
        f, = cx.entry(P, q)
        where = 'checked cast of ' + ('an lvalue' if q == 'hx::cast_op' else 'an rvalue')
        with cx.item(where):
            I = cx.analyse(P, f)
            cs = [e for e in I.trace if e.kind == 'call' and e.q == 'hx::safe_convert']
            cx.ob(len(cs) == 1 and not cs[0].guards and cs[0].args[1] is p(v), 'attempt', where, gen_loc(I), 'the conversion must be attempted exactly once, on the argument')
            if len(cs) != 1:
                continue
            t = [e for e in I.trace if e.kind == 'throw']
            loc = t[0].loc if t else gen_loc(I)
            ok = cs[0].res if getattr(cs[0], 'res', None) is not None else None
            c = [x for e in t for g in e.guards for x in subterms(g) if x.op == 'call' and x.args[0].startswith('hx::safe_convert')]
            if not c:
                cx.ob(False, 'throw', where, loc, 'no error is raised when the conversion fails')
                continue
            cx.cond('throw', where, loc, throw_cond(I), lnot(c[0]), 'the condition for the error')
            cx.ob(all(e.q == 'obake::safe_cast_failure' for e in t), 'type', where, loc, 'the error must be the cast failure')
            r = I.ret
            cx.ob(r.op == 'upd' and r.args[0] == 'hx::safe_convert' and r.args[1] == 0, 'value', where, ret_loc(I), 'the converted value is not returned')
            rv = 's' if q == 'hx::cast_op' else 'r'
            lref = P.funcs[cs[0].node['f']]['params'][1]['t'] if getattr(cs[0], 'node', None) is not None and cs[0].node.get('f') in P.funcs else None
            if lref is not None:
                tt = P.types[lref]
                cx.ob(('&&' in tt) == (q == 'hx::cast_op_rv'), 'category', where, gen_loc(I), 'the value category of the argument is not preserved')
    for f in cx.entry(P, 'hx::cast', 8):
        m = re.match(r'^<(.*?), ((?:mppp::\w+<1>|[\w ]+))>$', f['ta'])
        to, frm = m.group(1), m.group(2)
        if to not in INTS or frm not in INTS:
            continue
        where = 'checked cast of %s to %s' % (frm, to)
        with cx.item(where):
            I = cx.analyse(P, f, exact=True)
            t = throw_cond(I)
            loc = ret_loc(I)
            lo, hi = limits_of(to)
            ok, pts = regions([t, I.ret], frm, (lo, hi))
            bad = None
            for v in pts:
                th, r = fold(t, {p('n'): v}, 256), fold(I.ret, {p('n'): v}, 256)
                if bool(th) != (not lo <= v <= hi):
                    bad = 'the value %d %s' % (v, 'raises an error' if th else 'raises no error')
                elif not th and r != v:
                    bad = 'the value %d becomes %d' % (v, r)
            cx.ob(False if bad else True if ok else None, 'range', where, loc, bad or 'not recognised')
            cx.ob(all(e.q == 'obake::safe_cast_failure' for e in I.trace if e.kind == 'throw'), 'type', where, loc, 'the error must be the cast failure')


@rule('U12', ['conv.cpp', 'conv2.cpp'],
      'For each of the 14 integral types, the exceptional exit and the result of the checked addition and subtraction are compared with '
      'exact arithmetic over the whole range of both operands, both as compiled with the overflow built-ins and without them.',
      ['Overflow built-ins of the compiler compute as documented.'], 112)
def u12(cx):
    for u, how in (('conv.cpp', ''), ('conv2.cpp', ' without compiler built-ins')):
        checked(cx, cx.progs[u], how)


def checked(cx, P, how):
    a, b = p('a'), p('b')
    for q, name, want in (('hx::isum', 'addition', add(a, b)), ('hx::idif', 'subtraction', sub(a, b))):
        for f in cx.entry(P, q, 14):
            t = f['ta'][1:-1]
            where = 'checked %s of %s%s' % (name, t, how)
            with cx.item(where):
                I = cx.analyse(P, f, exact=True)
                loc = ret_loc(I)
                th = throw_cond(I)
                lo, hi = limits_of(t)
                ovf = lor(lt(want, C(lo)), lt(C(hi), want))
                w, s = INTS[t]
                if t == 'bool':
                    bad = None
                    for x in (0, 1):
                        for y in (0, 1):
                            env = {a: x, b: y}
                            o, v = fold(th, env), fold(I.ret, env)
                            e = x + y if name == 'addition' else x - y
                            if bool(o) != (e not in (0, 1)) or (not o and int(bool(v)) != e):
                                bad = '%d and %d' % (x, y)
                    cx.ob(bad is None, 'overflow', where, loc, 'wrong for ' + str(bad))
                else:
                    dom = assume_range((a, b), lo, hi)
                    th = uncast(th, dom)
                    r = logic.equiv(th, ovf, dom) or logic.linear_equiv(th, ovf, dom)
                    if r is True:
                        cx.ob(True, 'overflow', where, loc)
                    else:
                        d = find_diff(th, ovf, (a, b), lo, hi)
                        cx.ob(False if d else None, 'overflow', where, loc, 'an error is raised when it must not, or the reverse: ' + str(d))
                    if canon(I.ret, w) is canon(want, w):
                        cx.ob(True, 'value', where, loc)
                    else:
                        d = find_diff(I.ret, want, (a, b), lo, hi, (1 << w) - 1, ovf)
                        cx.ob(False if d else None, 'value', where, loc, str(d))
                cx.ob(all(e.q == 'std::overflow_error' for e in I.trace if e.kind == 'throw'), 'type', where, loc, 'the error must be an overflow error')


def uncast(t, dom):
    """Conversions that never change the value are dropped."""
    def f(z):
        if z.op == 'cast' and z.args[0] in INTS and z.args[0] != 'bool':
            lo, hi = limits_of(z.args[0])
            v = subst(z.args[1], f)
            if logic.linear_implies(dom, land(lnot(lt(v, C(lo))), lnot(lt(C(hi), v)))):
                return v
        return None
    return subst(t, f)


def assume_range(vs, lo, hi):
    return land(*[x for v in vs for x in (lnot(lt(v, C(lo))), lnot(lt(C(hi), v)))])


def find_diff(x, y, vs, lo, hi, mask=None, skip=None):
    cs = {0, 1, 2, 3, lo, hi, hi // 2, lo // 2, hi - 1, lo + 1, hi // 2 + 1, hi // 3, lo // 3, -1, -2}
    for t in (x, y):
        for z in subterms(t):
            if z.op == 'c':
                cs.add(z.args[0])
            elif z.op == 'lin':
                cs.add(z.args[0])
    pts = sorted({c + d for c in cs for d in (-1, 0, 1) if lo <= c + d <= hi})
    for i in pts:
        for j in pts:
            env = {vs[0]: i, vs[1]: j}
            try:
                if skip is not None and fold(skip, env, 256):
                    continue
                g, h = fold(x, env, 256), fold(y, env, 256)
            except NoValue:
                continue
            if (g - h) & mask if mask is not None else bool(g) != bool(h):
                return 'for %d and %d' % (i, j)
    return None


# ---- small helpers -----------------------------------------------------------------------

@rule('U16', ['conv.cpp'],
      'The check that a container size fits the difference type of an iterator is compared, for seven pairs of types, with the exact range; '
      'ranges made of two iterators, begin/end on const and non-const ranges and arrays made of values are traced to the values they were '
      'made of.', [], 16, r'obake::(begin|end)\b')
def u16(cx):
    P = cx.progs['conv.cpp']
    n = p('n')
    for f in cx.entry(P, 'hx::diffchk', 7):
        m = re.match(r'^<(.*), (.*)>$', f['ta'])
        d, s = m.groups()
        where = 'size of type %s against difference type %s' % (s, d)
        with cx.item(where):
            I = cx.analyse(P, f, exact=True)
            hi = limits_of(d)[1]
            t = throw_cond(I)
            ok, pts = regions([t], s, (hi,))
            bad = [v for v in pts if bool(fold(t, {n: v}, 256)) != (v > hi)]
            cx.ob(False if bad else True if ok else None, 'difference', where, ret_loc(I), 'wrong for the size %s' % (bad[:1] or ''))
            cx.ob(all(e.q == 'std::overflow_error' for e in I.trace if e.kind == 'throw'), 'type', where, ret_loc(I), 'the error must be an overflow error')
    for q, hi in (('hx::cdiff', (1 << 15) - 1), ('hx::ccdiff', (1 << 31) - 1)):
        f, = cx.entry(P, q)
        where = 'size of a %scontainer' % ('const ' if 'cc' in q else '')
        with cx.item(where):
            I = cx.analyse(P, f)
            t = throw_cond(I)
            s = [x for x in subterms(t) if x.op == 'call' and x.args[0].endswith('::size')]
            if len(set(s)) != 1:
                cx.ob(None, 'difference', where, ret_loc(I), 'size not found')
                continue
            cx.cond('difference', where, ret_loc(I), t, lt(C(hi), s[0]))
    f, = cx.entry(P, 'hx::rng')
    with cx.item('made range'):
        I = cx.analyse(P, f, raw_range=True)
        st = I.final.store
        cx.ob(st[('a', 2)] is p('b'), 'begin', 'begin of a made range', ret_loc(I), 'it is not the first iterator given')
        cx.ob(st[('a', 3)] is p('e'), 'end', 'end of a made range', ret_loc(I), 'it is not the second iterator given')
    for q in ('hx::bx', 'hx::bxc'):
        f, = cx.entry(P, q)
        where = 'range with member functions' + (', const' if q == 'hx::bxc' else '')
        with cx.item(where):
            I = cx.analyse(P, f, raw_range=True)
            st = I.final.store
            nm = lambda t: (t.op if t.op in ('begin', 'end') else t.args[0].split('::')[-1] if t.op == 'call' else '?', t.args[-1])
            cx.ob(nm(st[('a', 1)]) == ('begin', p('b')), 'begin', where, ret_loc(I), 'it is not the beginning of the range')
            cx.ob(nm(st[('a', 2)]) == ('end', p('b')), 'end', where, ret_loc(I), 'it is not the end of the range')
    f, = cx.entry(P, 'hx::marr')
    with cx.item('made array'):
        I = cx.analyse(P, f)
        got = [x for x in flat_agg(I.ret)]
        cx.ob(got == [p('a'), p('b'), p('c')], 'elements', 'made array', ret_loc(I), 'the elements are not the values given, in order')


def flat_agg(t):
    if t.op == 'agg':
        return [y for x in t.args[2:] for y in flat_agg(x)]
    return [t]


# ---- coefficients ------------------------------------------------------------------------

def outputs(I, os):
    """What is written to the stream: (event, value)."""
    out = []
    for e in I.trace:
        if e.kind == 'call' and e.q and e.q.split('::')[-1] in ('operator<<', 'put', 'write') and len(e.args) >= 2:
            if e.args[0] is os or contains(e.args[0], lambda y: y is os):
                out.append((e, e.args[1]))
    return out


def zero_everywhere(t, conds=()):
    """Whether t is zero in every case; None if unknown."""
    while t.op in ('cast', 'conv', 'fneg'):
        t = t.args[-1]
    if t.op == 'ite':
        r = []
        for c, v in ((t.args[0], t.args[1]), (lnot(t.args[0]), t.args[2])):
            if logic.sat(land(*conds, c)):
                r.append(zero_everywhere(v, conds + (c,)))
        return False if False in r else None if None in r else True
    if t.op in ('c', 'b', 'flt'):
        return float(t.args[0]) == 0
    if t.op == 'ctor':
        return len(t.args) == 1 or all(zero_everywhere(y) for y in t.args[1:] if isinstance(y, T))
    return False if contains(t, lambda y: y is p('x') or y.op == 'frozen') else None


def opposite(v, a, bits, conds=()):
    """Whether v is -a in every case; None if unknown."""
    if v.op == 'ite':
        r = []
        for c, y in ((v.args[0], v.args[1]), (lnot(v.args[0]), v.args[2])):
            if logic.sat(land(*conds, c)):
                r.append(opposite(y, a, bits, conds + (c,)))
        return False if False in r else None if None in r else True
    num = lambda y: num(y.args[1]) if y.op == 'cast' else cval(y) if y.op in ('c', 'b', 'flt') else None
    if v is neg(a) or v.op == 'fneg' and v.args[0] is a:
        return True
    if v.op == 'lin' and bits:
        c, m = terms._lin(v)
        if c % (1 << bits) == 0 and [y for y, k in dict(m).items() if k % (1 << bits)] == [a] and (dict(m)[a] + 1) % (1 << bits) == 0:
            return True
    if v.op in ('fmul', 'fdiv') and v.args[0] is a and num(v.args[1]) == -1 or v.op == 'fmul' and v.args[1] is a and num(v.args[0]) == -1:
        return True
    if v.op == 'fsub' and v.args[1] is a and num(v.args[0]) == 0:
        # Up to the sign of a zero.
        return None
    if any(c.op == 'eq' and a in c.args and any(num(y) == 0 for y in c.args) for c in conds):
        return None
    return None if contains(v, lambda y: y.op in ('call', 'opq', 'lv', 'lx', 'undef', 'static', 'glob', 'v', 'feq')) else False


def fold_differs(v, env, want):
    """False if v is not want under env, None otherwise."""
    try:
        return None if fold(v, env, 64) == want else False
    except NoValue:
        return None


@rule('U17', ['conv.cpp'],
      'The call patterns of the coefficient operations on multiprecision and fundamental numbers (zero derivative, in-place negation, '
      'multiply-add, memory size, TeX form of a rational in each sign and denominator case, TeX form of 128-bit integers) are read from the '
      'instantiated implementations.', ['The multiprecision library operations do what they are named after.'], 25, r'obake::(diff|negate|fma3|byte_size|tex_stream_insert)\b')
def u17(cx):
    P = cx.progs['conv.cpp']
    for f in cx.entry(P, 'hx::dif', 18):
        t = f['ta'][1:-1]
        where = 'derivative of a constant of type ' + t
        with cx.item(where):
            I = cx.analyse(P, f)
            cx.ob(bare(P.types[f['ret']]) == t, 'zero', 'type of the ' + where, ret_loc(I), 'it is of type ' + P.types[f['ret']])
            cx.ob(zero_everywhere(I.ret), 'zero', where, ret_loc(I), 'it must be zero')
    for q, x in (('hx::neg_z', 'integer'), ('hx::neg_q', 'rational'), ('hx::neg_zr', 'integer'), ('hx::neg_qr', 'rational')):
        f, = cx.entry(P, q)
        where = 'negation of %s%s' % (x, ' rvalue' if q.endswith('r') else '')
        with cx.item(where):
            I = cx.analyse(P, f)
            v = I.final.store[('a', 0)]
            cs = [e for e in I.trace if e.kind == 'call' and e.q.startswith('mppp::')]
            ok = v.op == 'upd' and v.args[0].endswith('::neg') and v.args[2] is p('a') and len(cs) == 1 and not cs[0].guards
            cx.ob(ok if ok or all(c.q.endswith('::neg') for c in cs) else None, 'negate', where, ret_loc(I), 'the value must be negated in place exactly once')
    for f in cx.entry(P, 'hx::neg', 16):
        t = f['ta'][1:-1]
        where = 'negation of ' + t
        with cx.item(where):
            I = cx.analyse(P, f)
            v = I.final.store.get(('a', 0), p('a'))
            w = {'short': 16, 'char': 8}.get(t.split()[-1], 1000)
            if w < 32:
                while v.op == 'cast' and 'float' not in v.args[0] and 'double' not in v.args[0] and (INTS.get(v.args[0]) or (0,))[0] >= w:
                    v = v.args[1]
            cx.ob(opposite(v, p('a'), (INTS.get(t) or (0,))[0]), 'negate', where, ret_loc(I),
                  'the opposite of the value is required: %s' % show(v, 4))
    for f in cx.entry(P, 'hx::fma', 3):
        where = 'fused multiply-add of ' + f['ta'][1:-1]
        with cx.item(where):
            I = cx.analyse(P, f)
            v = I.final.store.get(('a', 0), p('a'))
            ok = None
            if v.op == 'call' and re.search(r'(^|::)(__builtin_)?fma[fl]?$', v.args[0]):
                suf = v.args[0][-1] if v.args[0][-1] in 'fl' else ''
                exact = v.args[0].startswith('std::') or suf == {'float': 'f', 'double': '', 'long double': 'l'}[f['ta'][1:-1]]
                args = [y for y in v.args[1:] if isinstance(y, T)]
                ok = exact and len(args) == 3 and args[2] is p('a') and set(args[:2]) == {p('b'), p('c')}
            elif v.op == 'cast':
                ok = False
            elif not contains(v, lambda y: y.op in ('call', 'opq', 'lv', 'lx', 'undef', 'static', 'glob')):
                a, b, c = p('a'), p('b'), p('c')
                ok = None if v is mk('fadd', a, mk('fmul', b, c)) else fold_differs(v, {a: 5, b: 3, c: 7}, 26)
            cx.ob(ok, 'multiply-add', where, ret_loc(I), 'the product of the two factors must be added to the target: %s' % show(v, 4))
    for f in cx.entry(P, 'hx::bs', 17):
        t = f['ta'][1:-1]
        where = 'memory size of ' + t
        with cx.item(where):
            I = cx.analyse(P, f)
            want = 16 if '128' in t or t == 'long double' else 8 if t == 'double' else 4 if t == 'float' else INTS[t][0] // 8 if t != 'bool' else 1
            cx.ob(cval(I.ret) == want if cval(I.ret) is not None else None, 'size', where, ret_loc(I), 'it is %s instead of %d' % (show(I.ret, 3), want))
    f, = cx.entry(P, 'hx::fma_z')
    with cx.item('multiply-add'):
        I = cx.analyse(P, f)
        v = I.final.store[('a', 0)]
        ok = v.op == 'upd' and v.args[0] == 'mppp::addmul' and v.args[2:5] in ((p('a'), p('b'), p('c')), (p('a'), p('c'), p('b')))
        cs = [e for e in I.trace if e.kind == 'call']
        cx.ob(ok if ok or all(c.q == 'mppp::addmul' or c.q == 'mppp::submul' for c in cs) else None, 'multiply-add', 'multiply-add of integers', ret_loc(I), 'the product of the two factors must be added to the target')
    with cx.item('memory size'):
        f, = cx.entry(P, 'hx::bs_z')
        I = cx.analyse(P, f)
        sz = [x for x in subterms(I.ret) if x.op == 'call' and x.args[0].endswith('integer::size')]
        stt = [x for x in subterms(I.ret) if x.op == 'call' and x.args[0].endswith('integer::is_static')]
        if len(sz) == 1 and len(stt) == 1:
            bad = None
            for s in (0, 1):
                for k in (0, 1, 2, 7, 31, 32, 33, 255, 256, 4097, 1 << 16, 1 << 28, 1 << 29, 1 << 32, 1 << 40):
                    v = fold(I.ret, {stt[0]: s, sz[0]: k}, 64)
                    if v != 16 + (0 if s else 8 * k):
                        bad = '%s storage with %d limbs gives %d' % ('static' if s else 'dynamic', k, v)
            cx.ob(bad is None, 'size', 'memory size of an integer', ret_loc(I), str(bad))
        else:
            cx.ob(None, 'size', 'memory size of an integer', ret_loc(I), 'not recognised')
        base = I.ret
        f, = cx.entry(P, 'hx::bs_q')
        I = cx.analyse(P, f)
        part = lambda nm: [subst(base, lambda x, nm=nm: mk('deref', mk('ref', y)) if x is p('n') else None) for y in [mk('call', 'mppp::rational::' + nm, p('n'))]][0]
        calls = {x.args[0].split('::')[-1]: x for x in subterms(I.ret) if x.op == 'call' and x.args[0].startswith('mppp::rational::get_')}
        cx.ob('get_num' in calls and 'get_den' in calls, 'size', 'memory size of a rational covers both parts', ret_loc(I), 'numerator and denominator must both be measured')
        if 'get_num' in calls and 'get_den' in calls:
            want = ZERO
            for nm in ('get_num', 'get_den'):
                y = mk('deref', mk('ref', calls[nm]))
                want = add(want, subst(base, lambda x, y=y: y if x is p('n') else None))
            cx.same('size', 'memory size of a rational', ret_loc(I), I.ret, want, 64)
    for q, t in (('hx::tex_i128', '__int128'), ('hx::tex_u128', 'unsigned __int128')):
        f, = cx.entry(P, q)
        where = 'TeX form of ' + t
        with cx.item(where):
            I = cx.analyse(P, f, stops={'obake::detail::to_string'})
            o = outputs(I, p('os'))
            ok = len(o) == 1 and not o[0][0].guards and not o[0][0].loops and contains(o[0][1], lambda y: y.op == 'call' and y.args[0].startswith('obake::detail::to_string') and y.args[1] is p('n'))
            cx.ob(ok if ok or not o or any(not contains(v, lambda y: y.op == 'call' and 'to_string' in y.args[0]) for e, v in o) and len(o) == 1 else None,
                  'tex', where, ret_loc(I), 'the decimal form of the number must be inserted exactly once')
    f, = cx.entry(P, 'hx::tex_q')
    with cx.item('TeX form of a rational'):
        I = cx.analyse(P, f)
        o = outputs(I, p('os'))
        loc = ret_loc(I)
        conds = [x for e, v in o for g in e.guards for x in subterms(g)]
        den1 = [x for x in conds if is_den_one(x)]
        sg = [x for x in conds if x.op == 'call' and x.args[0].endswith('::sgn')]
        if not den1 or not sg:
            cx.ob(None, 'tex', 'TeX form of a rational', loc, 'conditions not recognised')
            return
        num = lambda v: v.op == 'call' and v.args[0].endswith('get_num')
        den = lambda v: v.op == 'call' and v.args[0].endswith('get_den')
        negnum = lambda v: (v.op == 'call' and v.args[0].endswith('operator-') or v.op in ('neg', 'fneg')) and contains(v, num)

        def classify(v):
            v = strip_ref(v)
            if v.op == 'str':
                return str(v.args[0])
            if v.op == 'c':
                return chr(v.args[0])
            if num(v):
                return '<num>'
            if den(v):
                return '<den>'
            if contains(v, num) and (v.op == 'lin' or v.op == 'call' and 'operator-' in v.args[0]):
                return '<-num>'
            return '<?>'
        for d1, s, want, nm in ((1, 1, '<num>', 'integer'), (1, -1, '<num>', 'negative integer'), (0, 1, '\\frac{<num>}{<den>}', 'positive fraction'),
                                (0, -1, '-\\frac{<-num>}{<den>}', 'negative fraction')):
            env = {x: d1 for x in den1}
            env.update({x: s for x in sg})
            txt = ''
            for e, v in o:
                if fold(land(*e.guards), env, 64):
                    txt += classify(v)
            cx.ob(True if txt == want else (None if '<?>' in txt else False), 'tex', 'TeX form of a rational, ' + nm, loc, 'it is %s where %s is required' % (txt, want))
