"""Series: negation, addition and subtraction, judged on the terms of the result in each relation between the symbol sets."""
from ..rlib import *
from ..series import *
from ..series import N
from .. import logic
from . import rule
from .r_series import Op, p, nice, targs
from .r_series2 import um, definite
from .r_series3 import Judge, plain, field, final, known, unchanged, mkneg

# The relations between the symbol sets of two operands: the same set, or the first / the second / none of them
# already has all the symbols.
WORLDS = {'same symbols': (True, None, None), 'only the second lacks symbols': (False, True, False),
          'only the first lacks symbols': (False, False, True), 'both lack symbols': (False, False, False)}


def merge_call(x):
    """(a, b) of a call merging two symbol sets."""
    while x.op in ('ref', 'deref'):
        x = x.args[-1]
    return (canon(x.args[1]), canon(x.args[2])) if is_call(x, 'merge_symbol_sets') and len(x.args) == 3 else None


def canon(t):
    """Symbol sets and the results of merging them in one form."""
    def f(x):
        if x.op == 'idx' and x.args[1].op == 'c':
            m = merge_call(x.args[0])
            if m:
                a, b = m
                i = x.args[1].args[0]
                if show(b, 6) < show(a, 6):
                    a, b, i = b, a, {0: 0, 1: 2, 2: 1}[i]
                return mk('idx', mk('merged', a, b), C(i))
        if x.op == 'call' and x.args[0].endswith('::key_merge_symbols'):
            return mk('call', 'key_merge_symbols', *[canon(y) for y in x.args[1:]])
        if x.op == 'ss' and x.args[0].op == 'idx':
            return canon(x.args[0])
        return None
    return subst(plain(css(t)), f)


def operand_ss(v):
    return mk('ss', mk('fld', v, N.ss))


def merged(x, y, i):
    """The merged symbol set (0) or the insertion map of x (1) or y (2)."""
    a, b = operand_ss(x), operand_ss(y)
    if show(b, 6) < show(a, 6):
        a, b, i = b, a, {0: 0, 1: 2, 2: 1}[i]
    return mk('idx', mk('merged', a, b), C(i))


def knowing(x, y, w, alias=FALSE):
    """The facts of a world."""
    E, ex, ey = WORLDS[w] if isinstance(w, str) else w
    X, Y = operand_ss(x), operand_ss(y)
    maps = {merged(x, y, 1): ex, merged(x, y, 2): ey}
    distinct = eq(mk('addr', ('a', 0), ()), mk('addr', ('a', 1), ()))

    def f(t):
        if t is distinct:
            return alias
        if t.op == 'eq' and E is not None:
            a, b = t.args
            if {canon(a), canon(b)} == {X, Y}:
                return TRUE if E else FALSE
            if a is C(0) and b.op == 'size' and E is False:
                m = canon(b.args[0])
                if m in maps:
                    return TRUE if maps[m] else FALSE
        if is_call(t, 'series::empty') or is_call(t, 'series::size'):
            v = unwith(t.args[1], [N.tabs])
            if v.op == 'ctor':
                return TRUE if is_call(t, 'series::empty') else C(0)
        if t.op == 'lt':
            a, b = t.args
            if b is C(0) and is_call(a, 'series::size'):
                return FALSE
            if a is C(2 ** 64 - 1) and is_call(b, 'series::size'):
                return FALSE
            if a is C(63) and b.op == 'fld' and b.args[1] == N.log2:
                return FALSE
        return None
    return f


class CJudge(Judge):
    """Judgements with symbol sets in normal form."""

    def __init__(self, op, v, rule, loc='', facts=None, equal=None):
        v = op.I.rewrite(v)
        self.equal = equal or {}
        Judge.__init__(self, op, v, rule, loc, facts)

    def norm(self, t):
        t = canon(t)
        t = subst(t, self.through1)
        return subst(t, self.equal.get) if self.equal else t

    def through1(self, x):
        y = self.through(x)
        return None if y is x else canon(y)

    def cases(self, depth=0):
        """The value in each case of the conditions its fields are chosen by."""
        c = None
        for n in (N.tabs, N.ss, N.log2):
            f = field(self.v, n)
            if f.op == 'ite':
                c = f.args[0]
                break
        if c is None or depth > 4:
            return [self]
        out = []
        for val in (True, False):
            f = dict(self.facts)
            f[c] = val
            if logic.sat(land(*[k if x else lnot(k) for k, x in f.items()])):
                J = CJudge(self.op, assume_in(self.v, {c: val}), self.rule, self.loc, f, self.equal)
                out += J.cases(depth + 1)
        return out


def own_log2(J, *ops):
    """The number of tables is the one of an operand, or one."""
    t = J.through(strip_cast(field(J.v, N.log2)))
    ok = t is C(0) or any(plain(t) is mk('fld', x, N.log2) for x in ops)
    J.ob(True if ok else False if definite(t, known) and t.op in ('c', 'lin') else None, 'the logarithm of the number of tables is %s' % show(t, 5)[:200])
    J.same_tables()


def stops4(q, n):
    return stops(q, n) or bool(re.search(r'obake::detail::merge_symbol_sets$', q.split('<')[0]))


def expected(x, y, w, sign, fx, fy):
    """The terms of the result."""
    E, ex, ey = WORLDS[w]
    kx = KEY if E or ex else mk('call', 'key_merge_symbols', KEY, merged(x, y, 1), operand_ss(x))
    ky = KEY if E or ey else mk('call', 'key_merge_symbols', KEY, merged(x, y, 2), operand_ss(y))
    return [(x, kx, CF), (y, ky, CF if sign > 0 else mkneg(CF))]


def result_ss(x, y, w):
    E, ex, ey = WORLDS[w]
    return operand_ss(x) if E or ex else operand_ss(y) if ey else merged(x, y, 0)


def equalities(x, y, w):
    """Symbol sets which are the same."""
    E, ex, ey = WORLDS[w]
    r = {}
    if E:
        r[operand_ss(y)] = operand_ss(x)
    elif ex or ey:
        r[merged(x, y, 0)] = operand_ss(x) if ex else operand_ss(y)
    return r


BINARY = {'add': 1, 'add_m': 1, 'sub': -1, 'sub_m': -1}
INPLACE = {'iadd': 1, 'iadd_m': 1, 'isub': -1, 'isub_m': -1}


def addsub(cx, P, fns, rule, inplace):
    x, y = p('x'), p('y')
    for fn, sign in fns.items():
        for f in cx.entry(P, 'hx::' + fn, 1, pred=lambda f: bool(f.get('ta'))):
            a, b = kinds(f)
            if a == 's' and b == 's':
                for w in WORLDS:
                    with cx.item('%s, %s' % (nice(f), w)):
                        op = Op(cx, P, f, known=knowing(x, y, w))
                        op.what = '%s, %s' % (nice(f), w)
                        for J in CJudge(op, final(op, 0) if inplace else op.I.ret, rule, equal=equalities(x, y, w)).cases():
                            J.ss(result_ss(x, y, w))
                            own_log2(J, x, y)
                            J.terms(expected(x, y, w, sign, None, None))
                        emptied(op, rule)
                if re.match(r'\w+<S, S>', nice(f)) or nice(f).endswith('<S>'):
                    with cx.item('%s, one object' % nice(f)):
                        aliased(cx, P, f, rule)
                continue
            with cx.item(nice(f)):
                s, c = (x, y) if a == 's' else (y, x)
                op = Op(cx, P, f, known=knowing(x, y, (None, None, None)))
                for J in CJudge(op, final(op, 0) if inplace else op.I.ret, rule).cases():
                    J.ss(operand_ss(s))
                    J.tag(mk('fld', s, N.tag))
                    J.log2(mk('fld', s, N.log2))
                    J.same_tables()
                    J.terms([(s, KEY, CF if s is x or sign > 0 else mkneg(CF)),
                             (None, mk('ctor', '', operand_ss(s)), c if c is x or sign > 0 else mkneg(c))])
                emptied(op, rule)


def emptied(op, rule):
    """An operand whose coefficients have been moved one by one is left without terms."""
    I = op.I
    for x in insertions(I):
        if not x.e.ta or len(x.cf) != 1 or not x.e.loops or land(*[I.rewrite(clean(g)) for g in x.e.guards]) is FALSE:
            continue
        t = targs(x.e.ta)
        if len(t) != 1 or t[0].endswith('&') or not (x.cf[0].op == 'fld' and x.cf[0].args[1] == 'second'):
            continue
        el = x.cf[0].args[0]
        if el.op != 'elem':
            continue
        L = I.loops[el.args[0]]
        R = clean(L.range)
        while R.op in ('idx', 'elem'):
            R = clean(I.loops[R.args[0]].range) if R.op == 'elem' else R.args[0]
        if R.op == 'fld' and R.args[1] == N.tabs:
            R = R.args[0]
        if R.op != 'p':
            continue
        i = [q['n'] for q in op.f['params']].index(R.args[0])
        v = final(op, i)
        if v is None:
            op.ob(None, rule, x.loc, 'final value of %s' % R.args[0])
            continue
        facts = {c: True for g in x.e.guards for c in conj(I.rewrite(clean(g)))}
        J = CJudge(op, assume_in(I.rewrite(clean(v)), facts), rule, x.loc, {c: v for c, v in facts.items() if not has_caught(c)})
        try:
            left = contents(I, mk_tabs(J.v))
        except (LookupError, Split, Partial) as e:
            op.ob(None, rule, x.loc, 'terms left in %s not recognised: %s' % (R.args[0], e))
            continue
        op.ob(not left, rule, x.loc, 'the coefficients of %s are moved from but its terms are not removed' % R.args[0])


def aliased(cx, P, f, rule):
    """The operands are one object: nothing is inserted in a series while its terms are read, and it is not moved from."""
    x, y = p('x'), p('y')
    op = Op(cx, P, f, known=knowing(x, y, 'same symbols', TRUE))
    op.what = '%s, one object' % nice(f)
    I = op.I
    own = (('a', 0), ('a', 1))
    n = 0
    for z in insertions(I):
        if land(*[I.rewrite(clean(g)) for g in z.e.guards]) is FALSE or z.place is None:
            continue
        for l in z.e.loops:
            pl = I.loops[l].rplace
            if pl is None:
                continue
            n += 1
            op.ob(not (pl.root in own and z.place.root in own), rule, z.loc, 'terms are inserted in the series the terms of which are being read')
    op.ob(True if n else None, rule, '', 'no insertion recognised')
    for e in I.trace:
        if e.kind == 'enter' and e.q == 'obake::series::series' and e.places and e.places[0] is not None and e.places[0].root in own and not e.places[0].path:
            g = P.funcs.get((e.node or {}).get('f')) or {}
            ps = g.get('params') or []
            if len(ps) == 1 and P.ty(ps[0]['t']).strip().endswith('&&') and land(*[I.rewrite(clean(c)) for c in e.guards]) is not FALSE:
                op.ob(False, rule, op.loc, 'the operand is moved from while it is also the other operand')


def kinds(f):
    ta = nice(f).split('<', 1)[1].rstrip('>').split(', ')
    ta = [t for t in ta if t]
    if len(ta) == 1:
        ta = ta * 2
    return ['s' if re.match(r'S', t) else 'c' for t in ta[:2]]


@rule('S05', ['series.cpp'], 'Terms and symbol set of the sum and difference of two arbitrary series, in each relation between their symbol sets.',
      min_obligations=60)
def s05(cx):
    P = cx.progs['series.cpp']
    names(P)
    addsub(cx, P, BINARY, 'sum', False)


@rule('S06', ['series.cpp'], 'Terms and symbol set of a series after adding or subtracting another in place, in each relation between their symbol sets.',
      min_obligations=60)
def s06(cx):
    P = cx.progs['series.cpp']
    names(P)
    addsub(cx, P, INPLACE, 'in-place sum', True)


@rule('S04', ['series.cpp'], 'Terms and state of the result of the unary operators and of negation.', min_obligations=16)
def s04(cx):
    P = cx.progs['series.cpp']
    names(P)
    s = p('s')
    for fn in ('plus', 'minus', 'minus_m', 'neg'):
        for f in cx.entry(P, 'hx::' + fn, 1, pred=lambda f: bool(f.get('ta'))):
            with cx.item(nice(f)):
                op = Op(cx, P, f)
                J = Judge(op, final(op, 0) if fn == 'neg' else op.I.ret, 'negation')
                unchanged(J, s, [('s', KEY, CF if fn == 'plus' else mkneg(CF))])
