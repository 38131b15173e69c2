"""Series: multiplication and division by a scalar."""
from ..rlib import *
from ..series import *
from ..series import N
from .. import logic
from . import rule
from .r_series import Op, p, nice
from .r_series2 import definite, retloc
from .r_series3 import plain, field, final, known, tag_default
from .r_series4 import CJudge, operand_ss, kinds, knowing, canon, expected, equalities, WORLDS

ZEROQ = ('is_zero',)


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if t.op == 'ite' else [t]


def nz(t):
    """Boolean results tested directly."""
    def f(x):
        if x.op == 'eq' and x.args[0] is C(0) and x.args[1].op == 'call' and x.args[1].args[0].split('<')[0].endswith('is_zero'):
            return lnot(x.args[1])
        return None
    return truth(subst(t, f))


def left_early(L):
    """Is a loop left because of what one table or term is like, whatever comes after it?"""
    def about_one(g):
        g = truth(g)
        if g.op in ('and', 'or', 'not'):
            return all(about_one(x) for x in g.args)
        if g.op in ('eq', 'lt') and any(x.op == 'c' for x in g.args):
            return all(x.op == 'c' or query(x) for x in g.args)
        return g.op != 'c' and query(g)

    def query(x):
        if x.op in ('size', 'empty'):
            return x.args[0].op in ('elem', 'idx')
        if x.op == 'call':
            n = str(x.args[0]).split('<')[0]
            return n.startswith('hx::') and any(y.op in ('elem', 'deref') for y in subterms(x)) or n.rsplit('::', 1)[-1] in ('size', 'empty') and len(x.args) == 2 and x.args[1].op in ('elem', 'idx')
        return False
    for g, kind in L.exits:
        if about_one(clean(g)):
            raise Partial(L.loc, 'the loop is left if %s' % show(g, 4)[:120])


def visits_all(I, el, loops, guards):
    """Is the element visited for every term of every table of a vector?  The vector, or LookupError / Partial."""
    if el.op == 'elem':
        L = I.loops[el.args[0]]
        R = L.range
    elif el.op == 'deref' and el.args[0].op == 'lv':
        lv = el.args[0]
        L = I.loops[lv.args[0]]
        k = lv.args[1]
        b = L.init.get(k)
        if L.kind not in ('for', 'while') or b is None or not (is_call(b, 'begin') or b.op == 'begin'):
            raise LookupError('iteration over the terms')
        R = b.args[-1]
        steps = leaves(L.step.get(k))
        if any(x.op == 'lin' and x is add(lv, C(n)) for x in steps for n in (2, 3)):
            raise Partial(L.loc, 'the iterator may skip a term')
        if any(x is not add(lv, C(1)) for x in steps):
            raise LookupError('the iterator advances to %s' % show(L.step[k], 4)[:100])
        c = L.cond
        if c.op != 'not' or c.args[0].op != 'eq' or lv not in c.args[0].args:
            raise LookupError('iteration condition %s' % show(c, 4)[:100])
        e = [x for x in c.args[0].args if x is not lv][0]
        if not (is_call(e, 'end') or e.op == 'end') or e.args[-1] is not R:
            raise LookupError('iteration end %s' % show(e, 4)[:100])
    else:
        raise LookupError('element %s' % show(el, 3)[:100])
    left_early(L)
    if L.exits or L.id not in loops:
        raise LookupError('loop with exits' if L.exits else 'element used outside of its loop')
    if R.op == 'elem':
        A = I.loops[R.args[0]]
        left_early(A)
        if A.exits or A.kind != 'rfor':
            raise LookupError('loop over the tables')
        return A.range
    if R.op == 'idx' and R.args[1].op == 'lv':
        A = I.loops[R.args[1].args[0]]
        left_early(A)
        if A.exits:
            raise LookupError('loop over the tables')
        all_indices(I, A, R.args[1], R.args[0])
        return R.args[0]
    if R.op == 'idx' and R.args[1].op == 'c':
        if seg_single(land(*[nseg(I, clean(g)) for g in guards]), seg(I, R.args[0])):
            return R.args[0]
        raise Partial(L.loc, 'only the terms of one table are used')
    raise LookupError('loop over %s' % show(R, 3)[:100])


def root(I, V):
    """The tables a vector starts from."""
    for _ in range(20):
        b, _l = walk(I, V)
        if b.op != 'lv':
            return b
        V = I.loops[b.args[0]].init[b.args[1]]
    return V


def scaled(J, s, c, opn, base):
    """Every coefficient is scaled once, and exactly the terms which become zero are removed."""
    op, I = J.op, J.I
    rule = 'scaling'
    facts = J.facts

    def live(e):
        g = land(*[truth(assume_in(clean(I.rewrite(x)), facts)) for x in e.guards])
        return g is not FALSE and logic.sat(land(g, J.assume()))
    scale = []
    for e in I.trace:
        if e.kind != 'call' or not e.args or not live(e):
            continue
        n = qof(e).rsplit('::', 1)[-1]
        a = e.args[0]
        if n in ('operator*=', 'operator/=', 'operator+=', 'operator-=') and a.op == 'fld' and a.args[1] == 'second' and a.args[0].op in ('elem', 'deref'):
            scale.append(e)
    if not scale:
        return J.ob(None, 'the operation on the coefficients is not recognised')
    if len(scale) > 1:
        return J.ob(None, 'several operations on the coefficients')
    m = scale[0]
    el = m.args[0].args[0]
    try:
        V = visits_all(I, el, m.loops, m.guards)
    except Partial as e:
        return J.ob(False, str(e), e.loc)
    except LookupError as e:
        return J.ob(None, str(e), m.loc)
    J.ob(True if root(I, V) is base else None, 'the terms used are those of %s' % show(root(I, V), 4)[:150], m.loc)
    J.ob(qof(m).endswith(opn), 'the coefficients are combined with %s' % qof(m), m.loc)
    b = plain(m.args[1])
    J.ob(True if b is c else False if definite(b, known) else None, 'the coefficients are combined with %s' % show(b, 4)[:150], m.loc)
    g = land(*[truth(assume_in(clean(I.rewrite(x)), facts)) for x in m.guards if not is_loop_cond(I, m, x)])
    r = logic.equiv(g, TRUE, J.assume())
    J.ob(r if r or definite(g, known) else None, 'the coefficients are scaled only if %s' % show(g, 5)[:200], m.loc)
    # Removal of the terms whose coefficient has become zero.
    new = mk('upd', m.q, 0, *m.args)
    removed(J, m, el, new, V)


def is_loop_cond(I, e, g):
    g = clean(g)
    return any(clean(I.loops[l].cond) is g for l in e.loops if I.loops[l].cond is not None)


def zero_test(new):
    def f(x):
        return x.op == 'call' and x.args[0].split('<')[0].endswith('::is_zero') and x.args[-1] is new
    return f


def removed(J, m, el, new, V):
    I, rule = J.I, J.rule
    tests = [x for e in I.trace for g in e.guards for x in subterms(g) if zero_test(new)(x)]
    er = [e for e in I.trace if e.kind == 'call' and qof(e).endswith('::erase') and e.args and m.loops and e.loops[:1] == m.loops[:1]]
    if not er:
        other = [e for e in I.trace if e.kind == 'call' and ('erase' in qof(e) or 'clear' in qof(e)) and not any(has_caught(g) for g in e.guards)
                 and not e.loops[:1] == m.loops[:1] and e.i > m.i]
        return J.ob(None if other else False, 'terms whose coefficient becomes zero are not removed', m.loc)
    if not tests:
        return J.ob(None if any(is_call(x, 'is_zero') for e in er for g in e.guards for x in subterms(g)) else False,
                    'terms are removed without testing whether the new coefficient is zero', er[0].loc)
    removed_if(J, m, el, tests[0], er, 'if the new coefficient is zero')


def removed_if(J, m, el, Z, er, when, kn=None):
    """Exactly the terms for which Z holds are removed."""
    I = J.I
    base = [clean(g) for g in m.guards]

    def cond(gs):
        return land(*[x for g in gs for x in conj(clean(g)) if x not in base and not any(x in conj(b) for b in base)])
    total = FALSE
    for e in er:
        a = e.args[1]
        key = mk('fld', el, 'first')
        if a is key or el.op == 'deref' and a is el.args[0]:
            if e.loops != m.loops:
                J.ob(None, 'term removed in another loop', e.loc)
                continue
            total = lor(total, cond(e.guards))
            J.ob(True if el.op == 'deref' and a is el.args[0] else None, 'terms are removed by key from the table being iterated', e.loc)
            for z in I.trace:
                if z.kind == 'asg' and z.q == '++' and z.i > e.i and z.loops == e.loops and z.args and z.args[0] is a and el.op == 'deref' \
                        and logic.sat(land(*[clean(g) for g in z.guards + e.guards])):
                    J.ob(False, 'the iterator to a removed term is used to reach the next term', z.loc)
            continue
        # Keys collected in a container.
        R = None
        if a.op == 'elem':
            L = I.loops[a.args[0]]
            R = L.range
        elif a.op == 'idx' and a.args[1].op == 'lv':
            L, k = I.loops[a.args[1].args[0]], a.args[1].args[1]
            n = mk('size', a.args[0])
            if L.init.get(k) is C(0) and strip_cast(L.step.get(k)) is add(a.args[1], C(1)) and strip_cast(L.cond) in (lt(a.args[1], n), lnot(eq(a.args[1], n))):
                R = a.args[0]
            elif L.init.get(k) is not None and L.init[k].op == 'c' and L.init[k] is not C(0):
                J.ob(False, 'the first term collected is not removed', L.loc)
                continue
        if R is not None:
            if L.exits:
                J.ob(None, 'removal loop with exits', L.loc)
                continue
            c = collected(J, R, key, m)
            if c is not None:
                total = lor(total, land(cond(x for x in e.guards if not is_loop_cond(I, e, x)), cond([c])))
                continue
        J.ob(None, 'term removed: %s' % show(a, 4)[:150], e.loc)
        return
    total = nz(total)
    r = logic.equiv(total, Z)
    its = (el, el.args[0]) if el.op == 'deref' else (el,)
    J.ob(r if r or definite(subst(total, lambda x: p('TERM') if x in its else None), kn or known) else None, 'terms are removed if %s; required: %s' % (show(total, 5)[:200], when), er[0].loc)


def collected(J, R, key, m):
    """The condition for the key of the element to be added to a container in the loop of the elements."""
    I = J.I
    R = clean(R)
    if R.op == 'fld' or R.op != 'lx' or R.args[0] != m.loops[-1]:
        return None
    L, k = I.loops[R.args[0]], R.args[1]
    lv = mk('lv', L.id, k)

    def go(t):
        if t is lv:
            return FALSE
        if t.op == 'ite':
            a, b = go(t.args[1]), go(t.args[2])
            if a is None or b is None:
                return None
            return lor(land(t.args[0], a), land(lnot(t.args[0]), b))
        if t.op == 'upd' and t.args[0].split('<')[0].rsplit('::', 1)[-1] in ('push_back', 'emplace_back', 'insert', 'emplace') and t.args[2] is lv and plain(t.args[-1]) is key:
            return TRUE
        return None
    return go(clean(L.step[k]))


@rule('S07', ['series.cpp'], 'Product and quotient of an arbitrary series and a scalar: every coefficient scaled once, exactly the zero terms removed.',
      min_obligations=60)
def s07(cx):
    P = cx.progs['series.cpp']
    names(P)
    x, y = p('x'), p('y')
    for fn, opn in (('mul', 'operator*='), ('mul_m', 'operator*='), ('imul', 'operator*='), ('div', 'operator/='), ('div_m', 'operator/='), ('idiv', 'operator/=')):
        for f in cx.entry(P, 'hx::' + fn, 1, pred=lambda f: bool(f.get('ta'))):
            with cx.item(nice(f)):
                op = Op(cx, P, f, known=knowing(x, y, (None, None, None)))
                I = op.I
                s, c = (x, y) if kinds(f)[0] == 's' else (y, x)
                v = final(op, 0) if fn.startswith('i') else I.ret
                empty = mk('call', 'obake::series::empty', s)
                for J in CJudge(op, v, 'scaling').cases():
                    J.ss(operand_ss(s))
                    J.tag(mk('fld', s, N.tag))
                    J.same_tables()
                    try:
                        b = root(I, mk_tabs(J.v))
                    except (LookupError, Split) as e:
                        J.ob(None, 'terms of the result: %s' % e)
                        continue
                    if b.op in ('ctor', 'new'):
                        z = [t for k in J.facts for t in subterms(k) if t.op == 'call' and t.args[0].split('<')[0].endswith('is_zero') and plain(t.args[-1]) is c]
                        if fn.endswith(('div', 'div_m')):
                            z = []
                        why = lor(empty, *[lnot(eq(C(0), t)) if t.op == 'call' else t for t in z])
                        why = lor(why, *z) if z else why
                        r = logic.implies(J.assume(), why)
                        J.ob(r if r or all(definite(k, known) for k in J.facts) else None, 'the result has no terms if %s' % show(J.assume(), 5)[:200])
                        try:
                            e = contents(I, mk_tabs(J.v))
                            J.ob(True if not e else None, 'terms in the result')
                        except (LookupError, Split, Partial) as e:
                            J.ob(None, 'terms of the result: %s' % e)
                        continue
                    J.log2(mk('fld', s, N.log2))
                    w = mk('fld', s, N.tabs)
                    J.ob(True if b is w else False if definite(b, known) else None, 'the terms of the result come from %s' % show(b, 4)[:150])
                    if b is w:
                        scaled(J, s, c, opn, b)


# ---- comparison --------------------------------------------------------------------

def stops8(q, n):
    return stops(q, n) or bool(re.search(r'obake::series::(size|c?begin|c?end|find|empty|is_single_cf)$', q))


NX, NY, TAGNE, DX, DY = mk('p', 'size of x'), mk('p', 'size of y'), mk('atom', 'the tags differ'), mk('atom', 'a term of x has no equal in y'), mk('atom', 'a term of y has no equal in x')


def series_query(x):
    if x.op == 'call' and len(x.args) >= 2:
        n = x.args[0].split('<')[0]
        if n.startswith('obake::series::'):
            return n.rsplit('::', 1)[-1]
    return None


def cmp_op(x):
    """(equal?, a, b) of a comparison of coefficients or tags."""
    if x.op == 'call' and len(x.args) == 3:
        n = x.args[0].split('<')[0].rsplit('::', 1)[-1]
        if n in ('operator==', 'operator!='):
            return n == 'operator==', x.args[1], x.args[2]
    return None


def same_series(cx, op, w, negated):
    I = op.I
    rule = 'equality'
    x, y = p('x'), p('y')
    t = clean(I.rewrite(I.ret))
    vals = []

    def by_table(s):
        # Terms visited table by table.
        if s.op == 'elem' and s.args[1].op == 'elem' and s.args[1].args[1].op == 'fld' and s.args[1].args[1].args[1] == N.tabs:
            return mk('elem', s.args[0], s.args[1].args[1].args[0])
        if s.op == 'ex' and s.args[1].op == 'ex':
            A, B = I.loops[s.args[0]], I.loops[s.args[1].args[0]]
            if B.range is not None and B.range is mk('elem', A.id, A.range):
                return mk('ex', B.id, subst(s.args[1].args[1], by_table))
        return None
    t = subst(t, by_table)
    for s in subterms(t):
        v = None
        if s.op == 'elem' and s.args[1].op == 'idx' and s.args[1].args[1].op == 'c' and s.args[1].args[0].op == 'fld' and s.args[1].args[0].args[1] == N.tabs:
            return op.ob(False, rule, I.loops[s.args[0]].loc, 'only the terms of one table are compared')
        if series_query(s) in ('size', 'begin', 'end', 'find', 'empty', 'cbegin', 'cend'):
            v = s.args[1]
        elif s.op == 'elem':
            v = s.args[1]
        if v is not None and v not in vals:
            vals.append(v)
    want = expected(x, y, w, 1, None, None)
    roles = {}
    for v in vals:
        J = CJudge(op, v, rule, equal=equalities(x, y, w))
        role = None
        for K in J.cases():
            try:
                e = contents(I, mk_tabs(K.v))
            except Split as s:
                e = contents(I, mk_tabs(assume_in(K.v, {s.c: True})))
            except Partial as s:
                op.ob(False, rule, s.loc, str(s))
                e = None
            except LookupError as s:
                return op.ob(None, rule, '', 'series compared: %s' % s)
            r = {p(z.op) if isinstance(z.op, str) else z.op for z in e or () if not isinstance(z, tuple)}
            if e is None:
                return
            if len(r) != 1 or role not in (None, min(r, key=str)):
                return op.ob(None, rule, '', 'series compared not recognised')
            role = min(r, key=str)
            K.terms([z for z in want if z[0] is role])
        roles[v] = role
    t = subst(t, roles.get)
    # Membership of the terms.
    bad = []

    def f(s):
        q = series_query(s)
        if q == 'size' and s.args[1] in (x, y):
            return NX if s.args[1] is x else NY
        if q == 'empty' and s.args[1] in (x, y):
            return eq(C(0), NX if s.args[1] is x else NY)
        c = cmp_op(s)
        if c and {plain(c[1]), plain(c[2])} == {mk('fld', x, N.tag)} or c and {plain(c[1]), plain(c[2])} == {mk('fld', y, N.tag)}:
            return TRUE if c[0] else FALSE
        if c and {plain(c[1]), plain(c[2])} == {mk('fld', x, N.tag), mk('fld', y, N.tag)}:
            return lnot(TAGNE) if c[0] else TAGNE
        if s.op == 'ex':
            L = I.loops[s.args[0]]
            R = roles.get(clean(I.rewrite(L.range)), clean(L.range)) if L.range is not None else None
            if R is not None and R.op == 'elem' and R.args[1].op == 'fld' and R.args[1].args[1] == N.tabs:
                R = R.args[1].args[0]
            if R not in (x, y):
                return None
            o = y if R is x else x
            it = mk('elem', L.id, R)
            c = member(s.args[1], it, o)
            if c is True:
                return DX if R is x else DY
            bad.append((c, L.loc, s.args[1]))
        return None
    t = truth(subst(t, f))
    for c, loc, g in bad:
        op.ob(c, rule, loc, 'a term makes the series different if %s' % show(g, 7)[:300])
    if bad:
        return
    want = land(lnot(TAGNE), eq(NX, NY), lnot(DX))
    asm = land(lor(lnot(eq(NX, NY)), lor(land(DX, DY), land(lnot(DX), lnot(DY)))), lor(DX, DY, eq(NX, NY)))
    r = logic.equiv(t, lnot(want) if negated else want, asm, nonneg=(NX, NY))
    atoms = all(s.op in ('atom', 'b', 'p', 'c', 'not', 'and', 'or', 'eq', 'lt', 'ite') for s in subterms(t)) or definite(t, known) and not any(
        series_query(s) for s in subterms(t))
    op.ob(r if r or atoms else None, rule, '', 'two series are %s if %s' % ('different' if negated else 'equal', show(t, 6)[:300]))


def member(c, it, o):
    """Is the condition: the term is not in the other series with an equal coefficient?"""
    k1, c1 = mk('fld', it, 'first'), mk('fld', it, 'second')
    found = mk('atom', 'found')
    same = mk('atom', 'equal coefficients')
    off = []

    def f(s):
        if s.op == 'eq':
            a, b = s.args
            for u, v in ((a, b), (b, a)):
                if series_query(u) in ('end', 'cend') and u.args[1] is o and series_query(v) == 'find' and v.args[1] is o:
                    if v.args[2] is not k1:
                        off.append(v.args[2])
                        return None
                    return lnot(found)
        m = cmp_op(s)
        if m:
            for u, v in ((m[1], m[2]), (m[2], m[1])):
                if u is c1 and v.op == 'fld' and v.args[1] == 'second' and v.args[0].op == 'deref' and series_query(v.args[0].args[0]) == 'find' \
                        and v.args[0].args[0].args[1] is o and v.args[0].args[0].args[2] is k1:
                    return same if m[0] else lnot(same)
        return None
    g = truth(subst(c, f))
    r = logic.equiv(g, lnot(land(found, same)))
    if r:
        return True
    return False if all(s.op in ('atom', 'not', 'and', 'or') for s in subterms(g)) else None


def same_scalar(cx, op, s, c, negated):
    """Comparison with a scalar."""
    I = op.I
    rule = 'equality'
    n = mk('p', 'size')
    one, z, same = mk('atom', 'unit key'), mk('atom', 'zero scalar'), mk('atom', 'equal coefficients')
    b = mk('deref', mk('call', 'obake::series::begin', s))

    def bgn(x):
        return x.op == 'deref' and series_query(x.args[0]) in ('begin', 'cbegin') and x.args[0].args[1] is s

    def f(x):
        q = series_query(x)
        if q == 'size' and x.args[1] is s:
            return n
        if q == 'empty' and x.args[1] is s:
            return eq(C(0), n)
        if q == 'is_single_cf' and x.args[1] is s:
            return lor(eq(C(0), n), land(eq(C(1), n), one))
        m = cmp_op(x)
        if m:
            for u, v in ((m[1], m[2]), (m[2], m[1])):
                if u.op == 'fld' and u.args[1] == 'second' and bgn(u.args[0]) and plain(v) is c:
                    return same if m[0] else lnot(same)
        if x.op == 'call' and x.args[0].endswith('::is_zero') and plain(x.args[-1]) is c:
            return z
        if x.op == 'call' and x.args[0].endswith('::key_is_one') and x.args[1].op == 'fld' and x.args[1].args[1] == 'first' and bgn(x.args[1].args[0]) \
                and canon(x.args[2]) is operand_ss(s):
            return one
        return None
    t = truth(subst(nz(canon(clean(I.rewrite(I.ret)))), f))
    t = truth(subst(t, lambda x: x.args[1] if x.op == 'eq' and x.args[0] is C(1) and x.args[1].op == 'atom' else lnot(x.args[1]) if x.op == 'eq' and x.args[0] is C(0) and x.args[1].op == 'atom' else None))
    want = lor(land(eq(C(0), n), z), land(eq(C(1), n), one, same))
    r = logic.equiv(t, lnot(want) if negated else want, nonneg=(n,))
    atoms = all(s.op in ('atom', 'b', 'p', 'c', 'not', 'and', 'or', 'eq', 'lt', 'ite') for s in subterms(t)) or definite(t, known)
    op.ob(r if r or atoms else None, rule, '', 'a series is %s a scalar if %s' % ('different from' if negated else 'equal to', show(t, 6)[:300]))


@rule('S08', ['series.cpp'], 'Comparison of arbitrary series, in each relation between their symbol sets, and of a series with a scalar.', min_obligations=40)
def s08(cx):
    P = cx.progs['series.cpp']
    names(P)
    x, y = p('x'), p('y')
    for fn in ('eq', 'ne'):
        for f in cx.entry(P, 'hx::' + fn, 1, pred=lambda f: bool(f.get('ta'))):
            a, b = kinds(f)
            if a == 's' and b == 's':
                for w in WORLDS:
                    with cx.item('%s, %s' % (nice(f), w)):
                        op = Op(cx, P, f, stops_=stops8, known=knowing(x, y, w))
                        op.what = '%s, %s' % (nice(f), w)
                        op.loc = retloc(op) or op.loc
                        same_series(cx, op, w, fn == 'ne')
                continue
            with cx.item(nice(f)):
                s, c = (x, y) if a == 's' else (y, x)
                op = Op(cx, P, f, stops_=stops8, known=knowing(x, y, (None, None, None)))
                op.loc = retloc(op) or op.loc
                same_scalar(cx, op, s, c, fn == 'ne')
