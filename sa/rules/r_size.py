"""Sizes in bytes of series, keys and coefficients."""
from ..rlib import *
from .r_series7 import unit
from ..series import names
from ..terms import *
from .. import logic
from . import rule
from .r_series import p
import re

STOPZ = re.compile(r'obake::series::(_get_s_table|tag|begin|end|size|empty|get_symbol_set|cbegin|cend)$|^hx::byte_size$|^mppp::|_container$')
stopz = lambda q, n: bool(STOPZ.search(str(q).split('<')[0]))
bq = lambda t: re.sub(r'<.*', '', str(t.args[0]))


def value(t, n, k, rw=None):
    """The value if there are n (0, 1 or more) tables; conditions which are not decided stay."""
    N_ = mk('tables')

    def f(x):
        if x.op in ('size', 'call') and isinstance(x.args[-1], T) and (x.op == 'size' or bq(x).rsplit('::', 1)[-1] == 'size') and k(x.args[-1]):
            return C(n) if n < 2 else N_
        if x.op == 'call' and bq(x).rsplit('::', 1)[-1] == 'empty' and k(x.args[-1]):
            return TRUE if n == 0 else FALSE
        return None
    t = subst(t, f)

    def g(x):
        if x.op == 'ite':
            c = truth(x.args[0])
            if n >= 2 and c not in (TRUE, FALSE):
                if logic.implies(lt(C(1), N_), c, nonneg=(N_,)):
                    c = TRUE
                elif logic.implies(lt(C(1), N_), lnot(c), nonneg=(N_,)):
                    c = FALSE
            if c is TRUE:
                return subst(x.args[1], g)
            if c is FALSE:
                return subst(x.args[2], g)
        return None
    return subst(t, g), N_


class Size:
    def __init__(self, cx, P, f, own, table, pad):
        self.cx, self.P, self.what = cx, P, 'size of a series'
        self.I = cx.analyse(P, f, exact=True, stops=stopz)
        self.loc = P.loc(f)
        for e in self.I.trace:
            if e.kind == 'call' and bq2(e) == 'hx::byte_size' and e.loops:
                self.loc = e.loc
                break
        self.s = p(f['params'][0]['n'])
        self.own, self.table, self.pad = own, table, pad

    def ob(self, ok, detail='', loc=None):
        return self.cx.ob(ok, 'size', self.what, loc or self.loc, detail)

    def tabs(self, t):
        t = unit(t)
        while t.op in ('deref', 'ref'):
            t = t.args[0]
        return t.op == 'call' and bq(t) == 'obake::series::_get_s_table' and unit(t.args[1]) is self.s or t.op == 'fld' and t.args[0] is self.s and 's_table' in str(t.args[1])

    def tag(self, t):
        return t.op == 'call' and bq(t) == 'hx::byte_size' and any(y.op == 'call' and bq(y) == 'obake::series::tag' and unit(y.args[1]) is self.s or y.op == 'fld' and y.args[0] is self.s and 'tag' in str(y.args[1])
                                                                   for y in subterms(t.args[1]))

    def run(self):
        for n, case in ((0, 'without tables'), (1, 'with a single table'), (2, 'with several tables')):
            t, N_ = value(self.I.rewrite(self.I.ret), n, self.tabs)
            for t in self.split(unit(t), N_):
                self.case(t, n, case, N_)

    def split(self, t, N_, depth=4):
        """The values for each way in which conditions on the number of tables may turn out."""
        for x in subterms(t):
            if x.op == 'ite' and depth:
                c = truth(x.args[0])
                if all(y.op in ('c', 'tables', 'eq', 'lt', 'and', 'or', 'not', 'lin', 'b') for y in subterms(c) if isinstance(y, T)):
                    for v in (c, lnot(c)):
                        if logic.sat(land(v, lt(C(1), N_)), nonneg=(N_,)) is not False:
                            yield from self.split(unit(assume_in(t, {c: v is c})), N_, depth - 1)
                    return
        yield t

    def case(self, t, n, case, N_):
        k, d = logic.tm_lin(t)
        if any(x.op in ('unknown', 'opq', 'ite') for x in subterms(t)):
            self.ob(None, 'the size %s is %s' % (case, show(t, 4)[:150]))
            return
        want = self.own + self.table * n if n < 2 else self.own
        self.ob(k == want, 'the parts of fixed size of a series %s take %d bytes, not %d' % (case, k, want))
        rest = dict(d)
        if n == 2:
            c = rest.pop(N_, 0)
            self.ob(c == self.table, 'every table is counted with %d bytes, not %d' % (c, self.table))
        tags = [x for x in rest if self.tag(x)]
        self.ob([rest[x] for x in tags] == [1], 'the size of the tag is counted %s times' % sum(rest[x] for x in tags))
        sums = [x for x in rest if x not in tags]
        if n == 0:
            bad = [x for x in sums if not self.harmless(x)]
            self.ob(True if not bad else None, 'the size without tables contains %s' % [show(x, 3) for x in bad])
            return
        if len(sums) != 1:
            self.ob(False if not sums else None, 'the sizes of the terms are not counted' if not sums else 'the size is a sum of %s' % [show(x, 3)[:80] for x in sums])
            return
        self.ob(rest[sums[0]] == 1, 'the sizes of the terms are counted %s times' % rest[sums[0]])
        try:
            self.total(sums[0], n)
        except Bad as e:
            self.ob(False, str(e), e.loc)
        except LookupError as e:
            self.ob(None, str(e))

    def harmless(self, x):
        """A sum over nothing."""
        return x.op in ('lx',) or x.op == 'call' and 'parallel_reduce' in bq(x)

    def total(self, t, n):
        """A sum over all tables, starting from zero."""
        if t.op == 'lx':
            x = self.loop(t, C(0))
            self.table_of(x, n, None)
            self.ob(True)
            return
        if t.op == 'call' and 'parallel_reduce' in bq(t):
            a = t.args[1:]
            rg = unit(a[0])
            if rg.op != 'ctor' or 'blocked_range' not in str(rg.args[0]) or len(rg.args) < 3:
                raise LookupError('range of the reduction')
            b, e = rg.args[1], rg.args[2]
            index = None
            if b.op == 'begin' and e.op == 'end' and self.tabs(b.args[0]) and self.tabs(e.args[0]):
                pass
            elif b is C(0) and e.op == 'size' and self.tabs(e.args[0]) or b is C(0) and e.op == 'tables':
                index = True
            else:
                for x, want in ((b, 'begin'), (e, 'end')):
                    bs = [y for y in subterms(x) if y.op in ('begin', 'end')]
                    if x.op == 'call' and str(x.args[0]).rsplit('::', 1)[-1] in ('operator+', 'operator-') and len(x.args) == 3 and x.args[1] is bs[0] if bs else False:
                        x = add(bs[0], x.args[2]) if 'operator+' in str(x.args[0]) else sub(bs[0], x.args[2])
                    if len(bs) == 1 and self.tabs(bs[0].args[0]) and sub(x, bs[0]).op == 'c' and (bs[0].op != want or sub(x, bs[0]) is not C(0)):
                        raise Bad('the reduction %ss at %s' % ({'begin': 'start', 'end': 'end'}[want], show(x, 3)), self.loc)
                raise LookupError('range of the reduction from %s to %s' % (show(b, 4)[-100:], show(e, 4)[-100:]))
            self.ob(True if unit(a[1]) is C(0) else False if all(x.op in ('c', 'lin', 'tables') for x in subterms(unit(a[1])) if isinstance(x, T)) else None, 'the reduction starts from %s' % show(a[1], 3))
            clos = tuple(str(x) for x in a[2:4])
            ls = [L for L in self.I.loops.values() if L.kind == 'cb' and 'parallel_reduce' in str(L.q) and tuple(str(x) for x in L.args[2:4]) == clos]
            isb = lambda L: L.result is not None and any(x.op == 'lx' for x in subterms(L.result))
            bodies, joins = [L for L in ls if isb(L)], [L for L in ls if not isb(L)]
            if not bodies or not joins:
                raise LookupError('functions of the reduction')
            B, J = bodies[-1], joins[-1]
            r = unit(self.I.rewrite(B.result))
            k, d = logic.tm_lin(r)
            args = [x for x in d if x.op == 'cbarg' and x.args[0] == B.id]
            rest = [x for x in d if x not in args]
            if len(rest) != 1 or k or rest[0].op != 'lx' or d[rest[0]] != 1:
                raise LookupError('a task returns %s' % show(r, 4)[:120])
            x = self.loop(rest[0], None if not args else C(0), B)
            if args and [d[y] for y in args] != [1]:
                raise Bad('a task counts what was there before %s times' % d[args[0]], B.loc)
            self.table_of(x, n, B)
            self.ob(True)
            j = unit(J.result)
            k, d = logic.tm_lin(j)
            good = k == 0 and sorted((x.args[1], c) for x, c in d.items() if x.op == 'cbarg' and x.args[0] == J.id) == [(0, 1), (1, 1)] and len(d) == 2
            self.ob(True if good else False if all(x.op == 'cbarg' for x in d) or j.op in ('max', 'min', 'umax', 'umin') else None, 'the results of two tasks are combined as %s' % show(j, 4)[:100], J.loc)
            return
        raise LookupError('the sizes of the terms are %s' % show(t, 4)[:120])

    def loop(self, t, start, body=None):
        """The sizes of terms added up in a loop, through nested loops: the collection of a table's terms."""
        I = self.I
        L = I.loops[t.args[0]]
        init, st, me = unit(L.init[t.args[1]]), unit(I.rewrite(L.step[t.args[1]])), mk('lv', t.args[0], t.args[1])
        if body is not None and start is None:
            ok = init.op == 'cbarg' and init.args[:2] == (body.id, 1)
            if not ok:
                raise Bad('what a task was given is lost: it starts from %s' % show(init, 3), L.loc) if init.op == 'c' else LookupError('a task starts from %s' % show(init, 3)[:80])
        elif init is not start:
            raise Bad('the sum starts from %s' % show(init, 3)[:80], L.loc) if init.op == 'c' or init.op == 'lv' else LookupError('the sum starts from %s' % show(init, 3)[:80])
        if L.exits:
            raise Bad('the loop is left early', L.loc)
        k, d = logic.tm_lin(st)
        inner = [x for x in d if x.op == 'lx']
        if len(inner) == 1 and d[inner[0]] == 1:
            M = I.loops[inner[0].args[0]]
            i2 = unit(M.init[inner[0].args[1]])
            if me in d and d[me] == 1 and i2 is C(0) and len(d) == 2 and k == 0:
                r = self.loop(inner[0], C(0))
            elif me not in d and i2 is me and len(d) == 1 and k == 0:
                r = self.loop(inner[0], me)
            elif me not in d and i2.op == 'c' or me in d and (i2 is me or d[me] != 1) or k:
                raise Bad('the sum becomes %s for each table' % show(st, 4)[:120], L.loc)
            else:
                raise LookupError('the sum becomes %s' % show(st, 4)[:120])
            return r
        if d.get(me) != 1:
            raise Bad('the sum becomes %s for each term' % show(st, 4)[:120], L.loc) if me not in d and all(x.op == 'call' and bq(x) == 'hx::byte_size' for x in d) else LookupError('the sum becomes %s' % show(st, 4)[:120])
        parts = {x: c for x, c in d.items() if x is not me}
        fl = {}
        for x, c in parts.items():
            a = unit(x.args[1]) if x.op == 'call' and bq(x) == 'hx::byte_size' and len(x.args) == 2 else None
            if a is None or a.op != 'fld' or a.args[1] not in ('first', 'second'):
                raise LookupError('%s is added for each term' % show(x, 4)[:100])
            fl[a.args[1]] = (a.args[0], c)
        for m, name in (('first', 'monomial'), ('second', 'coefficient')):
            self.ob(m in fl and fl[m][1] == 1, 'the size of the %s is counted %d times for each term' % (name, fl[m][1] if m in fl else 0), L.loc)
        self.ob(k == self.pad, '%d bytes are added for each term, %d of which are padding' % (k, self.pad), L.loc)
        el = {v[0] for v in fl.values()}
        if len(el) != 1:
            raise LookupError('the terms of %d collections' % len(el))
        el = el.pop()
        if el.op == 'elem' and el.args[0] == L.id:
            return unit(el.args[1])
        if el.op == 'deref':
            i = el.args[0]
            if i.op == 'lv' and i.args[0] == L.id and sub(L.step[i.args[1]], i) is C(1):
                b = L.init[i.args[1]]
                e = [x for x in subterms(L.cond) if x.op == 'end' or x.op == 'call' and re.search(r'::c?end$', str(x.args[0]))]
                if b.op == 'begin' or b.op == 'call' and re.search(r'::c?begin$', str(b.args[0])):
                    if len(e) == 1 and e[0].args[-1] is b.args[-1] and L.cond in (lnot(eq(i, e[0])),):
                        return unit(b.args[-1])
        raise LookupError('terms visited: %s' % show(el, 4)[:100])

    def table_of(self, x, n, body):
        """Are the terms those of all tables?"""
        I = self.I
        if n == 1 and body is None:
            if x.op == 'idx' and self.tabs(x.args[0]):
                if x.args[1] is C(0):
                    return
                if x.args[1].op == 'c':
                    raise Bad('table %s is looked at' % show(x.args[1], 2), self.loc)
            if x.op == 'call' and re.search(r'::(front|back)$', bq(x)) and self.tabs(x.args[1]) or x is self.s:
                return
        elif x is self.s:
            return
        if x.op == 'elem':
            L = I.loops[x.args[0]]
            if L.exits:
                raise Bad('some tables are not visited', L.loc)
            r = unit(x.args[1])
            if body is not None and r.op == 'cbarg' and r.args[:2] == (body.id, 0) or body is None and self.tabs(r):
                return
        if body is not None and x.op in ('idx', 'deref') and x.args[-1].op == 'lv':
            i = x.args[-1]
            L = I.loops[i.args[0]]
            b, c = L.init[i.args[1]], L.cond
            bs = [y for y in subterms(c) if y.op == 'end' or y.op == 'call' and bq(y).endswith('::end')]
            good = (b.op == 'begin' or b.op == 'call' and bq(b).endswith('::begin')) and unit(b.args[-1]).op == 'cbarg' and unit(b.args[-1]).args[:2] == (body.id, 0)
            if good and len(bs) == 1 and bs[0].args[-1] is b.args[-1] and c in (lnot(eq(i, bs[0])), lt(i, bs[0])) and sub(L.step[i.args[1]], i) is C(1) and not L.exits and (x.op == 'deref' or self.tabs(x.args[0])):
                return
        if x.op == 'idx' and self.tabs(x.args[0]) and x.args[1].op == 'c' and n == 2:
            raise Bad('only table %s is looked at' % show(x.args[1], 2), self.loc)
        raise LookupError('tables visited: %s' % show(x, 4)[:120])


class Bad(Exception):
    def __init__(self, what, loc=None):
        Exception.__init__(self, what)
        self.loc = loc


def bq2(e):
    return re.sub(r'<.*', '', str(e.q))


def constant(cx, P, q):
    f = cx.entry(P, 'hx::' + q, 1)[0]
    I = cx.analyse(P, f, exact=True, stops=stopz)
    t = unit(I.ret)
    if t.op != 'c':
        raise LookupError('size of %s' % q)
    return t.args[0]


@rule('S15', ['text.cpp'], 'Size in bytes of a series over arbitrary keys, coefficients and tags, without tables, with one and with several; of dynamic monomials, integers and rationals.', min_obligations=20)
def s15(cx):
    P = cx.progs['text.cpp']
    names(P)
    for f in cx.entry(P, 'hx::bytes', 1):
        with cx.item('series'):
            Size(cx, P, f, constant(cx, P, 'own_size'), constant(cx, P, 'table_size'), constant(cx, P, 'padding')).run()
    intsize = constant(cx, P, 'int_size')
    limb = 8

    def lin_is(q, want, known_):
        f = cx.entry(P, 'hx::' + q, 1)[0]
        I = cx.analyse(P, f, exact=True, stops=stopz)
        return f, I, unit(I.rewrite(I.ret))

    with cx.item('dynamic monomial'):
        f, I, t = lin_is('dpm_bytes', None, None)
        k, d = logic.tm_lin(t)
        own = constant(cx, P, 'dpm_size')
        loc = P.loc(f)
        for e in I.trace:
            if e.kind == 'ret' and e.loc and 'd_packed' in e.loc:
                loc = e.loc
        cap = [x for x in d if x.op in ('call', 'size') and (x.op == 'size' or bq(x).rsplit('::', 1)[-1] in ('capacity', 'size'))]
        ob = lambda ok, s: cx.ob(ok, 'size', 'size of a dynamic monomial', loc, s)
        if len(cap) != len(d):
            ob(None, 'the size is %s' % show(t, 4)[:120])
        else:
            ob(k == own, '%d bytes are counted for the object of %d' % (k, own))
            ob(len(cap) == 1 and d[cap[0]] == 4, 'the storage is counted with %s bytes per value of 4 bytes' % list(d.values()))
            ob(len(cap) == 1 and cap[0].op == 'call' and bq(cap[0]).endswith('capacity'), 'the storage counted is the part in use')

    def integer(t, what, loc, obj):
        """Own size, and limbs if dynamic."""
        ob = lambda ok, s: cx.ob(ok, 'size', what, loc, s)
        st = [x for x in subterms(t) if x.op == 'call' and bq(x) in ('mppp::integer::is_static', 'mppp::integer::is_dynamic')]
        n = [x for x in subterms(t) if x.op == 'call' and bq(x) == 'mppp::integer::size']
        for static in (True, False):
            v = t
            for x in st:
                v = assume_in(v, {x: static == bq(x).endswith('is_static')})
            v = unit(v)
            if v.op == 'ite':
                return ob(None, 'the size is %s' % show(v, 4)[:120])
            k, d = logic.tm_lin(v)
            if not all(x in n for x in d):
                return ob(None, 'the size is %s' % show(v, 4)[:120])
            ob(k == obj, '%d bytes are counted for the object of %d' % (k, obj))
            want = [] if static else [limb]
            ob(sorted(d.values()) == want, 'the limbs of a %s value are counted with %s bytes each' % ('static' if static else 'dynamic', list(d.values())))

    def where(I, f):
        loc = P.loc(f)
        for e in I.trace:
            if e.kind == 'call' and str(e.q).startswith('mppp::') and e.loc:
                return e.loc
        return loc

    with cx.item('integer'):
        f, I, t = lin_is('int_bytes', None, None)
        integer(t, 'size of an integer', where(I, f), intsize)
    with cx.item('rational'):
        f, I, t = lin_is('rat_bytes', None, None)
        k, d = logic.tm_lin(t)
        loc = where(I, f)
        part = {}
        for x in d:
            for y in subterms(x):
                if y.op == 'call' and bq(y) in ('mppp::rational::get_num', 'mppp::rational::get_den'):
                    part.setdefault(bq(y)[-3:], set()).add(x)
        pad = constant(cx, P, 'rat_padding')
        ob = lambda ok, s: cx.ob(ok, 'size', 'size of a rational', loc, s)
        if len(d) > 2 or any(x.op != 'ite' for x in d) or any(len(x) != 1 for x in part.values()):
            ob(None, 'the size is %s' % show(t, 4)[:150])
        else:
            for n in ('num', 'den'):
                xs = part.get(n)
                ob(xs is not None and d[list(xs)[0]] == 1, 'the %s is counted %s times' % ({'num': 'numerator', 'den': 'denominator'}[n], d[list(xs)[0]] if xs else 0))
                if xs:
                    integer(list(xs)[0], 'size of a rational', loc, intsize)
            ob(k == pad, '%d bytes of padding are counted, not %d' % (k, pad))
    with cx.item('other types'):
        f, I, t = lin_is('plain_bytes', None, None)
        cx.ob(t is C(8) if t.op == 'c' else None, 'size', 'size of a double', P.loc(f), 'the size is %s' % show(t, 3))
