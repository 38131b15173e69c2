"""The overflow test of a product of two ranges of monomials: limits as extrema over ranges, combined by interval arithmetic."""
from ..rlib import *
from ..scan import *
from ..rlib import strip_size as strip_cast
from . import rule
from .r_monomials import M, STOP, each, p

ROW = re.compile(r'::(emplace_back|push_back)$')


class Bad(Exception):
    def __init__(self, loc, msg):
        Exception.__init__(self, msg)
        self.loc, self.msg = loc, msg


class Unk(Exception):
    pass


class D:
    """An extremum (op) of a quantity over some monomials."""

    def __init__(self, op, qty, over):
        self.op, self.qty, self.over = op, qty, frozenset(over)

    def __eq__(self, o):
        return isinstance(o, D) and (self.op, self.qty, self.over) == (o.op, o.qty, o.over)

    def __hash__(self):
        return hash((self.op, self.qty, self.over))

    def __str__(self):
        return '%s %s over %s' % ({'val': 'the', 'min': 'least', 'max': 'largest'}.get(self.op, 'the'), {'exp': 'exponent', 'deg': 'degree'}.get(self.qty, 'value'),
                                  ', '.join(sorted(' '.join(str(y) for y in x[:2]) for x in self.over)))


NEW = 'nothing yet'
WIDTH = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'short': 16, 'unsigned short': 16}


def stem(q):
    return re.sub(r'<.*', '', str(q))


def base(q):
    return stem(q).rsplit('::', 1)[-1]


class Ranges:
    def __init__(self, mm):
        self.mm, self.I = mm, mm.I
        self.n = size(mm.ss)
        self.r = {p('r1'): 1, p('r2'): 2}
        self.env = {}
        self.loc = mm.loc

    # ---- ranges and elements
    def pos(self, t):
        """(range, offset) of an iterator."""
        t = strip_cast(t)
        c, d = logic.tm_lin(t)
        if len(d) == 1:
            (k, m), = d.items()
            b = beginning(k)
            if m == 1 and b in self.r:
                return self.r[b], c
        return None

    def last(self, t):
        e = ending(strip_cast(t))
        return self.r.get(e)

    def walk(self, L):
        """(what the loop walks over, term of the current element) when it is a loop over monomials."""
        if L.kind == 'rfor':
            g = L.range
            if g in self.r:
                return (self.r[g], 'all'), mk('elem', L.id, g)
            if g is not None and g.op == 'cbarg' and g.args[1] == 0:
                return ('part', g.args[0]), mk('elem', L.id, g)
            return None
        for k in L.init:
            s = self.pos(L.init[k])
            if s is None:
                b = strip_cast(L.init[k])
                bb = beginning(b) if b.op != 'lin' else None
                if bb is not None and bb.op == 'cbarg' and bb.args[1] == 0:
                    v = mk('lv', L.id, k)
                    c = truth(L.cond)
                    if L.step.get(k) is add(v, ONE) and any(ending(x) is bb for x in subterms(c)) and v in subterms(c):
                        return ('part', bb.args[0]), mk('deref', v)
                continue
            v = mk('lv', L.id, k)
            if L.step.get(k) is not add(v, ONE) or L.cond is None:
                continue
            c = truth(L.cond)
            es = [x for x in subterms(c) if self.last(x)]
            if len(es) != 1 or not (c.op == 'not' and c.args[0].op == 'eq' and set(c.args[0].args) == {v, es[0]} or c is lt(v, es[0])):
                if pure_cond(c):
                    raise Bad(L.loc, 'monomials are examined while %s' % show(c, 5)[:150])
                raise Unk('loop condition %s' % show(c, 4)[:120])
            r, off = s
            if self.last(es[0]) != r:
                raise Bad(L.loc, 'the loop starts in one range and ends in the other')
            if off not in (0, 1):
                raise Bad(L.loc, 'the loop starts at element %d' % off)
            return (r, 'all' if off == 0 else 'rest'), mk('deref', v)
        return None

    def element(self, t):
        """The monomial denoted by a term."""
        if t.op == 'deref':
            s = self.pos(t.args[0])
            if s:
                if s[1]:
                    raise Bad(self.loc, 'element %d of the range is taken for the first one' % s[1])
                return (s[0], 'first')
            t2 = t.args[0]
            if t2.op == 'lv':
                return ('cur', t2.args[0])
        if t.op == 'elem':
            return ('cur', t.args[0])
        raise Unk('element %s' % show(t, 3)[:80])

    # ---- exponents
    def chain(self, t):
        """[loops], base, body: a variable carried by loops over the exponents of a monomial (or over the variables)."""
        Ls = []
        b = None
        while t.op == 'lx':
            L = self.I.loops[t.args[0]]
            k = t.args[1]
            if self.walk(L) or L.kind == 'cb':
                break
            if not Ls:
                b = L.init[k]
            Ls.append((L, k))
            nx = L.step[k]
            if nx.op == 'lx' and self.I.loops[nx.args[0]].kind != 'cb' and not self.walk(self.I.loops[nx.args[0]]) and \
                    self.I.loops[nx.args[0]].init.get(nx.args[1]) is mk('lv', L.id, k):
                t = nx
                continue
            return Ls, b, nx
        return None

    def counter(self, L, n, extra=()):
        """The variable counting the iterations of a loop up to n."""
        c = truth(L.cond) if L.cond is not None else None
        ks = [k for k in L.init if L.step.get(k) is add(mk('lv', L.id, k), ONE)]
        return c, ks

    def eqcond(self, L, c, want):
        if logic.equiv(uncasts(c), uncasts(want)):
            return True
        if pure_cond(c):
            raise Bad(L.loc, 'exponents are read while %s' % show(c, 5)[:150])
        raise Unk('loop condition')

    def symbols(self, Ls, tmp=None):
        """Checks that the loops visit every exponent once; returns (monomial, term of the index)."""
        mm = self.mm
        for L, _ in Ls:
            if L.exits:
                raise Unk('loop over exponents with exits')
        L = Ls[-1][0]
        if tmp is None:
            # Over the variables only.
            c, ks = self.counter(L, None)
            ks = [k for k in ks if mk('lv', L.id, k) in set(subterms(c))]
            if len(Ls) != 1 or len(ks) != 1:
                raise Unk('loop over the variables')
            v = mk('lv', L.id, ks[0])
            self.zero(L, L.init[ks[0]])
            self.eqcond(L, c, lt(v, self.n))
            return None, v
        ku = tmp.args[2]
        if ku.op != 'lv' or ku.args[0] != L.id:
            raise Unk('value not read in the innermost loop')
        kk = ku.args[1]
        st = L.step[kk]
        if not (st.op == 'upd' and base(st.args[0]) == 'operator>>' and st.args[1] == 0 and st.args[2] is ku):
            raise Bad(L.loc, 'more than one exponent is read in every iteration') if st.op == 'upd' else Unk('reader')
        st0 = L.init[kk]
        if st0.op != 'ctor' or 'kunpacker' not in str(st0.args[0]) or len(st0.args) != 3:
            raise Unk('reader %s' % show(st0, 3)[:80])
        val, cnt = st0.args[1], strip_cast(st0.args[2])
        c, ks = self.counter(L, None)
        if not mm.d:
            if len(Ls) != 1:
                raise Unk('nested loops')
            ks = [k for k in ks if mk('lv', L.id, k) in set(subterms(c))]
            if len(ks) != 1:
                raise Unk('counter')
            v = mk('lv', L.id, ks[0])
            self.zero(L, L.init[ks[0]])
            self.eqcond(L, c, lt(v, self.n))
            if cnt is not self.n:
                raise Bad(L.loc, 'the code is read as %s exponents' % show(cnt, 3)[:60])
            if val.op != 'fld' or val.args[1] != 'm_value':
                raise Unk('code')
            return self.element(val.args[0]), v
        if len(Ls) != 2:
            raise Unk('nested loops')
        O = Ls[0][0]
        if cval(cnt) != mm.psize:
            raise Bad(L.loc, 'a block is read as %s exponents' % show(cnt, 3)[:60])
        # The block of the outer loop.
        if O.kind == 'rfor':
            cont = O.range
            if val is not mk('elem', O.id, cont):
                raise Unk('block')
        else:
            if val.op != 'idx' or val.args[1].op != 'lv' or val.args[1].args[0] != O.id:
                raise Unk('block')
            cont, i = val.args
            ik = i.args[1]
            self.zero(O, O.init[ik])
            if O.step[ik] is not add(i, ONE):
                raise Unk('block counter')
            oc = truth(O.cond)
            ok = [x for x in subterms(oc) if x.op == 'fld' and x.args[1] == 'm_container']
            if len(set(ok)) != 1 or oc is not lt(i, size(ok[0])) and strip_cond(oc) is not lt(i, size(ok[0])):
                if pure_cond(oc):
                    raise Bad(O.loc, 'blocks are read while %s' % show(oc, 5)[:150])
                raise Unk('block condition')
        if cont.op != 'fld' or cont.args[1] != 'm_container':
            raise Unk('blocks')
        js = [k for k in ks if mk('lv', L.id, k) in set(subterms(c)) and L.init[k].op == 'c']
        xs = [k for k in ks if mk('lv', L.id, k) in set(subterms(c)) and L.init[k] is mk('lv', O.id, k)]
        if len(js) > 1 or len(xs) != 1:
            raise Unk('counters')
        x = xs[0]
        self.zero(O, O.init[x])
        if O.step[x] is not mk('lx', L.id, x):
            raise Unk('index')
        v = mk('lv', L.id, x)
        if not js:
            raise Unk('counter in the block') if not pure_cond(c) else Bad(L.loc, 'exponents of a block are read while %s' % show(c, 5)[:150])
        j = mk('lv', L.id, js[0])
        self.zero(L, L.init[js[0]])
        self.eqcond(L, c, land(lt(j, C(mm.psize)), lt(v, self.n)))
        return self.element(cont.args[0]), v

    def zero(self, L, t):
        if strip_cast(t) is not ZERO:
            if t.op == 'c':
                raise Bad(L.loc, 'counting starts at %s' % show(t, 2))
            raise Unk('start %s' % show(t, 3)[:60])

    # ---- extrema
    def pick(self, t, path):
        """The component of a pair."""
        while path:
            n = path[0]
            if t.op == 'with' and t.args[1] == 'f':
                if t.args[2] == n:
                    t, path = t.args[3], path[1:]
                else:
                    t = t.args[0]
                continue
            if t.op == 'agg' and 'pair' in str(t.args[0]) and n in t.args[1]:
                t, path = t.args[2 + t.args[1].index(n)], path[1:]
                continue
            break
        return t, path

    def outside(self, t, path):
        """The extremum left in place because the value lies beyond the other end of the interval, as in
        if (v < lo) lo = v; else if (v > hi) hi = v;"""
        def get(x):
            return project(x, path) if path and '[]' not in path else x
        c, a, b = t.args[0], get(t.args[1]), get(t.args[2])
        if c.op == 'not':
            c, a, b = c.args[0], b, a
        if c.op != 'lt':
            return None
        if b.op not in ('ite', 'min', 'max'):
            return None
        m = minmax(b) if b.op == 'ite' else (b.op,) + b.args if b.op in ('min', 'max') and len(b.args) == 2 else None
        if not m or a not in m[1:]:
            return None
        v = m[2] if a is m[1] else m[1]
        here, there = ('second', 'first') if m[0] == 'max' else ('first', 'second')
        x, y = c.args if m[0] == 'max' else c.args[::-1]
        end = subst(a, lambda z: mk('fld', z.args[0], there) if z.op == 'fld' and z.args[1] == here else None)
        return b if x is v and end is not a and y is end else None

    def desc(self, t, path=()):
        t = self.peel(t)
        t, path = self.pick(t, path)
        t = self.peel(t)
        op = t.op
        if t in self.env:
            e = self.env[t]
            if isinstance(e, T):
                return self.desc(e, path)
            return D(None, None, {(e[0], e[1], path)})
        if op == 'fld':
            return self.desc(t.args[0], (t.args[1],) + path)
        if op == 'idx':
            self.indices.append(t.args[1])
            return self.desc(t.args[0], ('[]',) + path)
        if op == 'ite':
            m = minmax(t)
            if m:
                return self.join(m[0], [self.desc(x, path) for x in m[1:]])
            if path and '[]' not in path:
                x = project(t, path)
                if x.op != 'ite' or minmax(x):
                    return self.desc(x)
            o = self.outside(t, path)
            if o is not None:
                return self.desc(o)
            a, b = self.desc(t.args[1], path), self.desc(t.args[2], path)
            if a != b:
                raise Bad(self.loc, 'the limits are %s or %s, if %s' % (a, b, show(t.args[0], 3)[:80]))
            return a
        if op in ('min', 'max'):
            return self.join(op, [self.desc(x, path) for x in t.args if isinstance(x, T)])
        if op == 'upd' and base(t.args[0]) == 'reserve':
            return self.desc(t.args[2], path)
        if op == 'ctor' and (len(t.args) == 1 or all(strip_cast(x) is ZERO for x in t.args[1:])) and not re.search('kunpacker', str(t.args[0])):
            return NEW
        if op == 'c' and t is ZERO:
            return NEW
        if op == 'ctor' and 'mppp::integer' in str(t.args[0]) and len(t.args) == 2:
            return self.desc(t.args[1], path)
        if op == 'upd' and base(t.args[0]) == 'operator>>' and t.args[1] == 1:
            return self.reading(t)
        if op == 'call' and base(t.args[0]) == 'parallel_reduce':
            return self.reduced(t, path)
        if op == 'lx':
            return self.loop(t, path)
        if op == 'lv':
            e = self.env.get(t)
            raise Unk('variable %s' % show(t, 2))
        raise Unk('value %s' % show(t, 3)[:100])

    def peel(self, t):
        while t.op in ('cast', 'moved', 'copy', 'conv') and isinstance(t.args[-1], T):
            t = t.args[-1]
        return t

    def reading(self, t):
        """An exponent read in the innermost loop of the current chain."""
        if not self.stack:
            raise Unk('exponent read outside of a loop')
        el, ix = self.symbols(self.stack[-1], t)
        self.ix.add(ix)
        return D('val', 'exp', {el})

    def join(self, op, ds):
        ops = {d.op for d in ds if d is not NEW} - {None, 'val'}
        qs = {d.qty for d in ds if d is not NEW} - {None}
        if any(d is NEW for d in ds):
            raise Bad(self.loc, 'a limit starts from a fixed value instead of that of a monomial')
        if len(qs) > 1:
            raise Bad(self.loc, 'exponents and degrees are mixed')
        if ops - {op}:
            raise Bad(self.loc, 'the %s of a %s is taken' % (op, ', '.join(sorted(ops))))
        return D(op, qs.pop() if qs else None, frozenset().union(*[d.over for d in ds]))

    def loop(self, t, path):
        L = self.I.loops[t.args[0]]
        k = t.args[1]
        me = mk('lv', L.id, k)
        if L.kind == 'cb':
            if 'parallel_invoke' not in str(L.q):
                raise Unk('callback')
            self.env[me] = L.init[k]
            return self.desc(L.step[k], path)
        w = self.walk(L)
        if w:
            if L.exits:
                raise Unk('early exit')
            cover, el = w
            start = self.desc(L.init[k], path)
            self.env[me] = ('self', L.id)
            old = self.loc
            self.loc = L.loc
            one = self.desc(L.step[k], path)
            self.loc = old
            return self.fold(L, one, start, ('self', L.id, path), ('cur', L.id), cover)
        c = self.chain(t)
        if not c:
            raise Unk('loop')
        Ls, b, body = c
        L, k = Ls[-1]
        me = mk('lv', L.id, k)
        old = self.loc
        self.loc = L.loc
        self.stack.append(Ls)
        try:
            return self.carried(Ls, b, body, me, path, L)
        finally:
            self.stack.pop()
            self.loc = old

    def carried(self, Ls, b, body, me, path, L):
        idxs, self.indices = self.indices, []
        ixs, self.ix = self.ix, set()
        try:
            if path and path[0] == '[]':
                ix = cells(body, me)
                if ix is not None and len(ix) == 1:
                    # Every cell is written from its own value.
                    self.env[me] = b
                    i = next(iter(ix))
                    own = mk('idx', me, i)
                    x = project(own, path[1:], body, me)
                    self.indices.append(i)
                    if x is project(own, path[1:]):
                        raise Bad(L.loc, 'a limit is not updated')
                    r = self.desc(x)
                elif body.op == 'upd' and ROW.search(stem(body.args[0])) and body.args[1] == 0 and body.args[2] is me:
                    if self.desc(b) is not NEW:
                        raise Unk('pushed to a vector which is not empty')
                    a = body.args[3:]
                    if len(a) == 2 and len(path) > 1:
                        r = self.desc(a[('first', 'second').index(path[1])], path[2:])
                    elif len(a) == 1:
                        r = self.desc(a[0], path[1:])
                    else:
                        raise Unk('pushed values')
                    if r is NEW:
                        raise Bad(L.loc, 'a fixed value is stored as limit')
                else:
                    raise Unk('vector %s' % show(body, 3)[:100])
            else:
                x = None
                if body.op == 'upd' and base(body.args[0]) == 'operator+=' and body.args[1] == 0 and body.args[2] is me:
                    x = body.args[3]
                elif body.op == 'call' and base(body.args[0]) == 'operator+' and me in body.args[1:]:
                    x = [y for y in body.args[1:] if y is not me][0]
                elif body.op == 'lin' and not contains(sub(body, me), lambda y: y is me):
                    x = sub(body, me)
                if x is None:
                    raise (Bad(L.loc, 'the degree becomes %s' % show(body, 4)[:100]) if body.op == 'upd' and base(body.args[0]) in ('operator-=', 'operator*=') else Unk('scalar %s' % show(body, 3)[:100]))
                d = self.desc(x)
                if self.desc(b) is not NEW:
                    raise Unk('initial value of a degree')
                if d.op != 'val' or d.qty != 'exp':
                    raise Unk('degree of something else')
                r = D('val', 'deg', d.over)
            if not self.ix:
                _, v = self.symbols(Ls)
                self.ix = {v}
            bad = [i for i in self.indices if strip_cast(i) not in self.ix]
            if bad:
                if all(pure_ix(i) for i in bad):
                    raise Bad(L.loc, 'the limit number %s is used for the exponent number %s' % (show(bad[0], 3)[:60], show(next(iter(self.ix)), 2)))
                raise Unk('index')
            return r
        finally:
            self.indices, self.ix = idxs, ixs

    def fold(self, L, one, start, selfref, cur, cover):
        if one is NEW or start is NEW:
            raise Bad(L.loc, 'a limit starts from a fixed value instead of that of a monomial')
        selfs = {x for x in one.over if x[0] == 'self'}
        if selfs != {selfref}:
            raise Bad(L.loc, 'a limit is %s' % ('mixed with another limit' if selfs - {selfref} else 'overwritten'))
        rest = one.over - {selfref}
        if not rest:
            raise Bad(L.loc, 'a limit is not updated')
        if rest != {cur}:
            raise Bad(L.loc, 'a limit is updated from another monomial than the current one')
        return self.merge(L.loc, one, start, cover)

    def merge(self, loc, one, start, cover):
        if start.op not in (None, 'val', one.op) or one.op not in ('min', 'max'):
            raise Bad(loc, 'the %s of a %s is taken' % (one.op, start.op))
        if start.qty not in (None, one.qty):
            raise Bad(loc, 'exponents and degrees are mixed')
        return D(one.op, one.qty, start.over | {cover})

    def reduced(self, t, path):
        I = self.I
        a = t.args[1:]
        if len(a) < 4:
            raise Unk('reduction')
        rg = a[0]
        if rg.op != 'ctor' or 'blocked_range' not in str(rg.args[0]) or len(rg.args) < 3:
            raise Unk('range of the reduction')
        s, e = self.pos(rg.args[1]), self.last(rg.args[2])
        if s is None or e is None:
            raise Unk('range of the reduction')
        if s[0] != e:
            raise Bad(self.loc, 'the reduction starts in one range and ends in the other')
        if s[1] not in (0, 1):
            raise Bad(self.loc, 'the reduction starts at element %d' % s[1])
        cover = (s[0], 'all' if s[1] == 0 else 'rest')
        clos = tuple(str(x) for x in a[2:4])
        ls = [L for L in I.loops.values() if L.kind == 'cb' and 'parallel_reduce' in str(L.q) and tuple(str(x) for x in L.args[2:4]) == clos]
        bodies = [L for L in ls if any(isinstance(g.range, T) and g.range.op == 'cbarg' and g.range.args[:2] == (L.id, 0) for g in I.loops.values()) or
                  any(g.init and any(isinstance(v, T) and beginning(v) is not None and beginning(v).op == 'cbarg' and beginning(v).args[:2] == (L.id, 0) for v in g.init.values()) for g in I.loops.values())]
        joins = [L for L in ls if L not in bodies]
        if not bodies or not joins:
            raise Unk('functions of the reduction')
        B, J = bodies[-1], joins[-1]
        start = self.desc(a[1], path)
        self.env[cbarg_of(I, B, 1)] = ('self', B.id)
        old, self.loc = self.loc, B.loc
        one = self.desc(B.result, path)
        # What one task does, from the value it is given.
        selfs = {x for x in one.over if x[0] == 'self'} if one is not NEW else set()
        if selfs != {('self', B.id, path)}:
            raise Bad(B.loc, 'a limit is %s in a task' % ('mixed with another limit' if selfs else 'overwritten'))
        rest = one.over - selfs
        if rest != {('part', B.id)}:
            raise Bad(B.loc, 'a task does not examine its part of the range')
        # Results of two tasks.
        for i in (0, 1):
            self.env[cbarg_of(I, J, i)] = ('task', i)
        j = self.desc(J.result, path)
        if j is NEW:
            raise Bad(J.loc, 'the results of tasks are lost')
        if j.over != {('task', 0, path), ('task', 1, path)}:
            raise Bad(J.loc, 'the results of two tasks are not combined: %s' % ('one is lost' if len(j.over) < 2 else 'different limits are mixed'))
        if j.op != one.op:
            raise Bad(J.loc, 'the %s of the results of tasks is taken, each of which is a %s' % (j.op, one.op))
        self.loc = old
        return self.merge(self.loc, one, start, cover)

    # ---- the decision
    def limit(self, t):
        """One of the bounds of the packed representation or of the type."""
        t = strip_cast(t)
        if t.op == 'fld' and t.args[0].op == 'call' and base(t.args[0].args[0]) == 'kpack_get_lims':
            n = strip_cast(t.args[0].args[1])
            if n is self.n and not self.mm.d or self.mm.d and cval(n) == self.mm.psize:
                return ('exp', t.args[1])
            raise Bad(self.loc, 'the bounds are those for %s exponents' % show(n, 3)[:60])
        v = cval(t)
        if v is not None:
            lo, hi = (-(1 << (self.mm.bits - 1)), (1 << (self.mm.bits - 1)) - 1) if self.mm.signed else (0, (1 << self.mm.bits) - 1)
            if v == lo:
                return ('deg', 'first')
            if v == hi:
                return ('deg', 'second')
            return ('value', v)
        return None

    def total(self, t):
        """Sum of two limits."""
        t = strip_cast(t)
        if t.op == 'call' and base(t.args[0]) == 'operator+' and len(t.args) == 3:
            a = t.args[1:]
        elif t.op == 'call' and base(t.args[0]) == 'operator-' and len(t.args) == 3:
            if all(isinstance(self.desc(x), D) for x in t.args[1:]):
                raise Bad(self.loc, 'limits are subtracted')
            return None
        elif t.op == 'ctor' and len(t.args) == 2 and isinstance(t.args[1], T) and t.args[1].op == 'lin':
            return self.total(t.args[1])
        elif t.op == 'lin':
            c, d = logic.tm_lin(t)
            if c or len(d) != 2 or set(d.values()) != {1}:
                return None
            a = list(d)
            how = [e for e in self.I.trace if e.kind == 'arith' and e.q == '+' and e.res is t]
            if not how:
                raise Unk('sum of two limits')
            for e in how:
                ty = re.sub(r'\b(const|volatile) ', '', str(e.extra)).strip()
                if WIDTH.get(ty, 256) <= self.mm.bits and all(isinstance(self.desc(x), D) for x in a):
                    raise Bad(e.loc, 'the limits are added in the type %s, in which the sum may not be representable' % ty)
        else:
            return None
        ds = []
        for x in a:
            d = self.desc(x)
            if d is NEW:
                raise Bad(self.loc, 'a limit was never set')
            ds.append(d)
        return ds

    def atom(self, t, L, v):
        """A comparison of a total with a bound: boolean atom."""
        if t.op != 'lt':
            return None
        for side in (0, 1):
            try:
                b = self.limit(t.args[side])
            except Bad:
                raise
            if b is None:
                continue
            self.indices = []
            ds = self.total(t.args[1 - side])
            if ds is None:
                continue
            for i in self.indices:
                if strip_cast(i) is not v:
                    raise Bad(L.loc if L else self.loc, 'the limit number %s is compared' % show(i, 3)[:60]) if pure_ix(i) else Unk('index')
            where = L.loc if L else self.loc
            rs = [{x[0] for x in d.over} for d in ds]
            if sorted(map(sorted, rs)) != [[1], [2]]:
                raise Bad(where, 'the limits that are added are not one of each range: %s; %s' % tuple(ds))
            for d in ds:
                r = next(iter(d.over))[0]
                if d.over not in ({(r, 'first'), (r, 'rest')}, {(r, 'all')}, {(r, 'first'), (r, 'all')}):
                    raise Bad(where, 'only a part of the monomials is examined: %s' % d)
            if ds[0].op != ds[1].op or ds[0].qty != ds[1].qty:
                raise Bad(where, 'different kinds of limits are added: %s; %s' % tuple(ds))
            up = side == 0          # bound < total
            q = ds[0].qty
            want = 'second' if up else 'first'
            # The comparison bound < total (too large) or total < bound (too small); the negated ones arrive as negations.
            return mk('atom', '%s %s %s %s' % (q, ds[0].op, 'above' if up else 'below', b))
        return None

    def decide(self):
        mm = self.mm
        self.indices, self.ix, self.stack = [], set(), []
        r = uncasts(truth(self.I.ret))

        def conv(t, L, v):
            if t.op in ('and', 'or', 'not'):
                return {'and': land, 'or': lor, 'not': lnot}[t.op](*[conv(x, L, v) for x in t.args])
            if t.op == 'b':
                return t
            if t.op == 'ite' and t.args[1].op in ('b', 'and', 'or', 'not', 'lt', 'eq', 'ite', 'ex'):
                c, a, b = [conv(x, L, v) for x in t.args]
                return lor(land(c, a), land(lnot(c), b))
            if t.op == 'eq':
                if set(t.args) == {ZERO, self.n}:
                    return mk('atom', 'no variables')
                for x, y in (t.args, t.args[::-1]):
                    s = self.pos(x)
                    if s and s[1] == 0 and self.last(y) == s[0]:
                        return mk('atom', 'range %d is empty' % s[0])
                    if x is ZERO and y.op == 'size' and y.args[0] in self.r:
                        return mk('atom', 'range %d is empty' % self.r[y.args[0]])
            if t.op == 'ex' and L is None:
                Q = self.I.loops[t.args[0]]
                ks = [k for k in Q.init if Q.step.get(k) is add(mk('lv', Q.id, k), ONE)]
                c = truth(Q.cond)
                ks = [k for k in ks if mk('lv', Q.id, k) in set(subterms(c))]
                if len(ks) != 1:
                    raise Unk('loop over the limits')
                w = mk('lv', Q.id, ks[0])
                self.zero(Q, Q.init[ks[0]])
                cc = uncasts(c)
                parts = [x for x in conj(t.args[1]) if uncasts(x) is not cc]
                if not logic.equiv(cc, lt(w, self.n)):
                    raise Bad(Q.loc, 'limits are compared while %s' % show(c, 5)[:120]) if pure_cond(c) else Unk('loop over the limits')
                if len(parts) == len(conj(t.args[1])):
                    raise Unk('loop over the limits')
                return conv(uncasts(land(*parts)), Q, w)
            a = self.atom(t, L, v)
            if a is None and t.op in ('lt', 'eq') and self.n in set(subterms(t)) and all(
                    x.op in ('lt', 'eq', 'lin', 'c') or x is self.n or x in set(subterms(self.n)) for x in subterms(t)):
                # A condition on the number of variables alone.
                vals = [subst(t, lambda x: C(k) if x is self.n else None) for k in range(4)]
                if all(x.op == 'b' for x in vals):
                    one = [x is TRUE for x in vals]
                    if one[1:] == [not one[0]] * 3:
                        return mk('atom', 'no variables') if one[0] else lnot(mk('atom', 'no variables'))
                return mk('atom', show(t, 4))
            if a is None:
                raise Unk('condition %s' % show(t, 4)[:150])
            return a
        got = conv(r, None, None)
        A = lambda s: mk('atom', s)
        over = []
        for q, lims in (('exp', ('exp', 'exp')),) + ((('deg', ('deg', 'deg')),) if mm.d else ()):
            over.append(A('%s max above %s' % (q, ('exp', 'second') if q == 'exp' else ('deg', 'second'))))
            if mm.signed:
                over.append(A('%s min below %s' % (q, ('exp', 'first') if q == 'exp' else ('deg', 'first'))))
        want = lor(A('no variables'), A('range 1 is empty'), A('range 2 is empty'), lnot(lor(*over)))
        # An unsigned total is never below zero.
        assume = lnot(lor(*[A('%s max below %s' % (q, b)) for q in ('exp', 'deg') for b in (('exp', 'first'), ('deg', 'first'))])) if not mm.signed else TRUE
        return got, want, logic.equiv(got, want, assume=assume)


def cbarg_of(I, L, i):
    """The term of an argument of a callback."""
    for ev in I.trace:
        for a in list(ev.args) + ([ev.res] if isinstance(getattr(ev, 'res', None), T) else []):
            if isinstance(a, T):
                for x in subterms(a):
                    if x.op == 'cbarg' and x.args[:2] == (L.id, i):
                        return x
    for x in subterms(L.result):
        if x.op == 'cbarg' and x.args[:2] == (L.id, i):
            return x
    for g in I.loops.values():
        for v in list(g.init.values()) + list(g.step.values()):
            if isinstance(v, T):
                for x in subterms(v):
                    if x.op == 'cbarg' and x.args[:2] == (L.id, i):
                        return x
    raise Unk('argument of a task')


def minmax(t):
    """('min' or 'max', a, b) of a conditional selecting one of two compared values."""
    c, a, b = t.args
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if c.op == 'lt':
        x, y = c.args
        if (x, y) == (a, b):
            return 'min', a, b
        if (x, y) == (b, a):
            return 'max', a, b
    return None


def cells(t, me):
    """The indices of the cells of vector me which are replaced in t."""
    if t is me:
        return set()
    if t.op == 'with' and t.args[1] == 'i':
        r = cells(t.args[0], me)
        return None if r is None else r | {t.args[2]}
    if t.op == 'ite':
        r = [cells(x, me) for x in t.args[1:]]
        return None if None in r else r[0] | r[1]
    return None


def project(t, path, body=None, me=None):
    """The component of a value, with the reads of updated cells and fields resolved."""
    if body is not None:
        t = mk('idx', body, t.args[1])
    for n in path:
        t = mk('fld', t, n)
    return resolve(t, {})


def resolve(t, memo):
    r = memo.get(t)
    if r is not None:
        return r
    k = [resolve(x, memo) if isinstance(x, T) else x for x in t.args]
    r = t
    if any(x is not y for x, y in zip(k, t.args)):
        r = ite(*k) if t.op == 'ite' else mk(t.op, *k)
    if r.op in ('idx', 'fld'):
        w, kind = r.args[0], 'i' if r.op == 'idx' else 'f'
        if w.op == 'with' and w.args[1] == kind and (w.args[2] is r.args[1] or w.args[2] == r.args[1]):
            r = w.args[3]
        elif w.op == 'with' and w.args[1] == kind == 'f':
            r = resolve(mk('fld', w.args[0], r.args[1]), memo)
        elif w.op == 'ite':
            r = ite(w.args[0], *[resolve(mk(r.op, x, r.args[1]), memo) for x in w.args[1:]])
    memo[t] = r
    return r


def uncasts(t):
    """Without the conversions of sizes and positions (which the monomials are required to make exact)."""
    return subst(t, lambda x: uncasts(x.args[-1]) if x.op == 'cast' and x.args[0] in INTS else None)


INTS = {'unsigned int', 'unsigned long', 'int', 'long', 'unsigned long long', 'long long'}


def strip_cond(c):
    return uncasts(c)


def pure_cond(c):
    return all(x.op in ('lt', 'eq', 'and', 'or', 'not', 'lv', 'c', 'b', 'size', 'lin', 'p', 'cast', 'fld', 'deref', 'begin', 'end', 'ite', 'idx', 'elem', 'cbarg') for x in subterms(c))


def pure_ix(c):
    return all(x.op in ('lv', 'c', 'lin', 'cast', 'size', 'p') for x in subterms(c))


def check(mm):
    R = Ranges(mm)
    try:
        got, want, r = R.decide()
    except Bad as e:
        mm.ob(False, 'limits', e.loc or mm.loc, e.msg)
        return
    except (Unk, RecursionError) as e:
        mm.ob(None, 'limits', mm.loc, str(e))
        return
    mm.ob(bool(r), 'limits', mm.loc, 'the test succeeds if %s' % show(got, 6)[:300])


@rule('M09', ['monomials.cpp'], 'The limits that the overflow test compares are read back as extrema (least, largest) of the exponents and degrees over the '
      'monomials of each range, through the loops, the parallel reduction and its combination step; the decision is compared with interval arithmetic.', min_obligations=12)
def m09(cx):
    P = cx.progs['monomials.cpp']
    each(cx, P, 'overflow', 'overflow test', check, 16, m='r1', stops=lambda q, n: bool(STOP.search(q)), want_arith=True)
