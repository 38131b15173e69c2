"""Element scans: a loop (or a loop over blocks with an inner loop) seen as one flat loop over positions.

Normal forms inside the scan:  IDX position from the start, J position inside the block, E the extracted exponent,
cur(name) the value of a carried variable before an element, fin(name) its value after the scan,
at(X, IDX) the element of the sequence X at the position."""
from .rlib import *

IDX, J, E = mk('IDX'), mk('J'), mk('E')


def size(x):
    return mk('size', x)


def beginning(t):
    """X when t is an iterator to the beginning of X."""
    return t.args[-1] if isinstance(t, T) and show(t, 1).startswith('begin(') else None


def ending(t):
    return t.args[-1] if isinstance(t, T) and show(t, 1).startswith('end(') else None


def cases(t, limit=6):
    """The alternatives of a value: [(value, condition)]."""
    out = []

    def go(t, c, n):
        cs = next((x.args[0] for x in subterms(t) if x.op == 'ite'), None)
        if cs is None or n >= limit:
            out.append((t, c))
            return
        for tv in (True, False):
            c2 = land(c, cs if tv else lnot(cs))
            if c2 is FALSE:
                continue
            go(assume_in(t, {cs: tv}), c2, n + 1)
    go(t, TRUE, 0)
    return out


def when(t, pred):
    """(condition under which the value satisfies pred, remaining values)."""
    c, rest = FALSE, []
    for v, g in cases(t):
        if pred(v):
            c = lor(c, g)
        else:
            rest.append((v, g))
    return c, rest


class Flat:
    def __init__(self, I, inner, outer=None):
        self.I, self.L, self.P = I, inner, outer
        L, P = inner, outer
        if P is not None and L.parent != P.id:
            raise LookupError('nesting')
        if 'do' in (L.kind, P.kind if P is not None else None):
            raise LookupError('loop tested after its body')
        self.keys = {}         # key -> name
        self.local = set()     # keys fresh in each block
        self.pre = {}
        top = P or L
        raw = {}
        for k in L.init:
            if k not in L.step:
                continue
            if P is None:
                raw[k] = (L.init[k], L.step[k])
            elif k in P.init and L.init[k] is mk('lv', P.id, k) and P.step.get(k) is mk('lx', L.id, k):
                raw[k] = (P.init[k], L.step[k])
            else:
                self.local.add(k)
        # Variables of the outer loop untouched by the inner one.
        if P is not None:
            for k in P.init:
                if k not in L.init and k in P.step:
                    self.local.add(('outer', k))
        self.idx = None
        self.its = {}          # key -> sequence
        for k, (a, s) in raw.items():
            d = sub(s, mk('lv', L.id, k))
            if a is C(0) and d is C(1) and self.idx is None:
                self.idx = k
            elif d is C(1) and beginning(a) is not None:
                self.its[k] = beginning(a)
        self.jkey = None
        for k in self.local:
            if k in L.init and L.init[k].op == 'c' and sub(L.step[k], mk('lv', L.id, k)) is C(1):
                if self.jkey is None or L.init[k] is C(0):
                    self.jkey = k
        self.raw = raw
        self.names = {k: 'x%d' % i for i, k in enumerate(raw)}
        self.exkey = None      # extracted value
        self.exev = None
        self.memo = {}

    def set_extraction(self, e):
        """The event extracting the element of the position."""
        self.exev = e
        self.exval = mk('upd', e.q, 1, e.args[0], e.args[1])
        self.memo = {}

    def norm(self, t):
        L, P = self.L, self.P
        ids = {L.id} | ({P.id} if P else set())

        def f(x):
            if x.op == 'upd' and self.exev is not None and x is self.exval:
                return E
            if x.op == 'lv' and x.args[0] in ids:
                k = x.args[1]
                if k == self.idx:
                    return IDX
                if k == self.jkey and x.args[0] == L.id:
                    # The positions of a block are counted from zero.
                    return add(J, L.init[k])
                if k in self.its:
                    return mk('it', self.norm(self.its[k]), IDX)
                if k in self.names:
                    return mk('cur', self.names[k])
                return None
            if x.op == 'lx' and x.args[0] == (P or L).id:
                k = x.args[1]
                if k in self.names:
                    return mk('fin', self.names[k])
                return None
            if x.op == 'elem' and x.args[0] == L.id:
                return mk('at', self.norm(x.args[1]), IDX)
            if x.op == 'deref' and x.args[0].op == 'it':
                return mk('at', *x.args[0].args)
            if x.op == 'eq':
                a, b = x.args
                for u, v in ((a, b), (b, a)):
                    if u.op == 'it' and ending(v) is u.args[0]:
                        return lnot(lt(IDX, mk('size', u.args[0])))
            if x.op in ('conv',):
                return self.norm(x.args[1])
            return None
        return truth(subst(t, f, self.memo)) if t.op in BOOL_OPS else subst(t, f, self.memo)

    def var(self, name):
        for k, n in self.names.items():
            if n == name:
                return k
        return None

    def init(self, k):
        return self.raw[k][0]

    def step(self, k):
        return self.norm(self.raw[k][1])

    def cond(self):
        if self.L.kind == 'rfor':
            return lt(IDX, mk('size', self.L.range))
        return self.norm(self.L.cond)

    def guard(self, e, loops=None):
        """Condition of an event inside the scan, relative to the scan's own condition."""
        base = set(self.L.guards)
        if self.P is not None:
            base |= set(self.P.guards)
        c = self.L.cond
        cj = set(conj(c)) if c is not None else set()
        for l in e.loops:
            lp = self.I.loops[l]
            if lp is not self.L and lp is not self.P:
                c2 = lp.cond
                if c2 is not None:
                    cj |= set(conj(c2)) | {c2}
        return self.norm(land(*[g for g in e.guards if g not in base and g is not c and g not in cj]))


def exponent_scans(I, mono, psize):
    """Flat scans over the exponents of a monomial: the unpackers built from its stored codes.

    Returns a list of (Flat, problems) where problems are definite mismatches."""
    out = []
    for e in I.trace:
        if e.kind != 'call' or not e.q.endswith('kunpacker::operator>>') or not e.loops:
            continue
        L = I.loops[e.loops[-1]]
        u = e.args[0]
        if u.op != 'lv' or u.args[0] != L.id:
            raise LookupError('extraction from %s' % show(u, 4)[:200])
        k = u.args[1]
        a = L.init[k]
        if a.op != 'ctor' or len(a.args) != 3:
            raise LookupError('unpacker %s' % show(a, 4)[:200])
        code, n = strip_refs(a.args[1]), strip_size(a.args[2])
        P = None
        if psize is not None:
            if code.op != 'elem' or code.args[1] is not mk('fld', mono, 'm_container'):
                continue
            P = I.loops[code.args[0]]
        elif code is not mk('fld', mono, 'm_value'):
            continue
        F = Flat(I, L, P)
        F.set_extraction(e)
        F.ukey, F.n, F.mono = k, n, mono
        F.uncond = F.guard(e) is TRUE and L.step[k] is mk('upd', e.q, 0, *e.args)
        out.append(F)
    return out


def strip_refs(t):
    while t.op in ('deref',) and t.args[0].op in ('ref', 'addr'):
        t = t.args[0].args[0]
    if t.op == 'conv':
        return strip_refs(t.args[1])
    return t
