"""Hash-consed terms with normalising constructors (the value-numbering domain)."""


class T:
    __slots__ = ('op', 'args', 'id', 'cache')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t.cache = None
        _tab[k] = t
    return t


def C(v):
    return mk('c', int(v))


TRUE = mk('b', True)
FALSE = mk('b', False)
ZERO = C(0)
ONE = C(1)


def is_c(t):
    return t.op == 'c'


def cval(t):
    if t.op == 'c':
        return t.args[0]
    if t.op == 'b':
        return int(t.args[0])
    return None


# ---- integer linear combinations -------------------------------------------------

def _lin(t):
    """Decompose into (const, {term: coef})."""
    if t.op == 'c':
        return t.args[0], {}
    if t.op == 'b':
        return int(t.args[0]), {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def _mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b):
    c1, d1 = _lin(a)
    c2, d2 = _lin(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return _mklin(c1 + c2, d1)


def scale(a, n):
    c, d = _lin(a)
    return _mklin(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def neg(a):
    return scale(a, -1)


def mul(a, b):
    if is_c(a):
        return scale(b, a.args[0])
    if is_c(b):
        return scale(a, b.args[0])
    # Pull constant factors out of single-term linear forms.
    k = 1
    fs = []
    for x in (a, b):
        if x.op == 'lin' and x.args[0] == 0 and len(x.args[1]) == 1:
            k *= x.args[1][0][1]
            x = x.args[1][0][0]
        if x.op == 'mul':
            fs.extend(x.args)
        else:
            fs.append(x)
    r = mk('mul', *sorted(fs))
    return scale(r, k) if k != 1 else r


# ---- booleans --------------------------------------------------------------------

def truth(t):
    """Coerce a term to a boolean condition."""
    if t.op == 'c':
        return TRUE if t.args[0] else FALSE
    if t.op in BOOL_OPS or t.op == 'b':
        return t
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == 'cast':
        return truth(t.args[1])
    return t


BOOL_OPS = {'not', 'and', 'or', 'lt', 'eq', 'fle', 'ex', 'b'}


def lnot(t):
    if t.op == 'b':
        return FALSE if t.args[0] else TRUE
    if t.op == 'c':
        return FALSE if t.args[0] else TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return lor(*[lnot(x) for x in t.args])
    if t.op == 'or':
        return land(*[lnot(x) for x in t.args])
    if t.op == 'ite' :
        return ite(t.args[0], lnot(truth(t.args[1])), lnot(truth(t.args[2])))
    return mk('not', t)


def _nary(op, unit, zero, ts):
    s = []
    seen = set()
    stack = list(ts)
    while stack:
        x = truth(stack.pop(0))
        if x is unit:
            continue
        if x is zero:
            return zero
        if x.op == op:
            stack = list(x.args) + stack
            continue
        if x not in seen:
            seen.add(x)
            s.append(x)
    dual = 'or' if op == 'and' else 'and'
    changed = True
    while changed:
        changed = False
        for x in s:
            if lnot(x) in seen:
                return zero
        # Unit propagation into the dual clauses, and absorption.
        for i, x in enumerate(s):
            if x.op == dual:
                others = seen - {x}
                if any(y in others for y in x.args):
                    s.pop(i)
                    seen.discard(x)
                    changed = True
                    break
                ys = [y for y in x.args if lnot(y) not in others]
                if len(ys) != len(x.args):
                    n = (lor if dual == 'or' else land)(*ys)
                    s.pop(i)
                    seen.discard(x)
                    if n is zero:
                        return zero
                    if n is not unit:
                        for z in (n.args if n.op == op else (n,)):
                            if z not in seen:
                                seen.add(z)
                                s.append(z)
                    changed = True
                    break
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    return mk(op, *sorted(s))


def land(*ts):
    return _nary('and', TRUE, FALSE, ts)


def lor(*ts):
    return _nary('or', FALSE, TRUE, ts)


def conj(t):
    """The conjuncts of a condition."""
    if t is TRUE:
        return ()
    if t.op == 'and':
        return t.args
    return (t,)


def disj(t):
    if t is FALSE:
        return ()
    if t.op == 'or':
        return t.args
    return (t,)


def eq(a, b):
    if a is b:
        return TRUE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return TRUE if ca == cb else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op in ('b', 'c') and y.op in BOOL_OPS:
            return y if cval(x) else lnot(y)
    if a.op == 'null' and b.op == 'addr' or b.op == 'null' and a.op == 'addr':
        return FALSE
    # Constant offsets on both sides cancel.
    la, lb = _lin(a), _lin(b)
    if (a.op == 'lin' or b.op == 'lin') and la[0] and lb[0] and not (a.op == 'c' or b.op == 'c'):
        return eq(_mklin(0, la[1]), _mklin(lb[0] - la[0], lb[1]))
    x, y = sorted((a, b))
    return mk('eq', x, y)


def lt(a, b):
    if a is b:
        return FALSE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return TRUE if ca < cb else FALSE
    return mk('lt', a, b)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    ab = a.op in BOOL_OPS
    bb = b.op in BOOL_OPS
    if ab or bb:
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
        if a is c:
            return lor(c, b)
        if b is c:
            return land(c, a)
    if c.op == 'lt':
        if c.args == (a, b):
            return mk('min', *sorted((a, b)))
        if c.args == (b, a):
            return mk('max', *sorted((a, b)))
    # Nested ites on the same condition.
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


def vmin(a, b):
    if a is b:
        return a
    return mk('min', *sorted((a, b)))


def vmax(a, b):
    if a is b:
        return a
    return mk('max', *sorted((a, b)))


# ---- traversal -------------------------------------------------------------------

def subterms(t, seen=None):
    """All distinct subterms (pre-order)."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(reversed(x.args))
        elif isinstance(x, tuple):
            st.extend(reversed(x))


def contains(t, p):
    for x in subterms(t):
        if p(x):
            return True
    return False


def rebuild(op, args):
    if op == 'lin':
        r = C(args[0])
        for k, v in args[1]:
            r = add(r, scale(k, v))
        return r
    if op == 'mul':
        r = args[0]
        for x in args[1:]:
            r = mul(r, x)
        return r
    if op == 'not':
        return lnot(args[0])
    if op == 'and':
        return land(*args)
    if op == 'or':
        return lor(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'min':
        return vmin(*args)
    if op == 'max':
        return vmax(*args)
    return mk(op, *args)


def subst(t, f, memo=None):
    """Bottom-up rewriting: f(term) -> replacement or None."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        n = f(x)
        if n is None:
            na = tuple(go(y) for y in x.args)
            n = x if na == x.args else rebuild(x.op, na)
            if n is not x:
                m = f(n)
                if m is not None:
                    n = m
        memo[x] = n
        return n

    return go(t)


def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '#%d' % t.id
    o, a = t.op, t.args
    d = depth - 1
    if o in ('c', 'b', 'str', 'flt'):
        return repr(a[0])
    if o == 'p':
        return a[0]
    if o == 'fld':
        return show(a[0], d) + '.' + str(a[1])
    if o == 'lin':
        r = ' + '.join((('%d*' % v) if v != 1 else '') + show(k, d) for k, v in a[1])
        return '(' + r + (' + %d' % a[0] if a[0] else '') + ')'
    if o == 'mul':
        return '(' + ' * '.join(show(x, d) for x in a) + ')'
    if o == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if o == 'lt':
        return '(%s < %s)' % (show(a[0], d), show(a[1], d))
    if o == 'not':
        return '!' + show(a[0], d)
    if o == 'and':
        return '(' + ' && '.join(show(x, d) for x in a) + ')'
    if o == 'or':
        return '(' + ' || '.join(show(x, d) for x in a) + ')'
    if o == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x, d) for x in a)
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
