"""Structured abstract interpretation of exported function bodies in a
value-numbering (Herbrand) domain.

The walk visits every statement once per calling context (loop bodies twice: once
to find what they assign, once with those places made loop variables), merges at
joins with gated values, and never explores paths separately or asks a solver.
Calls to functions of the repository are inlined unless they are named primitives
of the rule at hand.  The result is a trace of events (calls, assignments, throws,
returns) each with the conditions, loops, handlers and calling context that
dominate it, and the returned value as a term over the parameters.
"""
import re

from .terms import *
from . import terms as tm

INTS = {
    'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    '__int128': (128, True), 'unsigned __int128': (128, False), 'wchar_t': (32, True), 'char16_t': (16, False),
    'char32_t': (32, False), 'char8_t': (8, False),
}
FLOATS = {'float', 'double', 'long double', '__float128'}

_strip_re = re.compile(r'\b(const|volatile)\b\s*')


def is_ref(t):
    # References to arrays are spelled T (&)[n].
    return t.endswith('&') or '(&)[' in t or '(&&)[' in t


def bare(t):
    """Type string without references and top-level cv (also drops inner const words)."""
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    t = _strip_re.sub('', t).strip()
    return t


def int_of(t):
    return INTS.get(bare(t))


class Place:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def sub(self, c):
        return Place(self.root, self.path + (c,))

    def key(self):
        return (self.root,) + self.path

    def __repr__(self):
        return 'Place(%s,%s)' % (self.root, self.path)


class Event:
    __slots__ = ('i', 'kind', 'q', 'args', 'guards', 'loops', 'tries', 'ctx', 'loc', 'ta', 'places', 'res', 'extra', 'node',
                 'pre')

    def __repr__(self):
        return '<%d %s %s(%s)%s%s @%s>' % (
            self.i, self.kind, self.q, ', '.join(show(a, 4) if isinstance(a, T) else str(a) for a in self.args),
            ' if ' + ' && '.join(show(g, 4) for g in self.guards) if self.guards else '',
            ' in ' + str(self.loops) if self.loops else '', self.loc)


LOCKS = re.compile(r'(const )?std::(lock_guard|unique_lock|scoped_lock|shared_lock)<')


class Loop:
    def __init__(self, lid, kind):
        self.id = lid
        self.kind = kind
        self.init = {}
        self.step = {}
        self.cond = None
        self.breaks = []
        self.range = None
        self.loc = ''
        self.parent = None
        self.q = None
        self.guards = ()


class State:
    __slots__ = ('store', 'guards')

    def __init__(self, store, guards):
        self.store = store
        self.guards = guards

    def copy(self):
        return State(dict(self.store), self.guards)


class Frame:
    __slots__ = ('fid', 'f', 'uid', 'env', 'this', 'returns', 'entry_guards', 'loopctl', 'loopdepth', 'q', 'byref_ret', 'tries')

    def __init__(self, f, uid):
        self.f = f
        self.fid = f['id'] if f else None
        self.uid = uid
        self.env = {}
        self.this = None
        self.returns = []
        self.loopctl = []
        self.q = f['q'] if f else ''
        self.tries = 0


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


IDENT = {
    'std::move', 'std::forward', 'std::as_const', 'std::launder', 'std::cref', 'std::ref',
    'obake::detail::ss_func_forward',
}
# std functions that do not modify what their mutable-reference parameters bind to.
PURE_STD = {
    'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::empty', 'std::get', 'std::get_if', 'std::data',
    'std::addressof', 'std::min', 'std::max', 'std::holds_alternative', 'std::find', 'std::find_if', 'std::distance',
    'std::next', 'std::prev', 'std::lower_bound', 'std::upper_bound', 'std::tie', 'std::forward_as_tuple',
    'std::make_pair', 'std::make_tuple', 'std::visit', 'std::apply', 'std::invoke', 'std::all_of', 'std::any_of',
    'std::none_of', 'std::is_sorted', 'std::accumulate', 'std::equal', 'std::for_each', 'std::max_element',
    'std::min_element', 'std::advance_copy', 'std::make_move_iterator', 'std::make_reverse_iterator',
    'boost::make_transform_iterator', 'boost::adaptors::transform', 'std::transform_reduce', 'std::make_unique',
    'std::operator==', 'std::operator!=', 'std::operator<', 'std::rbegin', 'std::rend', 'std::ssize', 'std::operator|',
}
CONSTY_METHODS = {
    'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'at', 'operator[]', 'front', 'back', 'data', 'find', 'count',
    'operator*', 'operator->', 'get', 'rbegin', 'rend', 'index_of', 'nth', 'key_eq', 'hash_function', 'max_size', 'bucket_count',
    'value', 'has_value', 'capacity', 'get_value', 'lower_bound', 'upper_bound', 'index', 'contains', 'local',
}


def is_variant(t):
    return bare(t).startswith('std::variant<')


def targs(t):
    """The template arguments of a type, or of an argument list."""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for c in t[i:]:
        if c in '<(':
            d += 1
            if d == 1:
                continue
        elif c in '>)':
            d -= 1
            if d == 0:
                break
        if c == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def varies(x):
    """A value that differs from call to call."""
    return x.op in ('p', 'lv', 'lx') or x.op == 'call' and str(x.args[0]).endswith('::load')


def contains_addr(t):
    return any(y.op == 'addr' for y in subterms(t))


class Interp:
    raw_throw = False
    exact = False          # comparisons of unsigned arithmetic keep its wrapping
    raw_range = False      # obake::begin/end are looked into

    def __init__(self, prog, stops=(), inline=None, max_events=200000, no_dtor=False, roots=('obake',)):
        self.P = prog
        self.stops = stops            # callable(q, node) -> bool, or a set of names
        self.inline = inline
        self.trace = []
        self.loops = {}
        self.nloop = 0
        self.nframe = 0
        self.ntmp = 0
        self.frames = []
        self.loopstack = []
        self.trystack = []
        self.nx_throws = []
        self.ctx = []
        self.written = None
        self.known = None      # rewriting of conditions: term -> replacement or None
        self.known_memo = {}
        self.dwrites = []
      # terms through which memory was written
        self.closures = {}
        self.dry = 0
        self.steps = 0
        self.max_steps = 4000000
        self.seen_funcs = {}
        self.loop_throws = {}
        self.unknown = []
        self.alts = None       # value of a variant -> index of the alternative it holds, or None
        self.same_object = None
        self.text = False       # formatted text is kept as a term
        self.placeinit = {}
        self.max_events = max_events

    # -- helpers --------------------------------------------------------------
    def loc(self, n):
        return self.P.loc(n)

    def ty(self, n):
        return self.P.types[n['t']] if n.get('t') is not None else ''

    def tmp(self):
        self.ntmp += 1
        return ('t', self.ntmp)

    def emit(self, kind, q, args, st, node=None, **kw):
        if self.dry:
            return None
        e = Event()
        e.i = len(self.trace)
        e.kind = kind
        e.q = q
        e.args = tuple(args)
        e.guards = st.guards
        e.loops = tuple(self.loopstack)
        e.tries = tuple(self.trystack)
        e.ctx = tuple(self.ctx)
        e.loc = self.loc(node) if node else ''
        if not e.loc:
            e.loc = self.curloc
        e.ta = kw.get('ta')
        e.places = kw.get('places')
        e.res = kw.get('res')
        e.extra = kw.get('extra')
        e.pre = kw.get('pre')
        e.node = node
        self.trace.append(e)
        if len(self.trace) > self.max_events:
            raise Budget('too many events')
        return e

    curloc = ''

    # -- store -----------------------------------------------------------------
    def root_init(self, root):
        k = root[0]
        if k == 'd':
            p = root[1]
            return mk('deref', p)
        if k == 'e':
            lp = self.loops[root[1]]
            return mk('elem', root[1], lp.range)
        if k == 'g':
            return mk('glob', root[1])
        v = self.placeinit.get(root)
        if v is not None:
            return v
        return mk('undef', str(root))

    def rd_root(self, st, root):
        v = st.store.get(root)
        if v is None:
            v = self.root_init(root)
        return v

    def rd1(self, v, c):
        n = 0
        while True:
            n += 1
            if v.op == 'with':
                k = (v.args[1], v.args[2])
                if k == c:
                    return v.args[3]
                if k[0] == 'f' and c[0] == 'f':
                    v = v.args[0]
                    continue
                if k[0] == 'i' and c[0] == 'i' and is_c(k[1]) and is_c(c[1]):
                    v = v.args[0]
                    continue
                break
            if v.op == 'ite' and (v.args[1].op in ('with', 'agg') or v.args[2].op in ('with', 'agg')):
                return ite(v.args[0], self.rd1(v.args[1], c), self.rd1(v.args[2], c))
            if v.op == 'agg':
                # agg(type, names, values...)
                names = v.args[1]
                if c[0] == 'f' and c[1] in names:
                    return v.args[2 + names.index(c[1])]
                if c[0] == 'i' and is_c(c[1]) and not names and c[1].args[0] + 2 < len(v.args):
                    return v.args[2 + c[1].args[0]]
            break
        if c[0] == 'f':
            return mk('fld', v, c[1])
        return mk('idx', v, c[1])

    def wr1(self, v, path, val):
        if not path:
            return val
        c = path[0]
        inner = self.wr1(self.rd1(v, c), path[1:], val) if len(path) > 1 else val
        # Overwrite an existing record of the same component.
        chain = []
        b = v
        while b.op == 'with':
            k = (b.args[1], b.args[2])
            if k == c:
                r = b.args[0]
                for (k2, v2) in reversed(chain):
                    r = mk('with', r, k2[0], k2[1], v2)
                return mk('with', r, c[0], c[1], inner)
            if not (k[0] == 'f' and c[0] == 'f') and not (k[0] == 'i' and c[0] == 'i' and is_c(k[1]) and is_c(c[1])):
                break
            chain.append((k, b.args[3]))
            b = b.args[0]
        return mk('with', v, c[0], c[1], inner)

    def branches(self, pl):
        """The places behind a pointer chosen by a condition: (condition, place, place)."""
        if pl.root[0] == 'd' and pl.root[1].op == 'ite':
            c, a, b = pl.root[1].args
            if all(x.op in ('addr', 'ite') for x in (a, b)):
                mkp = lambda x: Place(x.args[0], x.args[1] + pl.path) if x.op == 'addr' else Place(('d', x), pl.path)
                return c, mkp(a), mkp(b)
        return None

    def read(self, st, pl):
        br = self.branches(pl)
        if br is not None:
            return self.merge_v(br[0], self.read(st, br[1]), self.read(st, br[2]))
        v = self.rd_root(st, pl.root)
        for c in pl.path:
            v = self.rd1(v, c)
        return v

    def write(self, st, pl, val):
        br = self.branches(pl)
        if br is not None:
            c, a, b = br
            self.write(st, a, self.merge_v(c, val, self.read(st, a)))
            self.write(st, b, self.merge_v(c, self.read(st, b), val))
            return
        self.note_write(pl)
        if pl.root[0] == 'd' and not self.dry:
            self.dwrites.append(pl.root[1])
        v = self.rd_root(st, pl.root)
        st.store[pl.root] = self.wr1(v, pl.path, val)
        if pl.root[0] == 'e':
            lp = self.loops[pl.root[1]]
            rp = getattr(lp, 'rplace', None)
            if rp is not None:
                self.write(st, rp, mk('upd', 'elemwrite', self.read(st, rp), val))

    def note_write(self, pl):
        if self.written is not None:
            for w in self.written:
                w.setdefault(pl.key(), pl)

    def merge_v(self, c, a, b):
        if a is b:
            return a
        # Common base under functional updates.
        def chain(v):
            ks = []
            while v.op == 'with':
                ks.append(((v.args[1], v.args[2]), v))
                v = v.args[0]
            return v, ks
        ba, ka = chain(a)
        bb, kb = chain(b)
        if (ka or kb):
            bases_a = [x for _, x in ka] + [ba]
            common = None
            bset = {x for _, x in kb} | {bb}
            for x in bases_a:
                if x in bset:
                    common = x
                    break
            if common is not None:
                keys = []
                for ks in (ka, kb):
                    for k, x in ks:
                        if x is common:
                            break
                        if k not in keys:
                            keys.append(k)
                if all(k[0] == 'f' or is_c(k[1]) for k in keys):
                    r = common
                    for k in keys:
                        r = self.wr1(r, (k,), self.merge_v(c, self.rd1(a, k), self.rd1(b, k)))
                    return r
        return ite(c, a, b)

    def merge(self, c, s1, s2, base_guards):
        """Join of two live states under condition c (true in s1)."""
        store = {}
        if s1.store is s2.store:
            store = dict(s1.store)
        else:
            for k in set(s1.store) | set(s2.store):
                a = s1.store.get(k)
                b = s2.store.get(k)
                if a is b:
                    store[k] = a
                    continue
                if a is None:
                    a = self.root_init(k)
                if b is None:
                    b = self.root_init(k)
                if a.op == 'undef':
                    store[k] = b
                elif b.op == 'undef':
                    store[k] = a
                else:
                    store[k] = self.merge_v(c, a, b)
        return State(store, self.merge_guards(s1.guards, s2.guards, base_guards))

    def merge_guards(self, g1, g2, base):
        n = len(base)
        common = list(base) if g1[:n] == base and g2[:n] == base else []
        n = len(common)
        e1 = land(*g1[n:])
        e2 = land(*g2[n:])
        f = lor(e1, e2)
        if f is FALSE:
            return tuple(common) + (FALSE,)
        if f is TRUE:
            return tuple(common)
        out = list(common)
        cs = conj(f)
        for x in cs:
            if x not in out and _size(x) < 400:
                out.append(x)
        return tuple(out)

    def assume(self, st, c):
        """Add a condition; returns False if contradictory."""
        if self.known is not None:
            c = self.rewrite(c)
        for x in conj(truth(c)):
            if x is FALSE:
                return False
            if x in st.guards:
                continue
            if lnot(x) in st.guards:
                return False
            # Unit propagation with what is known.
            if x.op == 'or':
                ys = []
                sat = False
                for y in x.args:
                    if y in st.guards:
                        sat = True
                        break
                    if lnot(y) in st.guards:
                        continue
                    if y.op == 'and' and any(lnot(z) in st.guards for z in y.args):
                        continue
                    ys.append(y)
                if sat:
                    continue
                if not ys:
                    return False
                x = lor(*ys)
                if x.op != 'or':
                    if not self.assume(st, x):
                        return False
                    continue
            st.guards = st.guards + (x,)
        return True

    def rewrite(self, c):
        """Apply what the rule knows about the operands."""
        if self.known is None:
            return c
        def f(x):
            r = self.known(x)
            if r is None and x.op in ('shl', 'eq', 'lt', 'cast', 'band', 'bor') and any(y is TRUE or y is FALSE for y in x.args):
                r = rebuild(x.op, tuple(C(int(y is TRUE)) if y is TRUE or y is FALSE else y for y in x.args))
                if r.op == 'shl' and all(y.op == 'c' for y in r.args):
                    r = C(r.args[0].args[0] << r.args[1].args[0])
            return r
        return subst(c, f, self.known_memo)

    def decide(self, st, c):
        """Simplify a condition under the current guards."""
        c = truth(self.rewrite(c) if self.known is not None else c)
        if c.op == 'b':
            return c
        if c in st.guards:
            return TRUE
        if lnot(c) in st.guards:
            return FALSE
        if c.op == 'and':
            r = land(*[self.decide(st, x) for x in c.args])
            return r
        if c.op == 'or':
            return lor(*[self.decide(st, x) for x in c.args])
        return c

    # -- expressions -----------------------------------------------------------
    def ev(self, e, st):
        """Value of an expression."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget exhausted')
        if e is None:
            return mk('none')
        k = e['k']
        m = getattr(self, 'e_' + k.replace(':', '_'), None)
        if m is None:
            if k.startswith('x:'):
                if 'cv' in e:
                    return self.const(e)
                return mk('opq', k, *[self.ev(a, st) for a in e.get('a', [])])
            raise Unsupported('expr ' + k)
        return m(e, st)

    def const(self, e):
        v = int(e['cv'])
        if bare(self.ty(e)) == 'bool':
            return TRUE if v else FALSE
        return C(v)

    def e_int(self, e, st):
        v = int(e['v'])
        if bare(self.ty(e)) == 'bool':
            return TRUE if v else FALSE
        return C(v)

    def e_str(self, e, st):
        return mk('str', e['v'])

    def e_flt(self, e, st):
        return mk('flt', e['v'])

    def e_null(self, e, st):
        return mk('null')

    def e_zero(self, e, st):
        t = bare(self.ty(e))
        if t == 'bool':
            return FALSE
        if t in INTS:
            return ZERO
        if t.endswith('*'):
            return mk('null')
        return mk('ctor', t)

    def e_this(self, e, st):
        fr = self.frames[-1]
        th = self.this_place()
        if th is None:
            return mk('this')
        return self.addr(th)

    def this_place(self):
        return self.frames[-1].this

    def addr(self, pl):
        if pl.root[0] == 'd' and not pl.path:
            return pl.root[1]
        return mk('addr', pl.root, pl.path)

    def deref(self, v):
        if v.op == 'addr':
            return Place(v.args[0], v.args[1])
        if v.op == 'lin':
            pl = self.element(v, C(0))
            if pl is not None:
                return pl
        return Place(('d', v))

    def element(self, v, i):
        """The place i elements after a pointer into an array."""
        a = v if v.op == 'addr' else None
        if v.op == 'lin':
            c = [y for y in v.args if isinstance(y, T) and y.op == 'addr'] or [y for z in v.args if isinstance(z, tuple) for y in (z if not isinstance(z[0], tuple) else [w for u in z for w in u])
                                                                               if isinstance(y, T) and y.op == 'addr']
            if len(c) != 1 or contains_addr(sub(v, c[0])):
                return None
            a = c[0]
            i = add(i, sub(v, a))
        if a is None or not a.args[1] or a.args[1][-1][0] != 'i':
            return None
        k = a.args[1][-1][1]
        return Place(a.args[0], a.args[1][:-1]).sub(('i', add(k if isinstance(k, T) else C(k), i)))

    def e_typeid(self, e, st):
        return mk('typeid', self.P.ty(e.get('at')) if 'at' in e else '?')

    def e_sizeof(self, e, st):
        if 'cv' in e:
            return C(int(e['cv']))
        return mk('sizeof', self.P.ty(e['at']))

    def e_arrcopy(self, e, st):
        return self.ev(e['a'][0], st)

    def e_pdtor(self, e, st):
        return mk('none')

    def e_ref(self, e, st):
        if 'cv' in e and e.get('dk') != 'parm':
            return self.const(e)
        pl = self.lv(e, st)
        if pl is None:
            if e.get('dk') == 'func':
                return mk('fn', e.get('q'), e.get('f'))
            return mk('opq', 'ref', e.get('n'))
        return self.read(st, pl)

    def e_mem(self, e, st):
        if 'cv' in e:
            return self.const(e)
        return self.read(st, self.lv(e, st))

    def e_idx(self, e, st):
        return self.read(st, self.lv(e, st))

    def lookup(self, d):
        for fr in reversed(self.frames):
            if d in fr.env:
                return fr.env[d]
        return None

    def lv(self, e, st):
        """Place denoted by an expression, or None."""
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            if dk == 'func':
                return None
            if dk == 'glob':
                g = self.P.gvars.get(e['d'])
                return Place(('g', e.get('q') or e['n'], e['d']))
            if dk == 'slocal':
                pl = self.lookup(e['d'])
                return pl or Place(('g', e['n'], e['d']))
            pl = self.lookup(e['d'])
            if pl is None:
                # A capture whose frame is gone, or an unnamed thing.
                return Place(('x', e['n'], e['d']))
            return pl
        if k == 'this':
            return None
        if k == 'mem':
            if e.get('dk') == 'glob':
                return Place(('g', e['q'], e['d']))
            b = e['b']
            pl = self.base_place(b, st).sub(('f', e['n']))
            if e.get('d') in self.P.ref_members:
                v = self.read(st, pl)
                if v.op == 'addr':
                    return self.deref(v)
            return pl
        if k == 'idx':
            b, i = e['a']
            if 't' in b and bare(self.ty(b)).endswith('*'):
                v = self.ev(b, st)
                iv = self.ev(i, st)
                return self.element(v, iv) or self.deref(v).sub(('i', iv))
            bp = self.arr_place(b, st)
            iv = self.ev(i, st)
            return bp.sub(('i', iv))
        if k == 'un' and e['op'] == '*':
            v = self.ev(e['a'][0], st)
            return self.deref(v)
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e, st)
            return self.lv(e['a'][0], st)
        if k == 'asg':
            return self.asg(e, st)
        if k == 'cond':
            c = self.decide(st, self.ev(e['a'][0], st))
            if c is TRUE:
                return self.lv(e['a'][1], st)
            if c is FALSE:
                return self.lv(e['a'][2], st)
            return None
        if k == 'cast':
            c = e['c']
            if c in ('BaseToDerived', 'LValueBitCast', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'):
                return self.lv(e['a'][0], st)
            return None
        if k == 'call':
            r = self.call(e, st, want='lv')
            if isinstance(r, Place):
                return r
            rt = self.P.ty(e.get('rt', e.get('t')))
            pl = Place(self.tmp())
            st.store[pl.root] = r
            return pl
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'][0], st)
            return self.lv(e['a'][1], st)
        if k == 'init' and len(e['a']) == 1:
            return self.lv(e['a'][0], st)
        return None

    def base_place(self, b, st):
        """Place of the object a member access goes through (b may be a pointer)."""
        if b['k'] == 'this':
            th = self.this_place()
            return th if th is not None else Place(('d', mk('this')))
        t = self.ty(b).strip() if 't' in b else ''
        isptr = bare(t).endswith('*')
        if isptr:
            return self.deref(self.ev(b, st))
        if b['k'] == 'call' and b.get('op') == '->':
            return self.deref_obj(b, st)
        pl = self.lv(b, st)
        if pl is None:
            pl = Place(self.tmp())
            st.store[pl.root] = self.ev(b, st)
        return pl

    def deref_obj(self, b, st):
        v = self.call(b, st, want='lv')
        if isinstance(v, Place):
            return v if not bare(self.P.ty(b.get('rt', b.get('t')))).endswith('*') else self.deref(self.read(st, v))
        return self.deref(v)

    def arr_place(self, b, st):
        t = self.ty(b) if 't' in b else ''
        if bare(t).endswith('*'):
            return self.deref(self.ev(b, st))
        pl = self.lv(b, st)
        if pl is None:
            v = self.ev(b, st)
            pl = Place(self.tmp())
            st.store[pl.root] = v
        return pl

    def place_of(self, e, st):
        """Place for binding a reference to e (a temporary if e is a prvalue)."""
        pl = None
        if e['k'] in ('ref', 'mem', 'idx', 'un', 'asg', 'cond', 'cast', 'call', 'bin', 'init'):
            if e['k'] == 'ref' and 'cv' in e and e.get('dk') in ('enum',):
                pl = None
            elif e['k'] == 'bin' and e['op'] != ',':
                pl = None
            elif e['k'] == 'un' and not (e['op'] == '*' or (e['op'] in ('++', '--') and not e.get('post'))):
                pl = None
            else:
                pl = self.lv(e, st)
        if pl is None:
            v = self.ev(e, st)
            pl = Place(self.tmp())
            st.store[pl.root] = v
        return pl

    def e_init(self, e, st):
        t = bare(self.ty(e))
        vals = [self.ev(a, st) for a in e['a']]
        if t in INTS or t in FLOATS or t.endswith('*'):
            if not vals:
                return TRUE if False else (FALSE if t == 'bool' else ZERO)
            return vals[0]
        r = self.P.rec_by_t.get(t)
        if r is not None and len(r['fields']) == len(vals) and not r['bases']:
            return mk('agg', t, tuple(f['n'] for f in r['fields']), *vals)
        return mk('agg', t, (), *vals)

    def e_lambda(self, e, st):
        fr = self.frames[-1]
        env = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            d = c.get('d')
            if d is None:
                continue
            if 'init' in c:
                vt = self.P.ty(c.get('vt'))
                if vt.strip().endswith('&'):
                    env[d] = self.place_of(c['init'], st)
                else:
                    v = self.ev(c['init'], st)
                    pl = Place(('v', d, self.newuid()))
                    st.store[pl.root] = v
                    env[d] = pl
            elif not c['r']:
                src = self.lookup(d)
                v = self.read(st, src) if src is not None else mk('opq', 'cap', c.get('n'))
                if v.op == 'undef':
                    v = mk('opq', 'cap', c.get('n'))
                pl = Place(('v', d, self.newuid()))
                st.store[pl.root] = v
                env[d] = pl
        cid = self.newuid()
        self.closures[cid] = (e, env, list(self.frames), fr.this)
        return mk('clo', cid)

    def newuid(self):
        self.nframe += 1
        return self.nframe

    def e_new(self, e, st):
        args = [self.ev(a, st) for a in e['a']]
        pl = [self.ev(a, st) for a in e['pl']]
        size = self.ev(e['n'], st) if e.get('n') is not None else None
        ev = self.emit('new', 'new', args, st, e, extra=(self.ty(e), pl, size))
        if pl:
            p = self.deref(pl[0])
            if args:
                self.write(st, p, args[0])
            return pl[0]
        r = mk('newptr', self.ty(e), *args) if size is None else mk('newarr', self.ty(e), size, *args)
        if ev is not None:
            ev.res = r
        return r

    def e_delete(self, e, st):
        v = self.ev(e['a'][0], st)
        self.emit('delete', 'delete', (v,), st, e)
        return mk('none')

    def e_throw(self, e, st):
        args = [self.ev(a, st) for a in e.get('a', [])]
        tt = self.P.ty(e['tt']) if 'tt' in e else None
        self.throw(st, tt, args, e)
        return mk('none')

    def throw(self, st, tt, args, node):
        ev = self.emit('throw', bare(tt) if tt else 'rethrow', args, st, node)
        if ev is not None:
            ev.pre = dict(st.store)
            # A function that promises not to throw, left by this error: the program ends instead.
            for fr in reversed(self.frames):
                if any(self.trystack[fr.tries:]):
                    break
                if fr.f is not None and fr.f.get('nx'):
                    self.nx_throws.append((fr.f, ev))
                    break
            if self.loopstack and not self.trystack:
                c = None
                inner = list(st.guards)
                for l in reversed(self.loopstack):
                    og = set(self.loops[l].guards)
                    rel = land(*[g for g in inner if g not in og])
                    c = rel if c is None else land(rel, c)
                    c = mk('ex', l, c)
                    self.loop_throws.setdefault(l, []).append(c)
                    inner = [g for g in inner if g in og]
        st.guards = st.guards + (FALSE,)
        self.on_abrupt(st)

    def on_abrupt(self, st):
        pass

    def dead(self, st):
        return bool(st.guards) and st.guards[-1] is FALSE

    def e_cond(self, e, st):
        c = self.decide(st, self.ev(e['a'][0], st))
        if c is TRUE:
            return self.ev(e['a'][1], st)
        if c is FALSE:
            return self.ev(e['a'][2], st)
        base = st.guards
        s1, s2 = st.copy(), st.copy()
        ok1 = self.assume(s1, c)
        ok2 = self.assume(s2, lnot(c))
        a = self.ev(e['a'][1], s1) if ok1 else None
        b = self.ev(e['a'][2], s2) if ok2 else None
        d1 = not ok1 or self.dead(s1)
        d2 = not ok2 or self.dead(s2)
        if d1 and d2:
            st.guards = st.guards + (FALSE,)
            return mk('none')
        if d1:
            st.store, st.guards = s2.store, s2.guards
            return b
        if d2:
            st.store, st.guards = s1.store, s1.guards
            return a
        m = self.merge(c, s1, s2, base)
        st.store, st.guards = m.store, m.guards
        return ite(c, a, b)

    def logic(self, e, st):
        op = e['op']
        a = self.decide(st, self.ev(e['a'][0], st))
        if op == '&&' and a is FALSE:
            return FALSE
        if op == '||' and a is TRUE:
            return TRUE
        base = st.guards
        s1 = st.copy()
        g = a if op == '&&' else lnot(a)
        ok = self.assume(s1, g)
        if not ok:
            return a
        b = truth(self.ev(e['a'][1], s1))
        s2 = st.copy()
        if self.dead(s1):
            self.assume(st, lnot(g))
            return a
        if self.assume(s2, lnot(g)):
            m = self.merge(g, s1, s2, base)
        else:
            m = s1
        st.store, st.guards = m.store, m.guards
        return land(a, b) if op == '&&' else lor(a, b)

    def cast_int(self, v, to, frm=None):
        to = bare(to)
        if to == 'bool':
            if v.op in ('c', 'b'):
                return TRUE if cval(v) else FALSE
            if v.op in BOOL_OPS:
                return v
            if frm is not None and bare(frm) == 'bool':
                return v
            return lnot(eq(v, ZERO))
        if to in INTS:
            w, s = INTS[to]
            c = cval(v)
            if c is not None:
                c &= (1 << w) - 1
                if s and c >> (w - 1):
                    c -= 1 << w
                return C(c)
            if frm is not None and bare(frm) in INTS:
                fw, fs = INTS[bare(frm)]
                if fw < w and not fs and (v.op in ('mul', 'shl') or (w == 128 and v.op in ('lin', 'bnot'))):
                    # The narrower arithmetic wraps before it is widened.
                    return mk('cast', bare(frm), v)
                if fs == s and fw <= w:
                    return v
                if s and not fs and fw < w:
                    return v
            if v.op == 'cast' and v.args[0] == to:
                return v
            # A narrowing of a widening to the same type is the value itself.
            return mk('cast', to, v)
        return v

    def e_cast(self, e, st):
        c = e['c']
        sub_ = e['a'][0]
        if c in ('BaseToDerived', 'Dynamic'):
            return self.ev(sub_, st)
        v = self.ev(sub_, st)
        if 'cv' in e:
            return self.const(e)
        t = self.ty(e)
        if c == 'IntegralCast':
            return self.cast_int(v, t, self.ty(sub_) if 't' in sub_ else None)
        if c in ('IntegralToBoolean',):
            return self.cast_int(v, 'bool', self.ty(sub_) if 't' in sub_ else None)
        if c in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return lnot(eq(v, mk('null')))
        if c in ('FloatingToBoolean',):
            return lnot(eq(v, mk('flt', '0')))
        if c in ('ToVoid',):
            return mk('none')
        if c in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            return mk('cast', bare(t), v)
        return v

    def e_un(self, e, st):
        op = e['op']
        if op in ('++', '--'):
            return self.incdec(e, st)
        if op == '*':
            return self.read(st, self.lv(e, st))
        if op == '&':
            pl = self.lv(e['a'][0], st)
            if pl is None:
                v = self.ev(e['a'][0], st)
                if v.op == 'fn':
                    return v
                pl = Place(self.tmp())
                st.store[pl.root] = v
            return self.addr(pl)
        v = self.ev(e['a'][0], st)
        if op == '!':
            return lnot(truth(v))
        t = bare(self.ty(e))
        if op == '-':
            return neg(v) if t in INTS else mk('fneg', v)
        if op == '+':
            return v
        if op == '~':
            return mk('bnot', v) if not is_c(v) else C(~v.args[0])
        return mk('opq', 'un' + op, v)

    def incdec(self, e, st):
        pl = self.lv(e['a'][0], st)
        t = bare(self.ty(e))
        old = self.read(st, pl)
        if t.endswith('*'):
            new = self.ptr_add(old, 1 if e['op'] == '++' else -1)
        else:
            new = add(old, C(1 if e['op'] == '++' else -1))
        self.write(st, pl, new)
        self.emit('asg', e['op'], (old, new), st, e, places=(pl,))
        return old if e.get('post') else new

    def ptr_add(self, p, n):
        return add(p, C(n)) if isinstance(n, int) else add(p, n)

    def arith(self, op, a, b, t, ta=None, tb=None):
        t = bare(t)
        ints = t in INTS or t.endswith('*')
        if op == '+':
            if ints:
                if t in INTS:
                    r = self.rotation(a, b, INTS[t][0])
                    if r is not None:
                        return r
                return add(a, b)
            if t in FLOATS:
                return mk('fadd', *sorted((a, b)))
        elif op == '-':
            if ints or (ta and bare(ta).endswith('*')):
                return sub(a, b)
            if t in FLOATS:
                return mk('fsub', a, b)
        elif op == '*':
            if ints:
                return mul(a, b)
            if t in FLOATS:
                return mk('fmul', *sorted((a, b)))
        elif op in ('/', '%'):
            if is_c(a) and is_c(b) and b.args[0]:
                q = abs(a.args[0]) // abs(b.args[0])
                q = q if (a.args[0] < 0) == (b.args[0] < 0) else -q
                return C(q if op == '/' else a.args[0] - q * b.args[0])
            return mk({'/': 'div', '%': 'mod'}[op], a, b)
        elif op == '<<':
            if is_c(a) and is_c(b):
                return C(a.args[0] << b.args[0])
            return mk('shl', a, b)
        elif op == '>>':
            if is_c(a) and is_c(b):
                return C(a.args[0] >> b.args[0])
            return mk('shr', a, b)
        elif op in ('&', '|', '^'):
            if is_c(a) and is_c(b):
                x, y = a.args[0], b.args[0]
                return C({'&': x & y, '|': x | y, '^': x ^ y}[op])
            if t == 'bool' or (a.op in BOOL_OPS and b.op in BOOL_OPS):
                if op == '&':
                    return land(truth(a), truth(b))
                if op == '|':
                    return lor(truth(a), truth(b))
            if op in ('|', '^') and t in INTS:
                r = self.rotation(a, b, INTS[t][0])
                if r is not None:
                    return r
            return mk({'&': 'band', '|': 'bor', '^': 'bxor'}[op], *sorted((a, b)))
        return mk('bin', op, a, b)

    def rotation(self, a, b, w):
        for x, y in ((a, b), (b, a)):
            if x.op == 'shl' and y.op == 'shr' and x.args[0] is y.args[0] and is_c(x.args[1]) and is_c(y.args[1]):
                if x.args[1].args[0] + y.args[1].args[0] == w:
                    return mk('rotl', w, x.args[0], x.args[1])
        return None

    def cmp(self, op, a, b, t=None):
        fl = t is not None and bare(t) in FLOATS
        if fl and a is b and op in ('==', '!=') and cval(a) is None:
            # False for a value that is not a number.
            return mk('feq', a) if op == '==' else lnot(mk('feq', a))
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return lnot(eq(a, b))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if fl:
            return mk('fle', a, b) if op == '<=' else mk('fle', b, a)
        if op == '<=':
            return lnot(lt(b, a))
        if op == '>=':
            return lnot(lt(a, b))

    def e_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            if 'cv' in e:
                return self.const(e)
            return self.logic(e, st)
        if op == ',':
            self.ev(e['a'][0], st)
            return self.ev(e['a'][1], st)
        if 'cv' in e:
            return self.const(e)
        a = self.ev(e['a'][0], st)
        b = self.ev(e['a'][1], st)
        t0 = self.ty(e['a'][0]) if 't' in e['a'][0] else ''
        t1 = self.ty(e['a'][1]) if 't' in e['a'][1] else ''
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if self.exact:
                a, b = self.wrapped(a, t0), self.wrapped(b, t1)
            return self.cmp(op, a, b, t0)
        if op == '<=>':
            return mk('bin', op, a, b)
        r = self.arith(op, a, b, self.ty(e), t0, t1)
        if op in ('<<', '>>', '+', '-', '*', '/', '%') and not self.dry and getattr(self, 'want_arith', False):
            self.emit('arith', op, (a, b), st, e, extra=self.ty(e), res=r)
        return r

    def wrapped(self, v, t):
        it = INTS.get(bare(t))
        if it and not it[1] and it[0] >= 32 and v.op in ('lin', 'mul', 'shl', 'bnot'):
            return mk('cast', bare(t), v)
        return v

    def e_asg(self, e, st):
        pl = self.asg(e, st)
        return self.read(st, pl)

    def asg(self, e, st):
        op = e['op']
        rhs = self.ev(e['a'][1], st)
        pl = self.place_of(e['a'][0], st)
        if op == '=':
            new = rhs
            old = None
        else:
            old = self.read(st, pl)
            t = self.P.ty(e.get('ct', e.get('t')))
            new = self.arith(op[:-1], old, rhs, t)
            ft = self.ty(e)
            if bare(ft) != bare(t) and bare(ft) in INTS and bare(t) in INTS:
                if INTS[bare(ft)][0] < INTS[bare(t)][0] or (INTS[bare(ft)][1] and not INTS[bare(t)][1]):
                    pass  # narrowing back: keep the value
        self.emit('asg', op, (rhs, new), st, e, places=(pl,), extra=old)
        self.write(st, pl, new)
        return pl

    # -- calls -----------------------------------------------------------------
    def e_ctor(self, e, st):
        t = bare(self.ty(e))
        q = e.get('q', '')
        if e.get('cc') or e.get('mc'):
            if e['a']:
                f = self.P.funcs.get(e['f'])
                if f is not None and not f.get('def') and not self.is_stop(q, e) and self.can_inline(f):
                    pass
                else:
                    src = e['a'][0]
                    v = self.ev(src, st)
                    if e.get('mc'):
                        self.emit('move', t, (v,), st, e, places=(None,))
                    return v
        f = self.P.funcs.get(e['f'])
        if f is not None and not self.is_stop(q, e) and self.can_inline(f):
            pl = Place(self.tmp())
            if f.get('def') and not e['a']:
                st.store[pl.root] = mk('ctor', t)
            else:
                st.store[pl.root] = mk('new', t)
            self.invoke(f, e['a'], st, this=pl, node=e)
            return self.read(st, pl)
        if e.get('inh'):
            return mk('ctor', t, mk('inherited'))
        pls = [self.place_of(a, st) for a in e['a']]
        vals = [self.read(st, p) for p in pls]
        self.emit('ctor', q, vals, st, e, ta=t, places=pls)
        if t.startswith('std::basic_string<') and not vals:
            return mk('str', '')
        if t.startswith('std::basic_string<') and len(vals) >= 1 and vals[0].op == 'str' and (
                len(vals) == 1 or len(vals) == 2):
            return vals[0]
        if t.startswith('std::initializer_list'):
            return mk('agg', t, (), *vals)
        if len(vals) == 1 and vals[0].op != 'clo' and (
                t.startswith('std::function') or t.startswith('std::reference_wrapper')):
            return vals[0]
        if t.startswith('std::pair<') and len(vals) == 2:
            return mk('agg', t, ('first', 'second'), *vals)
        if t.startswith('std::tuple<') and vals:
            return mk('agg', t, (), *vals)
        if len(vals) == 1 and 'iterator' in t.split('<')[0] and 'reverse' not in t.split('<')[0]:
            return vals[0]
        r = mk('ctor', t, *[v for v in vals if v.op != 'none'])
        # Closures passed to constructors run whenever the object is used.
        return r

    def is_stop(self, q, node):
        s = self.stops
        if callable(s):
            return s(q, node)
        return q in s

    def can_inline(self, f):
        if f is None or f.get('body') is None:
            return False
        if len(self.frames) > 60:
            return False
        n = 0
        for fr in self.frames:
            if fr.fid == f['id']:
                return False
        if self.inline is not None and not self.inline(f):
            return False
        return True

    def e_call(self, e, st):
        r = self.call(e, st)
        if isinstance(r, Place):
            return self.read(st, r)
        return r

    def callee_name(self, e):
        q = e.get('q', '')
        if e.get('op') == '()' and e['a']:
            a0 = e['a'][0]
            if a0['k'] == 'ref' and a0.get('dk') == 'glob':
                return a0.get('q') or a0['n']
            if a0['k'] == 'init' and a0.get('t') is not None:
                return bare(self.ty(a0)) .split('<')[0] + '::operator()'
        return q

    def call(self, e, st, want=None):
        if 'cv' in e and e.get('q', '').startswith('std::'):
            return self.const(e)
        if 'fe' in e:
            fv = self.ev(e['fe'], st)
            if fv.op == 'fn':
                f = self.P.funcs.get(fv.args[1])
                if f is not None and not self.is_stop(f['q'], e) and self.can_inline(f):
                    return self.invoke(f, e['a'], st, node=e)
                q = fv.args[0]
            else:
                q = 'indirect'
            vals = [self.ev(a, st) for a in e['a']]
            self.emit('call', q, [fv] + vals, st, e)
            return mk('call', q, fv, *vals)
        q = self.callee_name(e)
        if q.startswith('fmt::') and not self.is_stop(q, e):
            if self.text:
                return mk('call', q, *[self.read(st, self.place_of(a, st)) for a in e['a']])
            return mk('msg')
        if not self.raw_throw and (e.get('nr') and 'ex_thrower' in e.get('cls_q', '') or q.endswith('ex_thrower::operator()')):
            tt = self.P.ty(e['cls'])
            i = tt.find('<')
            tt = tt[i + 1:-1] if i >= 0 else tt
            # The message does not matter to any rule; its computation has no effects on the state.
            self.throw(st, tt, [], e)
            return mk('none')
        stop = self.is_stop(q, e)
        if not stop:
            r = self.builtin(q, e, st, want)
            if r is not None:
                return r
        f = self.P.funcs.get(e['f'])
        # Direct call of a closure.
        if e.get('op') == '()' and not stop:
            fv = None
            a0 = e['a'][0]
            if a0['k'] in ('ref', 'lambda', 'mem', 'call', 'ctor', 'init', 'un', 'idx', 'cast'):
                if not (a0['k'] == 'ref' and a0.get('dk') == 'glob'):
                    p0 = self.place_of(a0, st)
                    fv = self.read(st, p0)
                    if fv.op == 'clo':
                        return self.call_closure(fv, f, e['a'][1:], st, e, want)
                    if f is not None and not f.get('lam') and self.can_inline(f):
                        return self.invoke(f, e['a'][1:], st, this=p0, node=e, want=want)
        if f is not None and not stop and self.can_inline(f):
            if f.get('def') and f.get('ca') or f.get('def') and f.get('ma'):
                rhs = self.ev(e['a'][1], st)
                pl = self.place_of(e['a'][0], st)
                self.emit('asg', '=', (rhs, rhs), st, e, places=(pl,))
                self.write(st, pl, rhs)
                return pl
            if e.get('m') and not e.get('st'):
                a0 = e['a'][0]
                th = self.base_place(a0, st)
                return self.invoke(f, e['a'][1:], st, this=th, node=e, want=want)
            args = e['a']
            if e.get('m') and e.get('st'):
                args = args[1:]
            elif e.get('op') == '()' and a_is_glob_callable(e):
                args = e['a'][1:]
                return self.invoke(f, args, st, this=Place(('g', q, 0)), node=e, want=want)
            return self.invoke(f, args, st, node=e, want=want)
        return self.opaque(q, e, st, want)

    def opaque(self, q, e, st, want):
        """A call that is not followed: functional result, mutable arguments updated."""
        args = e['a']
        pr = e.get('pr', '')
        off = 0
        places = []
        vals = []
        glob = a_is_glob_callable(e)
        if glob:
            args = args[1:]
        method = e.get('m') and not glob
        for i, a in enumerate(args):
            if method and i == 0:
                p = self.base_place(a, st)
                places.append(p)
                continue
            places.append(self.place_of(a, st))
        vals = [self.read(st, p) for p in places]
        qn = q
        mut = []
        nm = q.rsplit('::', 1)[-1]
        if method:
            off = 1
            if not e.get('cm') and not e.get('st') and nm not in CONSTY_METHODS:
                mut.append(0)
        base = q
        if not self.is_pure(base) and not nm.startswith('emplace') and nm != 'try_emplace':
            for i, ch in enumerate(pr):
                j = i + off
                if ch == 'r' and j < len(places):
                    mut.append(j)
                elif ch == 'p' and j < len(places):
                    mut.append(('p', j))
        ta = e.get('ta')
        res = mk('call', qn, *vals) if not ta or not self.ta_matters(qn) else mk('call', qn + ta, *vals)
        clos = [v for v in vals if v.op == 'clo' or (v.op == 'ctor' and any(isinstance(x, T) and x.op == 'clo' for x in v.args))]
        ev = self.emit('call', qn, vals, st, e, ta=ta, places=places, res=res)
        if clos:
            self.callbacks(qn, vals, places, st, e)
        if nm == 'add_term' and str(ta).startswith('<false'):
            qn += '<false>'
        for j in mut:
            if isinstance(j, tuple):
                p = self.deref(vals[j[1]])
                self.write(st, p, mk('upd', qn, j[1], *vals))
            else:
                # Values may have changed through callbacks; keep it simple.
                self.write(st, places[j], mk('upd', qn, j, *vals))
        if e.get('nr'):
            st.guards = st.guards + (FALSE,)
            return mk('none')
        rt = self.P.ty(e.get('rt', e.get('t')))
        if rt.strip().endswith('&'):
            return self.ref_result(q, nm, method, vals, places, res, st, e)
        return res

    def ta_matters(self, q):
        return True

    def is_pure(self, q):
        if q in PURE_STD:
            return True
        p = getattr(self, 'pure', None)
        if p is None:
            return q.startswith('obake::') and '::detail::' not in q and q.rsplit('::', 1)[-1] in DEFAULT_PURE
        return p(q)

    def ref_result(self, q, nm, method, vals, places, res, st, e):
        if nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator<<', 'operator>>',
                  'operator++', 'operator--', 'insert', 'append') and places:
            rt = bare(self.P.ty(e.get('rt', e.get('t'))))
            return places[0]
        if places and self.same_object is not None and self.same_object(q):
            return places[0]
        return Place(('d', mk('ref', res)))

    # Functions with known meaning.
    def builtin(self, q, e, st, want):
        a = e['a']
        nm = q.rsplit('::', 1)[-1]
        std = q.startswith('std::') or q.startswith('__gnu') or q.startswith('boost::container') or q.startswith('absl::')
        if q in IDENT and len(a) >= 1:
            if q == 'std::move' and not self.dry:
                pl = self.place_of(a[0], st)
                self.emit('stdmove', q, (self.read(st, pl),), st, e, places=(pl,))
                return pl
            return self.place_of(a[0], st)
        if q == '__builtin_expect':
            return self.ev(a[0], st)
        m = re.match(r'^__builtin_(add|sub|mul)_overflow$', q)
        if m and len(a) == 3:
            t = bare(self.ty(a[2])).rstrip('*').strip() if 't' in a[2] else ''
            if t in INTS and INTS[t][0] > 1:
                x, y = self.ev(a[0], st), self.ev(a[1], st)
                r = {'add': add, 'sub': sub, 'mul': mul}[m.group(1)](x, y)
                w, s = INTS[t]
                pl = self.deref(self.ev(a[2], st))
                if isinstance(pl, Place):
                    c = mk('cast', t, r)
                    self.emit('call', q, (x, y), st, e)
                    self.write(st, pl, c)
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
                    return lor(lt(r, C(lo)), lt(C(hi), r))
        if q == '__builtin_unreachable':
            st.guards = st.guards + (FALSE,)
            return mk('none')
        if q in ('std::addressof', '__builtin_addressof'):
            return self.addr(self.place_of(a[0], st))
        if q in ('std::min', 'std::max') and len(a) == 2:
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            t = bare(self.P.ty(e.get('rt')))
            cx, cy = cval(x), cval(y)
            if cx is not None and cy is not None:
                return C(min(cx, cy) if nm == 'min' else max(cx, cy))
            return (vmin if nm == 'min' else vmax)(x, y)
        if q == 'std::swap' or (nm == 'swap' and not e.get('m') and len(a) == 2):
            p1, p2 = self.place_of(a[0], st), self.place_of(a[1], st)
            v1, v2 = self.read(st, p1), self.read(st, p2)
            self.emit('call', 'std::swap', (v1, v2), st, e, places=(p1, p2))
            self.write(st, p1, v2)
            self.write(st, p2, v1)
            return mk('none')
        if q == 'std::exchange':
            p1 = self.place_of(a[0], st)
            v2 = self.ev(a[1], st)
            v1 = self.read(st, p1)
            self.emit('asg', '=', (v2, v2), st, e, places=(p1,))
            self.write(st, p1, v2)
            return v1
        if q in ('std::rotl', 'std::rotr') and len(a) == 2:
            x, n = self.ev(a[0], st), self.ev(a[1], st)
            w = INTS.get(bare(self.P.ty(e.get('rt'))))
            if w and is_c(n):
                k = n.args[0] % w[0]
                return mk('rotl', w[0], x, C(k if nm == 'rotl' else (w[0] - k) % w[0]))
            return None
        if self.alts is not None and q in ('std::visit', 'std::holds_alternative', 'std::get_if', 'std::get') and a:
            r = self.variants(e, q, a, st, want)
            if r is not None:
                return r
        if self.alts is not None and e.get('m') and nm in ('index', 'valueless_by_exception') and is_variant(self.P.ty(a[0].get('t'))):
            i = self.alts(self.read(st, self.base_place(a[0], st)))
            if i is not None:
                return C(i) if nm == 'index' else FALSE
        if q == 'std::apply' and len(a) == 2:
            fv = self.ev(a[0], st)
            tv = self.place_of(a[1], st)
            self.emit('call', q, (fv, self.read(st, tv)), st, e)
            if fv.op == 'clo':
                t = self.read(st, tv)
                ops = self.closures[fv.args[0]][0]['ops']
                fns = [self.P.funcs[i] for i in ops if i in self.P.funcs]
                if len(fns) == 1:
                    n = len(fns[0]['params'])
                    args = [tv.sub(('i', C(i))) for i in range(n)]
                    return self.run_closure(fv, fns[0], args, st, e, want)
            return None
        op = e.get('op')
        cls = self.P.ty(e.get('cls')) if 'cls' in e else ''
        # Comparison operators of library types.
        if op == '<=>' and len(a) == 2 and std:
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            self.emit('call', q, (x, y), st, e)
            return mk('cmp3', x, y)
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2 and std and a[0].get('op') == '<=>':
            x = self.ev(a[0], st)
            if x.op == 'cmp3':
                return self.cmp(op, *x.args)
            return mk('call', q, x)
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2 and (std or q.startswith('mppp::') or q.startswith('boost::')):
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            self.emit('call', q, (x, y), st, e)
            return self.cmp(op, x, y)
        if nm in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty') and not (self.raw_range and q.startswith('obake::')) and (std or cls.startswith('std::') or nm and q in (
                'obake::begin', 'obake::end', 'obake::cbegin', 'obake::cend', 'boost::begin', 'boost::end')):
            args = a[1:] if a_is_glob_callable(e) else a
            if len(args) != 1:
                return None
            if e.get('m'):
                p = self.base_place(args[0], st)
            else:
                p = self.place_of(args[0], st)
            v = self.read(st, p)
            t = nm.lstrip('c') if nm in ('cbegin', 'cend') else nm
            self.emit('call', t, (v,), st, e, places=(p,))
            if t == 'empty':
                return eq(self.size_of(v), ZERO)
            if t == 'size':
                return self.size_of(v)
            return mk(t, v)
        if q == 'std::distance' and len(a) == 2:
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            if x.op == 'begin' and y.op == 'end' and x.args[0] is y.args[0]:
                return self.size_of(x.args[0])
            return sub(y, x)
        if q in ('std::next', 'std::prev') and a:
            x = self.ev(a[0], st)
            n = self.ev(a[1], st) if len(a) > 1 else ONE
            return add(x, n) if nm == 'next' else sub(x, n)
        if q == 'std::get' and len(a) == 1:
            ta = e.get('ta', '')
            p = self.place_of(a[0], st)
            m = re.match(r'^<(\d+)[UL]*,', ta)
            at = bare(self.ty(a[0]) if 't' in a[0] else '')
            if m:
                i = int(m.group(1))
                if 'std::pair<' in at[:12]:
                    return p.sub(('f', 'first' if i == 0 else 'second'))
                return p.sub(('i', C(i)))
            m = re.match(r'^<(.*?)(, |>$)', ta)
            return p.sub(('f', '<' + ta.strip('<>') + '>'))
        if q in ('std::make_pair', 'std::make_tuple', 'std::forward_as_tuple', 'std::tie'):
            vals = [self.ev(x, st) for x in a]
            if nm == 'make_pair':
                return mk('agg', 'std::pair', ('first', 'second'), *vals)
            return mk('agg', 'std::tuple', (), *vals)
        itlike = 'iterator' in cls or 'iterator' in q
        if op == '*' and len(a) == 1 and (std or itlike or cls):
            f = self.P.funcs.get(e['f'])
            if f is not None and f.get('body') is not None and not itlike:
                return None
            v = self.ev(a[0], st)
            return self.deref_it(v)
        if op == '->' and len(a) == 1:
            f = self.P.funcs.get(e['f'])
            if f is not None and f.get('body') is not None and not itlike:
                return None
            v = self.ev(a[0], st)
            pl = self.deref_it(v)
            return self.addr(pl)
        if op in ('++', '--') and (std or itlike):
            pl = self.place_of(a[0], st)
            old = self.read(st, pl)
            new = add(old, C(1 if op == '++' else -1))
            self.emit('asg', op, (old, new), st, e, places=(pl,))
            self.write(st, pl, new)
            if len(a) > 1:
                return old
            return pl
        free_it = op in ('+', '-') and len(a) == 2 and q.startswith('boost::container::operator') and \
            any('t' in y and re.search(r'^(const )?[\w:]*iterator<', bare(self.ty(y))) for y in a)
        if (itlike or free_it) and op in ('+', '-', '+=', '-=') and len(a) == 2:
            x = self.ev(a[0], st)
            y = self.ev(a[1], st)
            # A position within a container is below 2**63: the change of
            # sign between size and difference types keeps it.
            while y.op == 'cast' and y.args[0] in ('long', 'unsigned long', 'long long', 'unsigned long long'):
                y = y.args[1]
            r = add(x, y) if op[0] == '+' else sub(x, y)
            if len(op) == 2:
                pl = self.place_of(a[0], st)
                self.emit('asg', op, (x, r), st, e, places=(pl,))
                self.write(st, pl, r)
                return pl
            return r
        if op == '[]' and len(a) == 2 and (std or cls.startswith('std::') or cls.startswith('boost::container')):
            if 'unordered_map' in cls or 'std::map<' in cls:
                return None
            p = self.base_place(a[0], st)
            i = self.ev(a[1], st)
            self.emit('call', q, (self.read(st, p), i), st, e, places=(p,))
            if itlike:
                return self.deref_it(add(self.read(st, p), i))
            return p.sub(('i', i))
        if nm in ('at', 'nth') and e.get('m') and len(a) == 2 and std and 'map' not in cls:
            p = self.base_place(a[0], st)
            i = self.ev(a[1], st)
            self.emit('call', q, (self.read(st, p), i), st, e, places=(p,))
            if nm == 'nth':
                return add(mk('begin', self.read(st, p)), i)
            return p.sub(('i', i))
        if nm == 'index_of' and e.get('m') and len(a) == 2:
            p = self.base_place(a[0], st)
            i = self.ev(a[1], st)
            return sub(i, mk('begin', self.read(st, p)))
        if nm in ('front', 'back') and e.get('m') and std and len(a) == 1:
            p = self.base_place(a[0], st)
            self.emit('call', q, (self.read(st, p),), st, e, places=(p,))
            if nm == 'front':
                return p.sub(('i', ZERO))
            return p.sub(('i', sub(self.size_of(self.read(st, p)), ONE)))
        if nm in ('load', 'fetch_add', 'test_and_set', 'clear', 'store') and 'atomic' in cls:
            return None
        if op == '=' and (std or q.startswith('mppp::') or q.startswith('boost::') or q.startswith('absl::')) and len(a) == 2:
            rhs = self.ev(a[1], st)
            pl = self.place_of(a[0], st)
            lt_ = bare(cls)
            rt_ = bare(self.ty(a[1]) if 't' in a[1] else cls)
            val = rhs if (rt_ == lt_ or not lt_) else mk('conv', lt_, rhs)
            if lt_.startswith('std::basic_string') and rhs.op == 'str':
                val = rhs
            if rhs.op in ('agg',) :
                val = rhs
            if rhs.op == 'clo':
                val = rhs
            self.emit('asg', '=', (rhs, val), st, e, places=(pl,))
            self.write(st, pl, val)
            return pl
        if nm == 'operator bool':
            return None
        if q in ('std::all_of', 'std::any_of', 'std::none_of') and len(a) == 3:
            return self.quant(nm, a, st, e)
        if q == 'std::for_each' and len(a) == 3:
            self.foreach(a, st, e)
            return mk('none')
        return None

    def size_of(self, v):
        if v.op == 'agg' and not v.args[1]:
            return C(len(v.args) - 2)
        if v.op == 'str':
            return C(len(v.args[0]))
        return mk('size', v)

    def deref_it(self, v):
        """Place of *iterator."""
        if v.op == 'addr':
            return Place(v.args[0], v.args[1])
        if v.op == 'lin':
            pl = self.element(v, C(0))
            if pl is not None:
                return pl
        return Place(('d', v))

    def element(self, v, i):
        """The place i elements after a pointer into an array."""
        a = v if v.op == 'addr' else None
        if v.op == 'lin':
            c = [y for y in v.args if isinstance(y, T) and y.op == 'addr'] or [y for z in v.args if isinstance(z, tuple) for y in (z if not isinstance(z[0], tuple) else [w for u in z for w in u])
                                                                               if isinstance(y, T) and y.op == 'addr']
            if len(c) != 1 or contains_addr(sub(v, c[0])):
                return None
            a = c[0]
            i = add(i, sub(v, a))
        if a is None or not a.args[1] or a.args[1][-1][0] != 'i':
            return None
        k = a.args[1][-1][1]
        return Place(a.args[0], a.args[1][:-1]).sub(('i', add(k if isinstance(k, T) else C(k), i)))

    # -- variants, whose alternatives are those of the case being analysed ------------
    def variants(self, e, q, a, st, want):
        vs = a[1:] if q == 'std::visit' else a[:1]
        pls, idx, tys = [], [], []
        for x in vs:
            t = self.P.ty(x.get('t')) if q != 'std::get_if' else self.P.ty(x.get('t')).rstrip(' *')
            if not is_variant(t):
                return None
            if q == 'std::get_if':
                v = self.ev(x, st)
                if v.op != 'addr':
                    return None
                pl = Place(v.args[0], v.args[1])
            else:
                pl = self.place_of(x, st)
            i = self.alts(self.read(st, pl))
            ts = targs(t)
            if i is None or i >= len(ts):
                return None
            pls.append(pl)
            idx.append(i)
            tys.append(ts)
        if q == 'std::visit':
            fv = self.ev(a[0], st)
            if fv.op != 'clo':
                return None
            fns = [self.P.funcs[i] for i in self.closures[fv.args[0]][0]['ops'] if i in self.P.funcs]
            ok = [f for f in fns if len(f['params']) == len(vs) and all(
                bare(self.P.ty(p['t'])) == bare(ts[i]) for p, ts, i in zip(f['params'], tys, idx))]
            if not ok:
                ok = fns if len(fns) == 1 else []
            if len(ok) != 1:
                return None
            return self.run_closure(fv, ok[0], [pl.sub(('i', C(i))) for pl, i in zip(pls, idx)], st, e, want)
        ta = targs(e.get('ta', ''))
        if not ta:
            return None
        m = re.match(r'^(\d+)[UL]*$', ta[0])
        ws = [int(m.group(1))] if m else [i for i, t in enumerate(tys[0]) if bare(t) == bare(ta[0])]
        if len(ws) != 1:
            return None
        hit = ws[0] == idx[0]
        if q == 'std::holds_alternative':
            return TRUE if hit else FALSE
        pl = pls[0].sub(('i', C(ws[0])))
        if q == 'std::get_if':
            return mk('addr', pl.root, pl.path) if hit else ZERO
        if not hit:
            return None
        return pl

    # -- inlining ----------------------------------------------------------------
    def call_closure(self, fv, f, args, st, e, want=None):
        pls = []
        node, env, frames, this = self.closures[fv.args[0]]
        if f is None or f['id'] not in node['ops']:
            fns = [self.P.funcs[i] for i in node['ops'] if i in self.P.funcs]
            if f is None and len(fns) == 1:
                f = fns[0]
            elif f is None:
                self.unknown.append('closure without a unique body at ' + self.loc(e))
                return mk('opq', 'clo', fv)
        if f.get('body') is None or not self.can_inline(f):
            vals = [self.ev(a, st) for a in args]
            self.emit('call', 'closure', [fv] + vals, st, e)
            return mk('call', 'closure', fv, *vals)
        return self.run_closure(fv, f, args, st, e, want)

    def run_closure(self, fv, f, args, st, e, want=None):
        node, env, frames, this = self.closures[fv.args[0]]
        return self.invoke(f, args, st, this=this, node=e, want=want, cenv=env)

    def bind_param(self, fr, p, a, st):
        """Bind one parameter to an argument (an expression, a place, or a value)."""
        t = self.P.ty(p['t']).strip()
        if isinstance(a, T):
            pl = Place(('v', p['d'], fr.uid))
            st.store[pl.root] = a
            fr.env[p['d']] = pl
            return
        if is_ref(t):
            fr.env[p['d']] = a if isinstance(a, Place) else self.place_of(a, st)
            return
        v = None
        if isinstance(a, dict) and t.endswith('*') and not re.match(r'const\b', t) and 't' in a and self.ty(a).strip().endswith(']'):
            # An array the function may write to.
            to = self.place_of(a, st)
            if to is not None:
                v = mk('addr', to.root, to.path + (('i', C(0)),))
        if v is None:
            v = self.read(st, a) if isinstance(a, Place) else self.ev(a, st)
        pl = Place(('v', p['d'], fr.uid))
        st.store[pl.root] = v
        fr.env[p['d']] = pl

    def invoke(self, f, args, st, this=None, node=None, want=None, cenv=None):
        fr = Frame(f, self.newuid())
        fr.this = this
        if cenv:
            fr.env.update(cenv)
        ps = f['params']
        for i, p in enumerate(ps):
            if i < len(args):
                self.bind_param(fr, p, args[i], st)
            else:
                pl = Place(('v', p['d'], fr.uid))
                st.store[pl.root] = mk('opq', 'defarg', p['n'])
                fr.env[p['d']] = pl
        fr.byref_ret = self.P.ty(f['ret']).strip().endswith('&')
        if self.dead(st):
            return mk('none')
        if not self.dry:
            self.seen_funcs[f['id']] = f
        fr.tries = len(self.trystack)
        self.frames.append(fr)
        self.ctx.append((f['q'], self.loc(node) if node else '', f['id']))
        saved_loc = self.curloc
        ev = self.emit('enter', f['q'], [self.read(st, fr.env[p['d']]) for p in ps], st, node, ta=f.get('ta'),
                       places=[fr.env[p['d']] for p in ps], extra=(this, f['id']))
        base = st.guards
        try:
            if f.get('kind') == 'ctor':
                self.ctor_inits(f, fr, st)
            out = self.block_scope(f['body'], st) if f['body'] is not None else st
        finally:
            self.frames.pop()
            self.ctx.pop()
            self.curloc = saved_loc
        if out is not None and not self.dead(out):
            fr.returns.append((out, mk('none'), None))
        live = [r for r in fr.returns if not self.dead(r[0])]
        if not live:
            st.guards = st.guards + (FALSE,)
            return mk('none')
        val, pl, ns = self.join_returns(live, base)
        st.store, st.guards = ns.store, ns.guards
        if ev is not None:
            ev.res = val
        self.emit('exit', f['q'], (val,), st, node, extra=(ev.i if ev else None, f['id']))
        if fr.byref_ret and pl is not None:
            return pl
        return val

    def join_returns(self, live, base):
        if len(live) == 1:
            s, v, pl = live[0]
            return v, pl, s
        # Fold from the last.
        n = len(base)

        def rel(g):
            # guards beyond the entry ones
            b = set(base)
            return land(*[x for x in g if x not in b])
        s, v, pl = live[-1]
        acc_s = s
        acc_v = v
        same_pl = all(r[2] is not None and live[0][2] is not None and r[2].key() == live[0][2].key() for r in live)
        for (s1, v1, p1) in reversed(live[:-1]):
            c = rel(s1.guards)
            c2 = rel(acc_s.guards)
            # Prefer the smaller discriminating condition.
            d = self.discriminate(c, c2)
            m = self.merge(d, s1, acc_s, base)
            acc_v = self.merge_v(d, v1, acc_v)
            acc_s = m
        return acc_v, (live[0][2] if same_pl else None), acc_s

    def discriminate(self, c1, c2):
        """A condition true in c1 and false in c2 (the conjunct of c1 negated in c2, if any)."""
        s2 = set(conj(c2))
        for x in conj(c1):
            if lnot(x) in s2:
                return x
        # conjunction of c1 minus shared conjuncts
        rest = [x for x in conj(c1) if x not in s2]
        return land(*rest) if rest else c1

    def ctor_inits(self, f, fr, st):
        for it in f.get('inits', []):
            if 'm' in it:
                if it['e'] is None:
                    continue
                pl = fr.this.sub(('f', it['m']))
                if it['m'] in self.ref_fields(f):
                    t = self.place_of(it['e'], st)
                    if t is not None:
                        self.write(st, pl, mk('addr', t.root, t.path))
                        continue
                v = self.ev(it['e'], st)
                self.write(st, pl, v)
                self.emit('asg', 'init', (v, v), st, it['e'], places=(pl,))
            elif 'deleg' in it:
                e = it['e']
                g = self.P.funcs.get(e.get('f'))
                if g is not None and self.can_inline(g):
                    self.invoke(g, e['a'], st, this=fr.this, node=e)
                else:
                    self.write(st, fr.this, self.ev(e, st))
            elif 'base' in it:
                e = it['e']
                if e is not None and e['k'] == 'ctor':
                    g = self.P.funcs.get(e.get('f'))
                    if g is not None and self.can_inline(g) and not self.is_stop(e.get('q', ''), e):
                        self.invoke(g, e['a'], st, this=fr.this, node=e)
                        continue
                if e is not None:
                    v = self.ev(e, st)
                    b = bare(self.P.ty(it['base']))
                    if v.op not in ('ctor', 'none') or len(v.args) > 1:
                        self.write(st, fr.this.sub(('f', 'base:' + b)), v)

    def ref_fields(self, f):
        """Names of the members of reference type of the class of a constructor."""
        r = self.P.rec_by_t.get(bare(self.P.ty(f['cls']))) if f.get('cls') is not None else None
        return [x['n'] for x in r['fields'] if self.P.ty(x['t']).strip().endswith('&')] if r else []

    # -- callbacks through opaque functions ----------------------------------------
    def callbacks(self, q, vals, places, st, e):
        for v in vals:
            cl = v if v.op == 'clo' else next(x for x in v.args if isinstance(x, T) and x.op == 'clo') if v.op == 'ctor' and any(
                isinstance(x, T) and x.op == 'clo' for x in v.args) else None
            if cl is None:
                continue
            node, env, frames, this = self.closures[cl.args[0]]
            ops = [self.P.funcs[i] for i in node['ops'] if i in self.P.funcs]
            self.ctx.append(('cb:' + q, self.loc(e), None))
            try:
                for f in ops:
                    if f.get('body') is None or not self.can_inline(f):
                        continue
                    self.cb_loop(q, vals, f, cl, st, e)
            finally:
                self.ctx.pop()

    def cb_loop(self, q, vals, f, cl, st, e):
        lid, lp = self.new_loop('cb', e)
        lp.q = q
        lp.range = mk('cbdom', q, *[v for v in vals if v is not cl])
        lp.args = vals

        def body(s):
            args = []
            for i, p in enumerate(f['params']):
                r = ('cbp', lid, i)
                self.placeinit[r] = mk('cbarg', lid, i, bare(self.P.ty(p['t'])))
                args.append(Place(r))
            lp.result = None
            r = self.run_closure(cl, f, args, s, e)
            lp.result = self.read(s, r) if isinstance(r, Place) else r
            return s
        self.run_loop(lid, lp, st, None, body, None, at_least_once=False)

    def foreach(self, a, st, e):
        x = self.ev(a[0], st)
        y = self.ev(a[1], st)
        fv = self.ev(a[2], st)
        if fv.op != 'clo':
            return
        node = self.closures[fv.args[0]][0]
        ops = [self.P.funcs[i] for i in node['ops'] if i in self.P.funcs]
        for f in ops:
            lid, lp = self.new_loop('rfor', e)
            lp.range = x.args[0] if x.op == 'begin' and y.op == 'end' and x.args[0] is y.args[0] else mk('irange', x, y)
            if lp.range is x.args[0] if x.args else False:
                b = a[0]
                while b.get('k') in ('cast', 'ctor') and len(b.get('a', ())) == 1:
                    b = b['a'][0]
                if b.get('k') == 'call' and len(b.get('a', ())) == 1 and b.get('q', '').split('<')[0].rsplit('::', 1)[-1] in ('begin', 'cbegin'):
                    lp.rplace = self.base_place(b['a'][0], st)

            def body(s, f=f, lid=lid):
                s.store.pop(('e', lid), None)
                self.run_closure(fv, f, [Place(('e', lid))], s, e)
                return s
            self.run_loop(lid, lp, st, None, body, None)
            st.store.pop(('e', lid), None)

    def quant(self, nm, a, st, e):
        x = self.ev(a[0], st)
        y = self.ev(a[1], st)
        fv = self.ev(a[2], st)
        if fv.op != 'clo':
            vals = [x, y, fv]
            self.emit('call', 'std::' + nm, vals, st, e)
            return mk('call', 'std::' + nm, *vals)
        node = self.closures[fv.args[0]][0]
        ops = [self.P.funcs[i] for i in node['ops'] if i in self.P.funcs]
        f = ops[0]
        lid, lp = self.new_loop('rfor', e)
        lp.range = x.args[0] if x.op == 'begin' and y.op == 'end' and x.args[0] is y.args[0] else mk('irange', x, y)
        box = {}

        def body(s):
            r = self.run_closure(fv, f, [Place(('e', lid))], s, e)
            box['r'] = truth(self.read(s, r) if isinstance(r, Place) else r)
            return s
        self.run_loop(lid, lp, st, None, body, None)
        p = box.get('r', mk('opq', 'pred'))
        if nm == 'all_of':
            return lnot(mk('ex', lid, lnot(p)))
        if nm == 'any_of':
            return mk('ex', lid, p)
        return lnot(mk('ex', lid, p))

    # -- statements ----------------------------------------------------------------
    def block_scope(self, s, st):
        """Execute a block; run destructors of its locals with bodies in the repository."""
        return self.stmt(s, st)

    def stmt(self, s, st):
        """Returns the live state after s, or None."""
        self.steps += 1
        if s is None:
            return st
        if self.dead(st):
            return None
        k = s['s']
        if 'L' in s:
            self.curloc = self.loc(s)
        m = getattr(self, 's_' + k.replace(':', '_'), None)
        if m is None:
            self.unknown.append('stmt ' + k)
            for b in s.get('b', []):
                st = self.stmt(b, st)
                if st is None:
                    return None
            return st
        r = m(s, st)
        if r is not None and self.dead(r):
            return None
        return r

    def s_null(self, s, st):
        return st

    def s_expr(self, s, st):
        self.ev(s['e'], st)
        return st

    def s_block(self, s, st):
        fr = self.frames[-1]
        depth = len(getattr(fr, 'loopctl'))
        locs = []
        prev = getattr(self, '_scope', None)
        self._scope = locs
        nret = len(fr.returns)
        try:
            for b in s['b']:
                st = self.stmt(b, st)
                if st is None:
                    break
        finally:
            self._scope = prev
        if locs:
            rets = fr.returns
            for pl, dt in reversed(locs):
                if dt is None:
                    self.emit('unlock', None, (), st if st is not None else State({}, ()), s, places=(pl,))
                    continue
                f = self.P.funcs[dt]
                for i in range(nret, len(rets)):
                    s2 = rets[i][0]
                    if not self.dead(s2):
                        self.dtor(f, pl, s2)
                if st is not None and not self.dead(st):
                    self.dtor(f, pl, st)
        return st

    def dtor(self, f, pl, st):
        if not self.can_inline(f) or self.is_stop(f['q'], f):
            self.emit('call', f['q'], (self.read(st, pl),), st, f, places=(pl,))
            return
        self.invoke(f, [], st, this=pl, node=f)

    def s_decl(self, s, st):
        for v in s['v']:
            self.decl(v, st)
            if self.dead(st):
                return None
        return st

    def decl(self, v, st):
        fr = self.frames[-1]
        t = self.P.ty(v['t']).strip()
        if 'binds' in v:
            return self.decomp(v, st)
        if v.get('static'):
            if v.get('cx'):
                val = self.ev(v['init'], st) if 'init' in v else mk('undef', v['n'])
                pl = Place(('v', v['d'], fr.uid))
                st.store[pl.root] = val
                fr.env[v['d']] = pl
                return
            pl = Place(('g', v['n'], v['d']))
            fr.env[v['d']] = pl
            if 'init' in v:
                if v['init']['k'] == 'lambda' or t.startswith('const ') or 'cx' in v:
                    val = self.ev(v['init'], st)
                    if v['init']['k'] != 'lambda' and contains(val, varies):
                        # Kept from the first call for all later ones.
                        val = mk('frozen', v['n'], val)
                    st.store[pl.root] = val
                elif is_ref(t):
                    fr.env[v['d']] = self.place_of(v['init'], st)
                elif v['init']['k'] == 'call' or v['init']['k'] == 'ctor':
                    val = self.ev(v['init'], st)
                    self.emit('sinit', v['n'], (val,), st, v)
            return
        if is_ref(t) and 'init' in v:
            fr.env[v['d']] = self.place_of(v['init'], st)
            return
        pl = Place(('v', v['d'], fr.uid))
        fr.env[v['d']] = pl
        if 'init' in v:
            val = self.ev(v['init'], st)
            if bare(t) in INTS and 't' in v['init']:
                val = self.cast_int(val, t, self.ty(v['init'])) if val.op not in ('b',) or bare(t) == 'bool' else val
        else:
            val = mk('uninit', v['n'])
        st.store[pl.root] = val
        self.note_write(pl)
        self.emit('decl', v['n'], (val,), st, v, places=(pl,), extra=t)
        dt = self.P.dtors.get(bare(t))
        if dt is None and LOCKS.match(bare(t)) and getattr(self, '_scope', None) is not None:
            self._scope.append((pl, None))
        if dt is not None and getattr(self, '_scope', None) is not None:
            self._scope.append((pl, dt))

    def decomp(self, v, st):
        fr = self.frames[-1]
        t = self.P.ty(v['t']).strip()
        if is_ref(t):
            base = self.place_of(v['init'], st)
        else:
            base = Place(('v', v['d'], fr.uid))
            st.store[base.root] = self.ev(v['init'], st)
        fr.env[v['d']] = base
        for i, b in enumerate(v['binds']):
            pl = None
            if 'e' in b and b['e'] is not None:
                e = b['e']
                if e['k'] == 'mem':
                    pl = base.sub(('f', e['n']))
            if pl is None:
                h = b.get('hi')
                bt = bare(t)
                if 'std::pair<' in bt[:12] or (h is not None and 'pair' in str(h.get('ta', ''))[:0]):
                    pl = base.sub(('f', 'first' if i == 0 else 'second'))
                elif h is not None:
                    try:
                        pl = self.place_of(h, st)
                    except Unsupported:
                        pl = base.sub(('i', C(i)))
                    if pl.root != base.root:
                        pl = base.sub(('i', C(i)))
                else:
                    pl = base.sub(('i', C(i)))
            fr.env[b['d']] = pl
            if 'h' in b:
                fr.env[b['h']] = pl

    def s_if(self, s, st):
        if s.get('init'):
            st = self.stmt(s['init'], st)
            if st is None:
                return None
        if s.get('cvd'):
            st = self.stmt(s['cvd'], st)
            if st is None:
                return None
        if 'taken' in s:
            return self.stmt(s['taken'], st)
        if s.get('cx') and 'th' not in s:
            return st
        c = self.decide(st, self.ev(s['c'], st))
        if self.dead(st):
            return None
        if c is TRUE:
            return self.stmt(s['th'], st)
        if c is FALSE:
            return self.stmt(s.get('el'), st)
        base = st.guards
        s1, s2 = st.copy(), st.copy()
        ok1 = self.assume(s1, c)
        ok2 = self.assume(s2, lnot(c))
        r1 = self.stmt(s['th'], s1) if ok1 else None
        r2 = (self.stmt(s.get('el'), s2) if s.get('el') else s2) if ok2 else None
        if r1 is None and r2 is None:
            return None
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        return self.merge(c, r1, r2, base)

    def s_ret(self, s, st):
        fr = self.frames[-1]
        pl = None
        if s.get('e') is None:
            v = mk('none')
        else:
            if fr.byref_ret:
                pl = self.place_of(s['e'], st)
                v = self.read(st, pl)
            else:
                v = self.ev(s['e'], st)
        if self.dead(st):
            return None
        self.emit('ret', fr.q, (v,), st, s, places=(pl,))
        if self.loop_in_frame(fr):
            # Return from inside loops: make the condition existential over them.
            base_n, loops = fr.loopctl[0]['gbase'], [c['id'] for c in fr.loopctl]
            g = [x for x in st.guards if x not in set(base_n)]
            cond = land(*g)
            for lid in reversed(loops):
                cond = mk('ex', lid, cond)
            ns = State(dict(st.store), tuple(base_n) + (cond,))
            for c in fr.loopctl:
                c['ret'].append(cond)
            # only the outermost loop's record becomes a fact after it
            fr.returns.append((ns, v, pl))
            for c in fr.loopctl:
                c['exits'].append((land(*[x for x in st.guards if x not in set(c['gbase'])]), 'ret'))
            return None
        fr.returns.append((st, v, pl))
        return None

    def loop_in_frame(self, fr):
        return bool(fr.loopctl)

    def s_break(self, s, st):
        fr = self.frames[-1]
        for c in reversed(fr.loopctl_all if hasattr(fr, 'loopctl_all') else fr.loopctl):
            c['breaks'].append(st)
            g = land(*[x for x in st.guards if x not in set(c['gbase'])])
            c['exits'].append((g, 'break'))
            return None
        return None

    def s_cont(self, s, st):
        fr = self.frames[-1]
        for c in reversed(fr.loopctl):
            if c.get('switch'):
                continue
            c['conts'].append(st)
            return None
        return None

    def calls(self, pat):
        r = re.compile(pat)
        return [e for e in self.trace if e.kind == 'call' and r.search(e.q)]

    # loops
    def new_loop(self, kind, node):
        self.nloop += 1
        lid = self.nloop
        lp = Loop(lid, kind)
        lp.loc = self.loc(node) or self.curloc
        lp.parent = self.loopstack[-1] if self.loopstack else None
        self.loops[lid] = lp
        return lid, lp

    def loop_writes(self, lid, st, s0, ctl, cond, body, inc, at_least_once):
        """Dry pass: the places existing before the loop that an iteration assigns."""
        fr = self.frames[-1]
        # The closures of existing frames are shared; returns recorded during the dry pass are dropped.
        s = s0
        w = {}
        if self.written is None:
            self.written = []
        self.written.append(w)
        self.dry += 1
        nret = [(f, len(f.returns)) for f in self.frames]
        fr.loopctl.append(ctl())
        self.loopstack.append(lid)
        scope, self._scope = getattr(self, '_scope', None), None
        saved_ctls = [[(c, len(c['breaks']), len(c['conts']), len(c['ret']), len(c['exits'])) for c in f.loopctl] for f in
                      self.frames]
        try:
            if cond is not None and not at_least_once:
                c = truth(cond(s))
                self.assume(s, c) or s
            if not self.dead(s):
                r = body(s)
                cs = [x for x in fr.loopctl[-1]['conts']]
                if r is None and cs:
                    r = cs[0]
                if r is not None and not self.dead(r) and inc is not None:
                    inc(r)
                if r is not None and at_least_once and cond is not None and not self.dead(r):
                    cond(r)
        finally:
            fr.loopctl.pop()
            self.loopstack.pop()
            self._scope = scope
            self.dry -= 1
            self.written = [x for x in self.written if x is not w]
            for f, n in nret:
                del f.returns[n:]
            for cl in saved_ctls:
                for (c, a, b, d, ee) in cl:
                    del c['breaks'][a:], c['conts'][b:], c['ret'][d:], c['exits'][ee:]
        # Places existing before the loop.
        pls = []
        for key, pl in w.items():
            if pl.root in st.store or pl.root[0] in ('d', 'g', 'x') or pl.root in self.placeinit:
                if pl.root[0] == 'd' and _mentions_loop(pl.root[1], lid):
                    continue
                # Cut at the first loop-varying index.
                path = []
                for c in pl.path:
                    if c[0] == 'i' and not is_c(c[1]):
                        break
                    path.append(c)
                pls.append(Place(pl.root, tuple(path)))
        # Keep only the shortest prefixes.
        keys = {p.key() for p in pls}
        uniq = {}
        for p in pls:
            k = p.key()
            if any(k[:n] in keys for n in range(1, len(k))):
                continue
            uniq[k] = p
        return uniq

    def run_loop(self, lid, lp, st, cond, body, inc, at_least_once=False):
        """Generic loop; mutates st to the state after the loop."""
        fr = self.frames[-1]
        gbase = st.guards
        lp.guards = gbase

        def ctl():
            return {'id': lid, 'breaks': [], 'conts': [], 'ret': [], 'exits': [], 'gbase': gbase}

        uniq = self.loop_writes(lid, st, st.copy(), ctl, cond, body, inc, at_least_once)
        if any(c[0] == 'i' for p in uniq.values() for c in p.path):
            # An index that is constant on entry may still vary: look again from generic values.
            s0 = st.copy()
            for k, p in uniq.items():
                if not any(c[0] == 'i' for c in p.path):
                    s0.store[p.root] = self.wr1(self.rd_root(s0, p.root), p.path, mk('lv', lid, k))
            u2 = self.loop_writes(lid, st, s0, ctl, cond, body, inc, at_least_once)
            ks = dict(uniq)
            ks.update(u2)
            # The generic pass decides the extent of indexed places.
            for k in list(uniq):
                if k not in u2 and any(k[:n] in u2 for n in range(1, len(k))):
                    del ks[k]
            uniq = ks
        for k, p in uniq.items():
            v0 = self.read(st, p)
            lp.init[k] = v0
        # Pass 2 (real).
        s = st.copy()
        lp.vars = uniq
        for k, p in uniq.items():
            s.store[p.root] = self.wr1(self.rd_root(s, p.root), p.path, mk('lv', lid, k))
        c2 = ctl()
        fr.loopctl.append(c2)
        self.loopstack.append(lid)
        cterm = TRUE
        r = None
        scope, self._scope = getattr(self, '_scope', None), None
        try:
            if cond is not None and not at_least_once:
                cterm = truth(cond(s))
                lp.cond = cterm
                if not self.assume(s, cterm):
                    s.guards = s.guards + (FALSE,)
            if not self.dead(s):
                r = body(s)
            live = [x for x in c2['conts'] if not self.dead(x)]
            if r is not None and not self.dead(r):
                live.append(r)
            if live:
                m = live[-1]
                for x in reversed(live[:-1]):
                    m = self.merge(self.discriminate(land(*[g for g in x.guards if g not in set(gbase)]),
                                                     land(*[g for g in m.guards if g not in set(gbase)])), x, m, gbase)
                if inc is not None:
                    inc(m)
                if at_least_once and cond is not None and not self.dead(m):
                    cterm = truth(cond(m))
                    lp.cond = cterm
                for k, p in uniq.items():
                    lp.step[k] = self.read(m, p)
                lp.endguards = m.guards
            else:
                lp.endguards = (FALSE,)
        finally:
            fr.loopctl.pop()
            self.loopstack.pop()
            self._scope = scope
        lp.exits = c2['exits']
        lp.nbreaks = len(c2['breaks'])
        for k, p in uniq.items():
            self.note_write(p)
            st.store[p.root] = self.wr1(self.rd_root(st, p.root), p.path, mk('lx', lid, k))
        # Facts after the loop.
        g = tuple(gbase)
        facts = []
        if c2['ret']:
            for cnd in c2['ret']:
                if cnd.op == 'ex':
                    facts.append(lnot(cnd) if not (len(fr.loopctl)) else None)
        st.guards = g + tuple(x for x in facts if x is not None and x not in g)
        # Throws inside the body: completing the loop means no element satisfied their condition.
        if not self.dry and lid in self.loop_throws:
            for cond_ in self.loop_throws[lid]:
                st.guards = st.guards + (lnot(cond_),)
        if lp.kind in ('for', 'while', 'do') and cterm is TRUE and not c2['breaks'] and cond is not None and lp.cond is TRUE:
            # Infinite loop without break: leaves only by return/throw.
            st.guards = st.guards + (FALSE,)
        return st

    def const_trips(self, s, st, cond, inc):
        """Number of iterations when the loop condition is constant throughout (small), else None."""
        if s.get('c') is None or 'cv' in s['c'] or s['c']['k'] == 'int':
            return None
        probe = st.copy()
        self.dry += 1
        try:
            if truth(cond(probe)) is not TRUE:
                return None
        finally:
            self.dry -= 1
        # Dry walk.
        fr = self.frames[-1]
        saved_ctl = fr.loopctl
        nret = [(f, len(f.returns)) for f in self.frames]
        scope, self._scope = getattr(self, '_scope', None), None
        self.dry += 1
        n = 0
        try:
            cur = st.copy()
            while True:
                c = truth(cond(cur))
                if c is FALSE:
                    return n
                if c is not TRUE or n >= 16:
                    return None
                ctl = {'id': -1, 'breaks': [], 'conts': [], 'ret': [], 'exits': [], 'gbase': cur.guards}
                fr.loopctl = list(saved_ctl) + [ctl]
                cur = self.stmt(s['b'], cur)
                if cur is None or ctl['breaks'] or ctl['conts'] or any(len(f.returns) != k for f, k in nret):
                    return None
                if inc is not None:
                    inc(cur)
                n += 1
        finally:
            self.dry -= 1
            fr.loopctl = saved_ctl
            self._scope = scope
            for f, k in nret:
                del f.returns[k:]

    def unroll(self, n, s, st, cond, inc):
        for _ in range(n):
            cond(st)
            st = self.stmt(s['b'], st)
            if st is None:
                return None
            if inc is not None:
                inc(st)
        cond(st)
        return st

    def s_for(self, s, st):
        if s.get('init') is not None:
            st = self.stmt(s['init'], st)
            if st is None:
                return None
        if s.get('c') is not None:
            cond = lambda x: self.ev(s['c'], x)
            inc = (lambda x: self.ev(s['inc'], x)) if s.get('inc') is not None else None
            n = self.const_trips(s, st, cond, inc)
            if n is not None:
                return self.unroll(n, s, st, cond, inc)
        r = self.iter_loop(s, st)
        if r is not None:
            return r if not self.dead(r) else None
        lid, lp = self.new_loop('for', s)
        cond = (lambda x: self.ev(s['c'], x)) if s.get('c') is not None else (lambda x: TRUE)
        inc = (lambda x: self.ev(s['inc'], x)) if s.get('inc') is not None else None
        self.run_loop(lid, lp, st, cond, lambda x: self.stmt(s['b'], x), inc)
        return st if not self.dead(st) else None

    def iter_loop(self, s, st):
        """A loop from the beginning to the end of a range through an iterator only dereferenced: run as a range loop."""
        def strip(e):
            while e.get('k') in ('cast', 'ctor') and len(e.get('a', ())) == 1:
                e = e['a'][0]
            return e

        def same(a, b):
            if isinstance(a, dict) and isinstance(b, dict):
                return all(same(a.get(k), b.get(k)) for k in set(a) | set(b) if k not in ('L', 'f', 't', 'rt', 'cm'))
            if isinstance(a, list) and isinstance(b, list):
                return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            return a == b

        def bound(e, names):
            e = strip(e)
            if e.get('k') == 'call' and len(e.get('a', ())) == 1 and e.get('q', '').split('<')[0].rsplit('::', 1)[-1] in names:
                return strip(e['a'][0])
            return None
        i = s.get('init')
        if not i or i.get('s') != 'decl' or not 1 <= len(i['v']) <= 2 or s.get('c') is None or s.get('inc') is None:
            return None
        v = i['v'][0]
        if v.get('init') is None or 'd' not in v:
            return None
        obj = bound(v['init'], ('begin', 'cbegin'))
        if obj is None or obj.get('k') not in ('ref', 'mem', 'this', 'idx', 'call', 'un'):
            return None
        is_it = lambda e: strip(e).get('k') == 'ref' and strip(e).get('d') == v['d']
        c = strip(s['c'])
        args = c.get('a') if c.get('k') == 'call' and c.get('op') == '!=' else c.get('a') if c.get('k') == 'bin' and c.get('op') == '!=' else None
        if not args or len(args) != 2 or None in args:
            return None
        oth = [a for a in args if not is_it(a)]
        if len(oth) != 1:
            return None
        end = strip(oth[0])
        if len(i['v']) == 2:
            w = i['v'][1]
            if not (end.get('k') == 'ref' and end.get('d') == w.get('d') and w.get('init') is not None):
                return None
            end = w['init']
        end = bound(end, ('end', 'cend'))
        if end is None or not same(end, obj):
            return None
        n = strip(s['inc'])
        if not (n.get('k') in ('call', 'un') and '++' in n.get('op', '') and is_it(n['a'][0])):
            return None
        bad = []

        def walk(o, ok):
            if isinstance(o, list):
                for x in o:
                    walk(x, False)
            elif isinstance(o, dict):
                if o.get('k') == 'ref' and o.get('d') == v['d'] and not ok:
                    bad.append(o)
                if o.get('k') == 'lambda' and any(x.get('d') == v['d'] for x in o.get('caps', ())):
                    # The body is elsewhere.
                    bad.append(o)
                if o.get('k') == 'call' and o.get('op') in ('*', '->') and len(o.get('a', ())) == 1:
                    a = o['a'][0]
                    if is_it(a):
                        return
                if o.get('k') == 'un' and o.get('op') == '*' and is_it(o['a'][0]):
                    return
                if o.get('k') == 'mem' and 'b' in o and strip(o['b']).get('k') == 'ref' and strip(o['b']).get('d') == v['d']:
                    return
                for x in o.values():
                    walk(x, False)
        walk(s['b'], False)
        if bad:
            return None
        lid, lp = self.new_loop('rfor', s)
        try:
            rp = self.base_place(obj, st)
        except Unsupported:
            return None
        lp.range = self.read(st, rp)
        lp.rplace = rp
        fr = self.frames[-1]
        pl = fr.env.get(v['d'])
        if pl is None:
            return None

        def body(x):
            x.store.pop(('e', lid), None)
            x.store[pl.root] = mk('addr', ('e', lid), ())
            return self.stmt(s['b'], x)
        self.run_loop(lid, lp, st, None, body, None)
        st.store.pop(('e', lid), None)
        st.store.pop(pl.root, None)
        return st

    def s_while(self, s, st):
        cond = lambda x: self.ev(s['c'], x)
        n = self.const_trips(s, st, cond, None)
        if n is not None:
            return self.unroll(n, s, st, cond, None)
        lid, lp = self.new_loop('while', s)
        self.run_loop(lid, lp, st, lambda x: self.ev(s['c'], x), lambda x: self.stmt(s['b'], x), None)
        return st if not self.dead(st) else None

    def s_do(self, s, st):
        lid, lp = self.new_loop('do', s)
        if s['c'] is not None and s['c']['k'] == 'int' and s['c']['v'] == '0':
            # do { } while (false)
            return self.stmt(s['b'], st)
        self.run_loop(lid, lp, st, lambda x: self.ev(s['c'], x), lambda x: self.stmt(s['b'], x), None, at_least_once=True)
        return st if not self.dead(st) else None

    def s_rfor(self, s, st):
        lid, lp = self.new_loop('rfor', s)
        rp = self.place_of(s['r'], st)
        lp.range = self.read(st, rp)
        lp.rplace = rp
        fr = self.frames[-1]
        v = s['v']

        def body(x):
            root = ('e', lid)
            t = self.P.ty(v['t']).strip()
            # Each iteration sees a fresh element.
            x.store.pop(root, None)
            if 'binds' in v:
                base = Place(root)
                bt = bare(t)
                for i, b in enumerate(v['binds']):
                    pl = None
                    e = b.get('e')
                    if e is not None and e['k'] == 'mem':
                        pl = base.sub(('f', e['n']))
                    elif bt.startswith('std::pair<'):
                        pl = base.sub(('f', 'first' if i == 0 else 'second'))
                    else:
                        pl = base.sub(('i', C(i)))
                    fr.env[b['d']] = pl
                    if 'h' in b:
                        fr.env[b['h']] = pl
            elif is_ref(t):
                fr.env[v['d']] = Place(root)
            else:
                pl = Place(('v', v['d'], fr.uid))
                x.store[pl.root] = mk('elem', lid, lp.range)
                fr.env[v['d']] = pl
            return self.stmt(s['b'], x)
        self.run_loop(lid, lp, st, None, body, None)
        st.store.pop(('e', lid), None)
        return st if not self.dead(st) else None

    def s_switch(self, s, st):
        c = self.ev(s['c'], st)
        body = s['b']
        items = body['b'] if body and body['s'] == 'block' else [body]
        # Flatten case chains.
        flat = []

        def push(x):
            labels = []
            while x is not None and x['s'] in ('case', 'default'):
                labels.append(None if x['s'] == 'default' else x['v'])
                x = x['b']
            flat.append((labels, x))
        for it in items:
            push(it)
        groups = []
        for labels, x in flat:
            if labels:
                groups.append([labels, []])
            if groups:
                groups[-1][1].append(x)
        fr = self.frames[-1]
        gbase = st.guards
        ctl = {'id': None, 'breaks': [], 'conts': [], 'ret': [], 'exits': [], 'gbase': gbase, 'switch': True}
        allc = []
        for labels, _ in groups:
            for l in labels:
                if l is not None:
                    allc.append(eq(c, self.ev(l, st)))
        # 'continue' inside must reach the loop; 'return' treats this frame specially.
        outs = []
        fall = None
        for labels, stmts in groups:
            conds = []
            for l in labels:
                if l is None:
                    conds.append(land(*[lnot(x) for x in allc]))
                else:
                    conds.append(eq(c, self.ev(l, st)))
            cnd = lor(*conds)
            s1 = st.copy()
            ok = self.assume(s1, self.decide(st, cnd))
            entry = None
            if ok:
                entry = s1
            if fall is not None:
                entry = fall if entry is None else self.merge(cnd, entry, fall, gbase)
            cur = entry
            sw = dict(ctl)
            sw['breaks'] = []
            saved = fr.loopctl
            fr.loopctl = _SwitchCtl(saved, sw)
            try:
                for x in stmts:
                    if cur is None:
                        break
                    cur = self.stmt(x, cur)
            finally:
                fr.loopctl = saved
            outs.extend(sw['breaks'])
            fall = cur
        if fall is not None:
            outs.append(fall)
        has_default = any(l is None for labels, _ in groups for l in labels)
        if not has_default:
            s1 = st.copy()
            if self.assume(s1, self.decide(st, land(*[lnot(x) for x in allc]))):
                outs.append(s1)
        outs = [x for x in outs if not self.dead(x)]
        if not outs:
            return None
        m = outs[-1]
        for x in reversed(outs[:-1]):
            b = set(gbase)
            m = self.merge(self.discriminate(land(*[g for g in x.guards if g not in b]),
                                             land(*[g for g in m.guards if g not in b])), x, m, gbase)
        return m

    def s_case(self, s, st):
        return self.stmt(s['b'], st)

    s_default = s_case

    def s_try(self, s, st):
        base = st.copy()
        w = {}
        if self.written is None:
            self.written = []
        self.written.append(w)
        tid = self.newuid()
        self.trystack.append((tid, tuple(self.P.ty(h['ct']) if h['ct'] is not None else '...' for h in s['h'])))
        try:
            r = self.stmt(s['b'], st)
        finally:
            self.trystack.pop()
            self.written = [x for x in self.written if x is not w]
        outs = [r] if r is not None else []
        for n, h in enumerate(s['h']):
            hs = base.copy()
            for key, pl in w.items():
                if pl.root in base.store or pl.root[0] in ('d', 'g', 'x'):
                    v = self.rd_root(hs, pl.root)
                    hs.store[pl.root] = self.wr1(v, pl.path, mk('exc', tid, key))
            hs.guards = hs.guards + (mk('caught', tid, n),)
            self.ctx.append(('catch', self.P.ty(h['ct']) if h['ct'] is not None else '...', tid))
            try:
                o = self.stmt(h['b'], hs)
            finally:
                self.ctx.pop()
            if o is not None:
                outs.append(o)
        if not outs:
            return None
        m = outs[0]
        for o in outs[1:]:
            m = self.merge(lnot(o.guards[len(base.guards)]) if len(o.guards) > len(base.guards) else TRUE, m, o, base.guards)
        return m

    # -- entry ----------------------------------------------------------------------
    def run(self, f, this=None, args=None, facts=()):
        """Analyse a function with symbolic parameters."""
        st = State({}, tuple(facts))
        fr_args = []
        self.argplaces = []
        for i, p in enumerate(f['params']):
            nm = p['n'] or 'arg%d' % i
            r = ('a', i)
            v = mk('p', nm) if args is None or args[i] is None else args[i]
            self.placeinit[r] = v
            pl = Place(r)
            st.store[r] = v
            fr_args.append(pl)
            self.argplaces.append(pl)
        th = None
        if f.get('cls') is not None and not f.get('st'):
            th = Place(('this',))
            self.placeinit[('this',)] = mk('p', 'this')
            st.store[('this',)] = mk('p', 'this') if f.get('kind') != 'ctor' else mk('new', self.P.ty(f['cls']))
        self.frames.append(Frame(None, 0))
        self.frames[-1].byref_ret = False
        r = self.invoke(f, fr_args, st, this=th, node=f)
        self.frames.pop()
        self.final = st
        if isinstance(r, Place):
            self.retplace = r
            return self.read(st, r)
        self.retplace = None
        return r


class _SwitchCtl(list):
    """Loop-control stack with a switch on top: breaks go to the switch, the rest to the loops."""

    def __init__(self, base, sw):
        super().__init__(base)
        self.sw = sw


def _brk(self, s, st):
    fr = self.frames[-1]
    lc = fr.loopctl
    if isinstance(lc, _SwitchCtl):
        # A break inside a loop inside the switch goes to that loop.
        if len(lc) == lc_len(lc):
            lc.sw['breaks'].append(st)
            return None
    if lc:
        c = lc[-1]
        c['breaks'].append(st)
        b = set(c['gbase'])
        c['exits'].append((land(*[x for x in st.guards if x not in b]), 'break'))
    return None


def lc_len(lc):
    return lc.n0


_orig_init = _SwitchCtl.__init__


def _swinit(self, base, sw):
    _orig_init(self, base, sw)
    self.n0 = len(base)


_SwitchCtl.__init__ = _swinit
Interp.s_break = _brk

DEFAULT_PURE = {
    'hash', 'is_zero', 'key_is_zero', 'key_is_one', 'key_is_compatible', 'degree', 'p_degree', 'key_degree', 'key_p_degree',
    'monomial_homomorphic_hash', 'monomial_range_overflow_check', 'byte_size', 'key_evaluate', 'evaluate', 'pow', 'monomial_pow',
    'key_merge_symbols', 'key_trim', 'key_trim_identify', 'monomial_subs', 'monomial_diff', 'monomial_integrate', 'key_stream_insert',
    'diff', 'integrate', 'subs', 'trim', 'get_symbol_set', 'get_symbol_set_fw', 'get_tag', 'get_truncation', 'filtered', 'filter',
    'key_tex_stream_insert', 'begin', 'end', 'cbegin', 'cend', 'safe_convert_pure', 'to_string', 'truncate_degree_pure',
}


def a_is_glob_callable(e):
    if e.get('op') != '()' or not e.get('a'):
        return False
    a0 = e['a'][0]
    return a0['k'] == 'ref' and a0.get('dk') == 'glob'


def _mentions_loop(t, lid):
    for x in subterms(t):
        if x.op in ('lv', 'elem', 'cbarg') and x.args[0] == lid:
            return True
    return False


def _size(t):
    n = 0
    for _ in subterms(t):
        n += 1
        if n > 400:
            return n
    return n
