"""Shared pieces of the rules: obligations, findings, queries over traces."""
import os
import re

from .interp import *
from . import fold as _fold
from . import build
from . import logic
from .counters import narrow_counters


class Broken(Exception):
    """The analysis cannot be carried out (missing anchor, parse failure)."""


def frozen(t):
    """A part of the value that was computed by the first call and kept."""
    return next((x for x in subterms(t) if x.op == 'frozen'), None) if isinstance(t, T) else None


class Ctx:
    """State of one property check."""

    def __init__(self, pid, progs):
        self.pid = pid
        self.progs = progs
        self.obs = []          # (ok, rule, construct, loc, detail)
        self.funcs = set()
        self.notes = []
        self.sites = 0
        self.cut = False       # part of the analysis was given up

    def ob(self, ok, rule, construct, loc='', detail=''):
        if ok is not None:
            ok = bool(ok)
        self.obs.append((ok, rule, construct, loc, detail))
        return ok

    def same(self, rule, construct, loc, got, want, width=64, mod=True, signed=False, what='value', **kw):
        """Obligation: two normal forms denote the same value."""
        if got is want:
            return self.ob(True, rule, construct, loc)
        if mod and _fold.canon(got, width) is _fold.canon(want, width):
            return self.ob(True, rule, construct, loc)
        fz = frozen(got)
        if fz is not None and frozen(want) is None:
            return self.ob(False, rule, construct, loc, '%s is kept from the first call (%s)' % (what, fz.args[0]))
        w = _fold.differ(got, want, width, mod, signed, **kw)
        if w is not None:
            return self.ob(False, rule, construct, loc, '%s is %s where %s is required (%s)' % (
                what, show(got, 6)[:300], show(want, 6)[:300], w[:300]))
        return self.ob(None, rule, construct, loc, '%s not recognised: %s' % (what, show(got, 6)[:300]))

    def cond(self, rule, construct, loc, got, want, what='condition', assume=TRUE, nonneg=()):
        """Obligation: two conditions are equivalent."""
        fz = frozen(got)
        if fz is not None and frozen(want) is None:
            return self.ob(False, rule, construct, loc, '%s is kept from the first call (%s)' % (what, fz.args[0]))
        r = logic.equiv(got, want, assume, nonneg)
        return self.ob(r, rule, construct, loc, '' if r else '%s is %s where %s is required' % (
            what, show(got, 8)[:400], show(want, 8)[:400]))

    def item(self, construct):
        """Scope whose analysis may be given up without affecting the others."""
        return _Item(self, construct)

    @property
    def violations(self):
        return [o for o in self.obs if o[0] is False]

    @property
    def undecided(self):
        return [o for o in self.obs if o[0] is None]

    def analyse(self, P, f, stops=(), inline=None, facts=(), args=None, pure=None, want_arith=False, steps=None, raw_throw=False, **opts):
        I = Interp(P, stops, inline)
        for k, v in opts.items():
            setattr(I, k, v)
        if pure is not None:
            I.pure = pure
        if want_arith:
            I.want_arith = True
        I.raw_throw = raw_throw
        if steps:
            I.max_steps = steps
        r = I.run(f, args=args, facts=facts)
        I.ret = r
        for g, ev in I.nx_throws:
            if build.in_repo(P.loc(g)):
                self.ob(False, 'noexcept', g['q'], ev.loc, 'the error raised here cannot leave %s, declared not to throw at %s: the program is terminated' % (g['q'], P.loc(g)))
        for g in I.seen_funcs.values():
            k = (g['q'], P.loc(g))
            if k not in self.funcs and build.in_repo(k[1]):
                for n, v, t, u in narrow_counters(P, g):
                    self.ob(False, 'counter', 'loop of %s' % g['q'], P.loc(n) if 'L' in n else k[1],
                            'the counter %s of type %s is compared with a bound of type %s that it cannot always reach' % (v, t, u))
            self.funcs.add(k)
        return I

    def entry(self, P, q, n=None, ta=None, pred=None):
        """Functions with this qualified name (n: the confirmed number of instances)."""
        fs = [f for f in P.find(q) if f.get('body') is not None]
        if ta is not None:
            fs = [f for f in fs if re.search(ta, f.get('ta', ''))]
        if pred is not None:
            fs = [f for f in fs if pred(f)]
        if not fs or (n is not None and len(fs) < n):
            raise Broken('anchor %s: %d instances found, %s confirmed' % (q, len(fs), n))
        return fs


class _Item:
    def __init__(self, cx, construct):
        self.cx, self.construct = cx, construct

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is not None and issubclass(t, Exception) and not issubclass(t, Broken):
            if os.environ.get('SA_DEBUG'):
                import traceback
                traceback.print_exception(t, e, tb)
            self.cx.cut = True
            self.cx.ob(None, 'analysis', self.construct, '', 'given up: %s: %s' % (t.__name__, str(e)[:200]))
            return True
        return False


def floc(P, f):
    return P.loc(f)


def guard_of(e, base=()):
    b = set(base)
    return land(*[g for g in e.guards if g not in b])


def throw_cond(I, pred=None):
    """Disjunction of the conditions under which matching exceptions are thrown at top level of the trace."""
    c = FALSE
    for e in I.trace:
        if e.kind == 'throw' and (pred is None or pred(e)):
            c = lor(c, loopwrap(I, e))
    return c


def loopwrap(I, e):
    """Guard of an event with its enclosing loops made existential."""
    g = list(e.guards)
    if not e.loops:
        return land(*g)
    outer = set(I.loops[e.loops[0]].guards)
    inner = land(*[x for x in g if x not in outer])
    for l in reversed(e.loops):
        inner = mk('ex', l, inner)
    return land(*outer, inner)


def strip_cast(t):
    """Without the conversions that keep a 64-bit value."""
    return subst(t, lambda x: strip_cast(x.args[1]) if x.op == 'cast' and not narrow(x.args[0], 64) else None)


def strip_size(t):
    """The same for sizes and indices of symbols, which fit 32 bits."""
    return subst(t, lambda x: strip_size(x.args[1]) if x.op == 'cast' and not narrow(x.args[0], 32) else None)


def narrow(ty, w):
    ty = bare(ty)
    return ty in INTS and INTS[ty][0] < w and ty != 'bool'


def fld(t, *names):
    for n in names:
        t = mk('fld', t, n)
    return t


def unwith(t, path):
    """Read a path (names) of a functional-update term."""
    I = Interp.__new__(Interp)
    for n in path:
        t = Interp.rd1(I, t, ('f', n) if isinstance(n, str) else ('i', n))
    return t


def assume_in(t, facts):
    """Simplify conditionals of a term given truth values of conditions."""
    f = dict(facts)
    for c, v in list(f.items()):
        f[lnot(c)] = not v

    def step(x):
        if x.op == 'ite' and x.args[0] in f:
            return go(x.args[1] if f[x.args[0]] else x.args[2])
        if x in f:
            return TRUE if f[x] else FALSE
        return None

    memo = {}

    def go(x):
        return subst(x, step, memo)
    prev = None
    while prev is not t:
        prev = t
        memo.clear()
        t = go(t)
    return t
