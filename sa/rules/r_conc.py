"""Concurrency: effects of parallel tasks, process-wide state."""
import glob
import os

from .. import build
from ..interp import Interp
from ..rlib import *
from . import rule

PAR = re.compile(r'^tbb::(?:\w+::)*parallel_(for_each|for|deterministic_reduce|reduce|invoke|sort|scan)$')
UNITS = ['series.cpp', 'poly.cpp', 'monomials.cpp']
# Algorithms writing through their first arguments, or through a later one.
INPLACE = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'shuffle', 'iota', 'fill', 'generate', 'reverse', 'rotate', 'unique', 'remove',
           'remove_if', 'replace', 'parallel_sort', 'fill_n', 'generate_n'}
OUTPUT = {'copy': 2, 'transform': -2, 'move': 2, 'copy_n': 2, 'partial_sum': 2, 'copy_if': 2}
ATOMIC = re.compile(r'^(const )?std::(atomic\b|atomic_flag|mutex|once_flag)')


def nodes(o):
    if isinstance(o, dict):
        if 'k' in o:
            yield o
        for v in o.values():
            yield from nodes(v)
    elif isinstance(o, list):
        for v in o:
            yield from nodes(v)


def stem(q):
    return re.sub(r'<.*', '', str(q))


class Acc:
    def __init__(self, w, pl, loops, loc, val, i):
        self.w, self.pl, self.loops, self.loc, self.val, self.i = w, pl, loops, loc, val, i


class Tracer(Interp):
    """Records every access to memory with the loops it is in."""

    def __init__(self, P):
        Interp.__init__(self, P, lambda q, n: False)
        self.exact = True
        self.acc = []

    def write(self, st, pl, val):
        if not self.dry and isinstance(pl, Place) and not (isinstance(val, T) and val.op == 'upd' and val.args[0] == 'elemwrite'):
            self.acc.append(Acc(True, pl, tuple(self.loopstack), self.curloc, val, len(self.trace)))
        return Interp.write(self, st, pl, val)

    def read(self, st, pl):
        v = Interp.read(self, st, pl)
        if not self.dry and isinstance(pl, Place):
            self.acc.append(Acc(False, pl, tuple(self.loopstack), self.curloc, v, len(self.trace)))
        return v


class Section:
    def __init__(self, cx, I, f):
        self.cx, self.I, self.f = cx, I, f
        self.decl = {}
        self.type = {}
        for e in I.trace:
            if e.kind == 'decl' and e.places and e.places[0] is not None:
                self.decl.setdefault(e.places[0].root, e.loops)
                self.type.setdefault(e.places[0].root, str(e.extra))
        self.spots = {}
        for a in I.acc:
            self.spots.setdefault(a.pl.root, []).append(a)

    def local(self, root, L):
        if root[0] == 't':
            return True
        if root[0] == 'v':
            if root in self.decl:
                return L.id in self.decl[root]
            return all(L.id in a.loops for a in self.spots.get(root, ()))
        if root[0] == 'g' and len(root) > 2:
            # An object each thread has for itself.
            return any(g.get('id') == root[2] and g.get('tls') for P in self.cx.progs.values() for g in P.gvars.values())
        if root[0] == 'e':
            return False
        return root[0] == 'cbp' and root[1] == L.id and root[2] > 0

    def part(self, t, L):
        """The part of the range given to the task."""
        while t.op in ('deref', 'ref'):
            t = t.args[0]
        return t.op == 'cbarg' and t.args[0] == L.id and t.args[1] == 0 or t.op == 'lv' and t.args[0] == L.id and t.args[1][0][:3] == ('cbp', L.id, 0)

    def own(self, t, L):
        """Is the index one that belongs to the task: a position of its own part of the range, shifted by a constant of the section?"""
        I = self.I
        t = strip_cast(t)
        if t.op == 'call' and stem(t.args[0]).endswith('operator-') and len(t.args) == 3:
            return self.own(t.args[1], L) and not any(self.varies(x, L) for x in subterms(t.args[2]))
        isr = lambda x: self.part(x, L)
        lvs_ = [x for x in subterms(t) if x.op == 'lv']
        for v in lvs_:
            Q = I.loops[v.args[0]]
            if L.id not in self.up(Q):
                continue
            i0, st = Q.init.get(v.args[1]), Q.step.get(v.args[1])
            if i0 is None or st is None or strip_cast(st) is not add(v, ONE):
                continue
            i0 = strip_cast(i0)
            starts = (i0.op == 'begin' or i0.op == 'call' and stem(i0.args[0]).endswith('::begin')) and isr(i0.args[-1])
            c = truth(Q.cond)
            ends = [x for x in subterms(c) if (x.op == 'end' or x.op == 'call' and stem(x.args[0]).endswith('::end')) and isr(x.args[-1])]
            cmp = c.op == 'lt' and c.args[0] is v and len(ends) == 1 and c.args[1] is ends[0] or \
                c.op == 'not' and c.args[0].op == 'eq' and v in c.args[0].args and len(ends) == 1 and ends[0] in c.args[0].args
            if not starts or not cmp:
                continue
            rest = sub(strip_cast(t), v)
            if not any(self.varies(x, L) for x in subterms(rest)):
                return True
        return False

    def varies(self, x, L):
        if x.op in ('lv', 'lx', 'elem') and isinstance(x.args[0], int):
            Q = self.I.loops.get(x.args[0])
            return Q is not None and L.id in self.up(Q)
        return x.op == 'cbarg' and x.args[0] == L.id

    def up(self, Q):
        r = set()
        while Q is not None and Q.id not in r:
            r.add(Q.id)
            Q = self.I.loops.get(Q.parent) if getattr(Q, 'parent', None) is not None else None
        return r

    def foreign(self, t, L):
        """Is the index one that is certainly not different for every task?"""
        return not any(self.varies(x, L) for x in subterms(t))

    def owned_root(self, root, L):
        """A root that denotes an object of the task's own part."""
        I = self.I
        if root[0] == 'e':
            Q = I.loops.get(root[1])
            if Q is None or L.id not in self.up(Q):
                return False
            r = Q.range
            return r is not None and self.part(r, L) or \
                r is not None and any(x.op == 'idx' and self.own(x.args[1], L) for x in subterms(r))
        if root[0] == 'd':
            t = root[1]
            if t.op == 'ref':
                t = t.args[0]
            if t.op == 'lin':
                return self.segment(t, L)
            # A reference or iterator obtained from a container.
            for _ in range(8):
                if t.op == 'idx':
                    return self.own(t.args[1], L) or self.term_local(t.args[0], L)
                if t.op == 'lv' and self.own(t, L):
                    return True
                if t.op in ('fld', 'deref', 'tget', 'upd', 'with', 'ref', 'cast', 'conv', 'moved') or t.op == 'call':
                    a = [x for x in t.args[1:] if isinstance(x, T)] if t.op in ('call', 'upd') else [x for x in t.args if isinstance(x, T)]
                    if not a:
                        return None
                    t = a[1] if t.op == 'upd' and len(a) > 1 and not isinstance(t.args[1], T) and False else a[0]
                    continue
                return True if self.term_local(t, L) else None
        return None

    def segment(self, t, L):
        """The positions between two bounds that are components of an element of the task's part (a segmentation)."""
        if not any(self.varies(x, L) for x in subterms(t)):
            return False
        for e in self.I.trace:
            if e.kind != 'call' or L.id not in e.loops or len(e.args) < 2 or t not in (e.args[0], e.args[1]):
                continue
            el = [x for x in subterms(t) if x.op in ('idx', 'tget', 'fld') and isinstance(x.args[0], T) and x.args[0].op == 'elem' and self.inpart(x.args[0], L)]
            if len(el) != 1:
                continue
            base = sub(t, el[0])
            other = [x for x in subterms(e.args[1]) if x.op == el[0].op and x.args[0] is el[0].args[0] and t is e.args[0]] if t is e.args[0] else \
                [x for x in subterms(e.args[0]) if x.op == el[0].op and x.args[0] is el[0].args[0]]
            if not any(self.varies(x, L) for x in subterms(base)) and any(x is not el[0] and sub(e.args[1] if t is e.args[0] else e.args[0], x) is base for x in other):
                return True
        return None

    def inpart(self, x, L):
        Q = self.I.loops.get(x.args[0])
        return Q is not None and L.id in self.up(Q) and Q.range is not None and self.part(Q.range, L)

    def term_local(self, t, L):
        """The value of a variable of the task."""
        if t.op in ('lv', 'lx') and len(t.args) > 1:
            key = t.args[1]
            return bool(key and isinstance(key[0], tuple) and self.local(key[0], L))
        return False

    def name(self, pl):
        r = pl.root
        s = self.type.get(r, '')
        k = {'a': 'a parameter', 'v': 'a variable', 'this': 'the object', 'g': 'a global object', 'e': 'an element', 'd': 'an object'}.get(r[0], 'an object')
        f = [str(x[1]) for x in pl.path if isinstance(x, tuple) and x[0] == 'f']
        return k + (' of type ' + s[:80] if s else '') + (' (member %s)' % f[0] if f else '') + (' ' + str(r[1])[:60] if r[0] == 'g' else '')

    def writes(self, L):
        """[(place, loc)] of what the task writes that is not its own local object."""
        out, seen = [], set()
        for a in self.I.acc:
            if a.w and L.id in a.loops and not self.local(a.pl.root, L) and not ATOMIC.match(self.type.get(a.pl.root, '')):
                k = (a.pl.root, a.pl.path, a.loc)
                if k not in seen:
                    seen.add(k)
                    out.append((a.pl, a.loc))
        for e in self.I.trace:
            if e.kind != 'call' or L.id not in e.loops or e.loops and e.loops[-1] != L.id and False:
                continue
            n = stem(e.q).rsplit('::', 1)[-1]
            if not re.match(r'^(std|tbb|boost)::', str(e.q)):
                continue
            pos = 0 if n in INPLACE else OUTPUT.get(n)
            if pos is None or not e.args:
                continue
            t = strip_cast(e.args[pos]) if -len(e.args) <= pos < len(e.args) else None
            while t is not None and t.op in ('ref', 'deref', 'copy', 'lin') and any(isinstance(x, T) for x in t.args):
                t = next(x for x in t.args if isinstance(x, T))
            if t is None or t.op not in ('begin', 'call') or not isinstance(t.args[-1], T):
                continue
            if t.op == 'call' and not re.search(r'::(begin|data)$', stem(t.args[0])):
                continue
            V = t.args[-1]
            rd = [a for a in self.I.acc if not a.w and a.val is V and L.id in a.loops]
            rd = [a for a in rd if a.loc == e.loc] or rd
            if rd and not any(self.local(a.pl.root, L) for a in rd):
                out.append((rd[-1].pl, e.loc))
        return out

    def conflicts(self, L, W):
        """Accesses of the task, to the objects it writes, outside of its own part."""
        roots = {}
        for pl, loc in W:
            roots.setdefault(pl.root, set()).add(pl.path)
        for a in self.I.acc:
            if a.w or L.id not in a.loops or a.pl.root not in roots:
                continue
            for c in a.pl.path:
                if isinstance(c, tuple) and c[0] == 'i':
                    if not self.own(c[1], L):
                        yield a, c[1]
                    break


def sites(P):
    """{function name: [call nodes]} of the functions that start parallel sections."""
    out = {}
    for f in P.funcs.values():
        if f.get('body') is None:
            continue
        ns = [n for n in nodes(f['body']) if n['k'] == 'call' and PAR.match(str(n.get('q') or ''))]
        if ns:
            q = f['q'].split('()::(lambda)')[0]
            out.setdefault(q, []).extend(P.loc(n) for n in ns)
    return out


def textual():
    """Where the sources mention a parallel algorithm."""
    out = set()
    for d in ('include', 'src'):
        for p in glob.glob(os.path.join(build.REPO, d, '**', '*.?pp'), recursive=True):
            s = open(p, errors='replace').read()
            s = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), s, flags=re.S)
            for i, l in enumerate(s.split('\n')):
                if re.search(r'\bparallel_(for_each|for|deterministic_reduce|reduce|invoke|sort|scan)\s*(<[^()]*>)?\(', l.split('//')[0]) and 'tbb' in l:
                    out.add('%s:%d' % (p, i + 1))
    return out


@rule('C01', UNITS, 'Every parallel section of the library is found in the instantiated program; for each task, all the memory it reads and writes (through '
      'the calls it makes) is classified as local, as its own part of a shared object (position derived from its part of the range), or shared.',
      ['The parallel algorithms give the tasks disjoint parts of the range.', 'Operations of user-defined types on distinct objects do not interfere.'], min_obligations=20)
def c01(cx):
    done = set()
    for u in UNITS:
        P = cx.progs[u]
        for q in sorted(sites(P)):
            for f in P.find(q):
                if f.get('body') is None or not f['body'] or f['q'] != q:
                    continue
                where = q + str(f.get('ta') or '')
                with cx.item(q):
                    I = Tracer(P)
                    I.ret = I.run(f)
                    cx.funcs.add((q, P.loc(f)))
                    section(cx, I, f, q, done)
    ran = {d[0] for d in done}
    for t in sorted(textual()):
        cx.ob(True if t in ran else None, 'covered', os.path.relpath(t, build.REPO), t, 'this parallel section is not reached from the analysed functions')


def section(cx, I, f, q, done):
    S = Section(cx, I, f)
    short = re.sub(r'.*::', '', q)
    groups = {}
    for L in I.loops.values():
        m = PAR.match(str(L.q or '')) if L.kind == 'cb' else None
        if not m:
            continue
        done.add((L.loc, f['id']))
        W = S.writes(L)
        what = 'parallel_%s in %s' % (m.group(1), short)
        if m.group(1) == 'invoke':
            groups.setdefault((L.loc, tuple(I.loops[L.id].guards or ()) if False else L.loc, L.parent), []).append((L, W))
            continue
        bad = unk = None
        for pl, loc in W:
            ix = [c[1] for c in pl.path if isinstance(c, tuple) and c[0] == 'i']
            if any(S.own(t, L) for t in ix) and m.group(1) != 'sort':
                continue
            o = S.owned_root(pl.root, L) if m.group(1) != 'sort' else False
            if o:
                continue
            if pl.root[0] in ('d',):
                unk = unk or (loc, S.name(pl))
                continue
            if pl.root[0] == 'e' and not (L.id in S.up(I.loops.get(pl.root[1])) if I.loops.get(pl.root[1]) else False):
                bad = (loc, S.name(pl))
                continue
            if ix and not all(S.foreign(t, L) for t in ix):
                # An index that depends on the task, in a way that is not recognised: distinct for distinct tasks?
                r = injective(S, ix, L)
                if r is None:
                    unk = unk or (loc, S.name(pl))
                    continue
            bad = (loc, S.name(pl))
        for a, t in S.conflicts(L, W):
            if S.foreign(t, L) or certainly(S, t, L):
                bad = bad or (a.loc, S.name(a.pl) + ' (read at a position written by another task)')
            else:
                unk = unk or (a.loc, S.name(a.pl))
        cx.ob(False if bad else None if unk else True, 'effects', what, (bad or unk or (L.loc,))[0],
              '' if not bad and not unk else 'tasks running at the same time write to the same %s' % (bad or unk)[1])
    for (loc, _, _), ls in groups.items():
        bad = None
        for L, W in ls:
            for M, _ in ls:
                if M is L:
                    continue
                for pl, wl in W:
                    for a in I.acc:
                        if M.id in a.loops and a.pl.root == pl.root and overlap(a.pl.path, pl.path) and not S.local(a.pl.root, M):
                            if not (len(a.pl.path) < len(pl.path) and not a.w):
                                bad = (wl, S.name(pl), a.loc)
        cx.ob(not bad, 'effects', 'parallel_invoke in ' + short, bad[0] if bad else loc, '' if not bad else '%s is written by one task and used by another at %s' % bad[1:])


def overlap(p, q):
    n = min(len(p), len(q))
    return tuple(p[:n]) == tuple(q[:n])


def certainly(S, t, L):
    """An index of the own part shifted by a nonzero constant."""
    lvs_ = [x for x in subterms(t) if x.op == 'lv']
    for v in lvs_:
        if S.own(v, L):
            d = sub(strip_cast(t), v)
            if d.op == 'c' and d is not ZERO:
                return True
    return False


def injective(S, ix, L):
    """False when two tasks certainly use the same index: a quotient or a remainder of the own position by a constant."""
    for t in ix:
        t = strip_cast(t)
        if t.op in ('mod', 'div', 'shr', 'and') and any(S.own(x, L) for x in subterms(t) if x.op == 'lv') and t.args[1].op == 'c':
            return False
    return None


# ---- process-wide state ---------------------------------------------------------------

ALL = ['base.cpp', 'conv.cpp', 'conv2.cpp', 'kpack.cpp', 'monomials.cpp', 'symbols.cpp', 'usrc.cpp', 'strace.cpp', 's11n.cpp', 'series.cpp', 'poly.cpp']
SYNC = re.compile(r'^(const )?(std::(atomic\b|atomic_flag|mutex|recursive_mutex|shared_mutex|once_flag|condition_variable|__atomic_base)|'
                  r'tbb::(\w+::)*(\w*mutex|concurrent_\w+|enumerable_thread_specific|combinable)\b|obake::detail::atomic_)')


READS = {'find', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'count', 'at', 'contains', 'load'}


def in_repo(loc):
    return str(loc).startswith(build.REPO + '/')


@rule('C02', ALL, 'Enumerates every variable of static storage duration in the instantiated library; a mutable one must be synchronised by its type, '
      'belong to a thread, or have every access (through the references handed out to it) dominated by one and the same held lock.',
      ['Initialisation of function-local static variables is thread-safe (as the language requires).'], min_obligations=8)
def c02(cx):
    seen = {}
    for u in ALL:
        P = cx.progs[u]
        for g in P.gvars.values():
            loc = str(P.loc(g))
            if not in_repo(loc):
                continue
            t = P.types[g['t']]
            key = (g['q'], loc)
            how = None
            if g.get('tls'):
                how = 'belongs to the thread'
            elif t.endswith('&'):
                how = 'a reference, bound once'
            elif SYNC.match(t):
                how = 'synchronised by its type'
            elif re.match(r'const\b', t) or t.endswith(' const') or g.get('constexpr'):
                how = 'constant'
            if how:
                if key not in seen:
                    seen[key] = True
                    cx.ob(True, 'state', plainname(g['q']), loc, how)
                continue
            with cx.item(g['q']):
                guarded(cx, P, g, t, loc, seen)
    # Values computed once must not come from the arguments of the call that happened to be the first.
    done = set()
    for u in ALL:
        P = cx.progs[u]
        for f in P.funcs.values():
            if not f.get('body') or not in_repo(P.loc(f)):
                continue
            for v in decls(f['body']):
                if not v.get('static') or v.get('cx') or not v.get('init'):
                    continue
                vl = str(P.loc(v))
                src = first_call(f, v['init'])
                if (vl, bool(src)) in done:
                    continue
                done.add((vl, bool(src)))
                cx.ob(not src, 'initial value', plainname(f['q']) + ', ' + v['n'], vl, 'the value kept for all later calls is computed from %s of the first call' % src)


def decls(o):
    """Variables declared in a tree."""
    if isinstance(o, dict):
        if o.get('s') == 'decl':
            yield from o['v']
        for v in o.values():
            yield from decls(v)
    elif isinstance(o, list):
        for v in o:
            yield from decls(v)


def first_call(f, init, depth=0):
    """Name of an argument of the enclosing call (or of the object it is made on) that the initialiser uses, directly or through local variables."""
    params = {p['d']: p['n'] for p in f['params']}
    local = {}
    for v in decls(f['body']):
        if not v.get('static') and not v.get('cx'):
            local[v['d']] = v

    def use(d, n):
        if d in params:
            return params[d]
        v = local.get(d)
        return first_call(f, v['init'], depth + 1) if v is not None and v.get('init') and depth < 5 else None
    for n in nodes(init):
        r = None
        if n['k'] == 'ref' and n.get('dk') == 'parm' and n.get('cap') and n.get('d') not in params:
            r = n.get('n')
        elif n['k'] == 'ref' and n.get('dk') in ('parm', 'var') and 'cv' not in n:
            r = use(n.get('d'), n)
        elif n['k'] == 'this':
            r = 'the object'
        elif n['k'] == 'lambda':
            for c in n.get('caps', ()):
                r = r or ('the object' if c.get('this') else use(c['d'], c) if c.get('d') is not None and 'init' not in c else None)
        if r:
            return r
    return None


def plainname(q):
    return re.sub(r'\(anon\)::|obake::', '', str(q))


def guarded(cx, P, g, t, loc, seen):
    gid = g['id']
    name = plainname(g['q'])
    mention = [f for f in P.funcs.values() if f.get('body') and any(n['k'] == 'ref' and n.get('d') == gid for n in nodes(f['body']))]
    if not mention:
        return
    done, work, accs, given = set(), [(f, 0) for f in mention], [], set()
    while work:
        f, depth = work.pop()
        f = outer(P, f)
        if f['id'] in done or depth > 3:
            continue
        done.add(f['id'])
        # One instance of a template per program stands for the others unless they differ in what they do with the object.
        I = Tracer(P)
        I.ret = I.run(f)
        cx.funcs.add((f['q'], P.loc(f)))
        a, out = accesses(I, gid, g)
        if out and not any(x[0] for x in a):
            given |= {x[1] for x in a}
            a = []
        accs += [(x, f) for x in a]
        if out:
            ids = {f['id']}
            for h in P.funcs.values():
                if h.get('body') and any(n['k'] == 'call' and (n.get('f') in ids or n.get('d') in ids or str(n.get('q')) == f['q']) for n in nodes(h['body'])):
                    work.append((h, depth + 1))
    # Binding a reference to the object, to hand it out, is not an access.
    accs = [(x, f) for x, f in accs if x[0] or x[1] not in given]
    writes = [x for x, f in accs if x[0]]
    if not writes:
        cx.ob(True if not accs or True else None, 'state', name, loc, 'never changed after its initialisation')
        return
    for (w, al, ms), f in accs:
        k = (g['q'], al)
        if k in seen and seen[k] == bool(ms):
            continue
        seen[k] = bool(ms)
        cx.ob(bool(ms), 'lock', name, al, 'the shared object is %s %s' % ('changed' if w else 'read', 'while a lock is held' if ms else 'without holding a lock'))
    common = None
    for (w, al, ms), f in accs:
        common = set(ms) if common is None else common & set(ms)
    if all(ms for (w, al, ms), f in accs):
        cx.ob(bool(common), 'same lock', name, loc, 'accesses hold different locks' if not common else '')
        for m in common or ():
            ms = [v for v in P.gvars.values() if m in (v['q'], v.get('n'), v['q'].rsplit('::', 1)[-1]) and 'mutex' in P.types[v['t']]]
            if ms:
                cx.ob(not any(v.get('tls') for v in ms), 'one lock', name, str(P.loc(ms[0])), 'every thread has its own lock, which excludes no other thread')


def outer(P, f):
    """The enclosing function of a lambda, when it is in the program."""
    q = f['q']
    if '(lambda)' not in q:
        return f
    o = q.split('()::(lambda)')[0]
    c = [h for h in P.find(o) if h.get('body') and f['id'] in {n.get('f') for n in nodes(h['body'])} | {n.get('d') for n in nodes(h['body'])}]
    return c[0] if c else next((h for h in P.find(o) if h.get('body')), f)


def held_locks(I):
    """[mutex, guard, event of locking, event of unlocking (None: never)]"""
    held = []
    for e in I.trace:
        if e.kind == 'decl' and e.extra and re.match(r'(const )?std::(lock_guard|unique_lock|scoped_lock)<', str(e.extra)):
            v = e.args[0]
            ms = [x for x in subterms(v) if x.op == 'glob']
            if v.op == 'ctor' and ms and not any(re.search('defer|try_to', str(x)) for x in v.args[1:]):
                held.append([ms[0].args[0], e.places[0], e.i, None])
        elif e.kind == 'unlock' or e.kind == 'call' and re.search(r'std::unique_lock::unlock$', str(e.q)):
            for h in held:
                if e.places and h[1] == e.places[0] and h[3] is None:
                    h[3] = e.i
        elif e.kind == 'call' and str(e.q) in ('std::mutex::lock', 'std::mutex::unlock'):
            pl = e.places[0]
            if str(e.q).endswith('::lock'):
                held.append([e.args[0].args[0] if e.args and e.args[0].op == 'glob' else str(pl), pl, e.i, None])
            else:
                for h in held:
                    if h[1] == pl and h[3] is None:
                        h[3] = e.i
    return held


def accesses(I, gid, g):
    """([(write?, loc, {mutexes held})], is a reference to the object handed out?)"""
    held = held_locks(I)
    nm = {g['q'], g.get('n'), g['q'].rsplit('::', 1)[-1]}

    def mine(pl):
        if pl is None or not isinstance(pl, Place):
            return False
        r = pl.root
        if r[0] == 'g':
            return len(r) > 2 and r[2] == gid
        return r[0] == 'd' and isinstance(r[1], T) and any(x.op == 'glob' and x.args[0] in nm for x in subterms(r[1])) and \
            not any(x.op == 'call' and re.search(r'(unique|shared)_ptr::', str(x.args[0])) for x in subterms(r[1]))
    out = []

    def at(i):
        return frozenset(h[0] for h in held if h[2] < i and (h[3] is None or i <= h[3]))
    init = {e.loc for e in I.trace if e.kind == 'decl' and e.places and mine(e.places[0])}
    for a in I.acc:
        if mine(a.pl) and a.loc not in init:
            out.append((a.w, a.loc, at(a.i + 1)))
    for e in I.trace:
        if e.kind in ('call', 'asg') and e.loc not in init and any(mine(p) for p in e.places or ()) and not re.search(r'::(ref|cref|make_tuple|tie|forward_as_tuple|addressof)$', stem(e.q)):
            out.append((True, e.loc, at(e.i)))
        elif e.kind == 'call' and e.args and isinstance(e.args[0], T) and e.args[0].op == 'glob' and e.args[0].args[0] in nm and \
                stem(e.q).rsplit('::', 1)[0] == stem(I.P.types[g['t']]) and stem(e.q).rsplit('::', 1)[-1] not in ('ref', 'cref', 'get'):
            out.append((stem(e.q).rsplit('::', 1)[-1] not in READS, e.loc, at(e.i)))
    ret = I.ret
    given = isinstance(ret, T) and any(x.op == 'glob' and x.args[0] in nm or x.op == 'addr' and len(x.args[0]) > 2 and x.args[0][2:3] == (gid,) for x in subterms(ret) if x.op in ('glob', 'addr'))
    return out, given


def shared_state(cx):
    """Process-wide state used by the functions which a rule has analysed: every property is to hold whatever other threads do, and whatever was called first."""
    mine = set(cx.funcs)
    seen, done = {}, set()
    for P in cx.progs.values():
        fs = [f for f in P.funcs.values() if f.get('body') and (f['q'], str(P.loc(f))) in mine and in_repo(P.loc(f))]
        used = {n.get('d') for f in fs for n in nodes(f['body']) if n['k'] == 'ref'}
        for g in P.gvars.values():
            loc, t = str(P.loc(g)), P.types[g['t']]
            if g['id'] not in used or not in_repo(loc) or g.get('tls') or t.endswith('&') or SYNC.match(t) or re.match(r'const\b', t) or t.endswith(' const') or g.get('constexpr'):
                continue
            with cx.item(g['q']):
                guarded(cx, P, g, t, loc, seen)
        for f in fs:
            for v in decls(f['body']):
                if v.get('static') and not v.get('cx') and v.get('init') and str(P.loc(v)) not in done:
                    done.add(str(P.loc(v)))
                    src = first_call(f, v['init'])
                    cx.ob(not src, 'initial value', plainname(f['q']) + ', ' + v['n'], str(P.loc(v)), 'the value kept for all later calls is computed from %s of the first call' % src if src else '')
