"""Rules for the utilities: generator, printing, locking, flyweight storage, hardware concurrency, tuple visits, powers, errors."""
from ..rlib import *
from . import rule
from .r_conc import held_locks

P_ = lambda n: mk('p', n)
INT_W = dict((k, v) for k, v in INTS.items())


def params(f):
    return [p['n'] for p in f['params']]


def rng_ref(a, b, n):
    """n reference outputs of the generator from state (a, b)."""
    outs = []
    for _ in range(n):
        outs.append(add(a, b))
        x = mk('bxor', *sorted((a, b)))
        na = mk('bxor', *sorted((mk('bxor', *sorted((x, mk('rotl', 64, a, 24)))), mk('shl', x, C(16)))))
        b = mk('rotl', 64, x, 37)
        a = na
    return outs


@rule('U01', ['base.cpp'],
      'Value-numbering summaries of the generator: seeded with symbolic state (a, b), the first three outputs, the value drawn for '
      'each of the 13 integral types and the output following that draw are computed as closed terms and compared with the '
      'reference recurrence (a+b; rotl24(a)^x^(x<<16); rotl37(x), x=a^b).',
      ['Unsigned 64-bit arithmetic wraps.'], 30)
def u01(cx):
    P = cx.progs['base.cpp']
    a, b = P_('a'), P_('b')
    ref = rng_ref(a, b, 4)
    for q, n in (('hx::rng_seq', 3), ('hx::rng_next', 2)):
        f, = cx.entry(P, q)
        I = cx.analyse(P, f)
        for i in range(n):
            cx.same('sequence', 'output %d of %s' % (i, 'operator()' if 'seq' in q else 'next()'), gen_loc(I),
                    I.final.store[('a', 2 + i)], ref[i], 64)
    for q, v in (('hx::rng_min', 0), ('hx::rng_max', (1 << 64) - 1)):
        f, = cx.entry(P, q)
        I = cx.analyse(P, f)
        cx.same('range', 'declared bound ' + q[8:], gen_loc(I), I.ret, C(v), 64)
    fs = cx.entry(P, 'hx::rng_random', 13)
    for f in fs:
        t = f['ta'][1:-1]
        w, s = INTS[t]
        I = cx.analyse(P, f)
        r, nxt = I.final.store[('a', 2)], I.final.store[('a', 3)]
        if w <= 64:
            want, k = ref[0], 1
        else:
            m64 = lambda v: mk('cast', 'unsigned long', v)
            want, k = add(scale(m64(ref[0]), 1 << 64), m64(ref[1])), 2
        drawn(cx, 'random<%s>' % t, gen_loc(I), r, want, w)
        cx.same('consumed', 'draws consumed by random<%s>' % t, gen_loc(I), nxt, ref[k], 64)


def drawn(cx, what, loc, got, want, w):
    """The value drawn, modulo 2^w; the outputs it is made of are 64-bit words."""
    from ..fold import canon, fold, samples, NoValue
    if got is want or canon(got, w) is canon(want, w):
        return cx.ob(True, 'draw', what, loc)
    words = {}

    def word(x):
        if w > 64 and x.op == 'cast' and x.args[0] in ('unsigned long', 'unsigned long long'):
            return words.setdefault(x.args[1], mk('p', '$%d' % len(words)))
        return None
    g, e = subst(got, word), subst(want, word)
    M = (1 << w) - 1
    for va in samples(None, 64, False):
        for vb in samples(None, 64, False):
            env = {P_('a'): va, P_('b'): vb}
            try:
                env.update({v: fold(z, env, 64) & ((1 << 64) - 1) for z, v in list(words.items())})
                x, y = fold(g, env, max(w, 64)), fold(e, env, max(w, 64))
            except NoValue:
                continue
            if (x - y) & M:
                return cx.ob(False, 'draw', what, loc, 'value is %s where %s is required (a=%d, b=%d gives %d, expected %d)' % (
                    show(got, 6)[:300], show(want, 6)[:300], va, vb, x & M, y & M))
    cx.ob(None, 'draw', what, loc, 'value not recognised: %s' % show(got, 6)[:300])


def gen_loc(I):
    for e in I.trace:
        if '/repo/' in (e.loc or ''):
            return e.loc
    return I.trace[-1].loc if I.trace else ''


def ret_loc(I):
    for e in reversed(I.trace):
        if '/repo/' in (e.loc or '') and e.kind in ('ret', 'throw', 'asg', 'call'):
            return e.loc
    return gen_loc(I)


# ---- integer printing -------------------------------------------------------------

@rule('U02', ['usrc.cpp'],
      'For each of the 13 integral types, the summary of the printing routine: the digit-extraction loop (start value, step, exit '
      'test, stored character, write position), the declared capacity of the local buffer against the exact number of digits of '
      'the type, the sign write, the range of characters returned and the zero case.',
      ['The standard string constructor from a reversed character range copies that range.'], 13 * 6)
def u02(cx):
    P = cx.progs['usrc.cpp']
    for f in cx.entry(P, 'hx::to_str', 13):
        t = f['ta'][1:-1]
        print_rule(cx, P, f, t)
    for q, t in (('hx::cfs_i128', '__int128'), ('hx::cfs_u128', 'unsigned __int128')):
        f, = cx.entry(P, q)
        I = cx.analyse(P, f)
        # The text streamed is the text printed for that type.
        I3 = cx.analyse(P, f, stops={'obake::detail::to_string'})
        outs = [e for e in I3.trace if e.kind == 'call' and e.q.split('::')[-1] in ('operator<<', 'write', 'put')]
        text = lambda x: contains(x, lambda y: y.op == 'call' and y.args[0].startswith('obake::detail::to_string') and y.args[1] is P_('n'))
        num = [e for e in outs if e.q.startswith('std::basic_ostream') and e.q.endswith('operator<<') and e.args[-1] is not None
               and not text(e.args[-1]) and contains(e.args[-1], lambda y: y is P_('n'))]
        for e in num:
            cx.ob(False, 'stream', 'coefficient insertion of ' + t, e.loc, 'the number itself is inserted: the text depends on the state of the stream')
        if num:
            continue
        good = [e for e in outs if e.args[0] is P_('os') and not e.loops and text(e.args[1])]
        ok = None
        if not outs:
            ok = False
        elif len(good) == len(outs):
            r = logic.equiv(lor(*[land(*e.guards) for e in good]), land(*I3.final.guards))
            dis = all(logic.implies(land(*a.guards), lnot(land(*b.guards))) for i, a in enumerate(good) for b in good[:i])
            ok = True if r and dis else (False if r is False or len(good) > 1 and not dis else None)
        cx.ob(ok, 'stream', 'coefficient insertion of ' + t, ret_loc(I), '' if ok else 'the printed number does not reach the stream exactly once')


def lvs(lid, key):
    return mk('lv', lid, key)


def print_rule(cx, P, f, t):
    w, s = INTS[t]
    I = cx.analyse(P, f)
    where = 'printing of ' + t
    loc = ret_loc(I)
    U = lambda why: cx.ob(None, 'shape', where, loc, why)
    n = P_('n')
    lps = [l for l in I.loops.values() if l.step]
    if len(lps) != 1:
        return U('%d loops' % len(lps))
    lp = lps[0]
    loc = lp.loc or loc
    # Roles of the loop variables.
    num = ln = buf = None
    for k, st in lp.step.items():
        v = lvs(lp.id, k)
        if st is add(v, ONE) and lp.init[k].op == 'c':
            ln = k
        elif st.op == 'with' and st.args[0] is v:
            buf = k
        elif contains(st, lambda x: x.op in ('div', 'shr')) or contains(strip_cast(lp.init[k]), lambda x: x is n):
            num = k
    if num is None or ln is None or buf is None or len(lp.step) != 3:
        return U('the loop variables are not a number, a length and a buffer')
    cx.ob(lp.init[ln] is ZERO, 'position', where + ' (first)', loc, 'the first character is stored at %s' % show(lp.init[ln], 2))
    vnum, vlen, vbuf = lvs(lp.id, num), lvs(lp.id, ln), lvs(lp.id, buf)
    U10 = mk('div', vnum, C(10))
    # Conversions which keep every value the number can have.
    keep = lambda t: subst(t, lambda x: keep(x.args[1]) if x.op == 'cast' and bare(x.args[0]) in INTS and INTS[bare(x.args[0])][0] >= w and not (INTS[bare(x.args[0])][1] and INTS[bare(x.args[0])][0] == w) else None)
    st = keep(strip_cast(lp.step[num]))
    if st is U10:
        cx.ob(True, 'step', where, loc)
    else:
        cx.same('step', where, loc, lp.step[num], U10, 128, mod=False, vars_=[vnum], dom=[v for v in (0, 1, 9, 10, 11, 99, 100, 101, 255, 12345) if v < 1 << w],
                what='the value carried to the next iteration')
    # Start value: |n|, in an unsigned type at least as wide as the argument.
    dom = [v for v in _samples(w, s)]
    got = lp.init[num]
    bad = None
    for v in dom:
        try:
            g = _fold_mod(got, {n: v}, w)
        except Exception:
            bad = 'undecided'
            break
        if g != abs(v) % (1 << w):
            bad = 'n=%d starts from %d' % (v, g)
            break
    if bad is None:
        cx.ob(True, 'start', where, loc)
    elif bad == 'undecided':
        cx.ob(None, 'start', where, loc, show(got))
    else:
        cx.ob(False, 'start', where, loc, 'digit extraction does not start from the absolute value: ' + bad)
    ty = decl_type(P, I, num)
    if ty is not None and int_of(ty) is not None:
        w2, s2 = int_of(ty)
        need_u = w if not s else w
        ok = w2 >= w and (not s2 or w2 > w)
        cx.ob(ok, 'start type', where, loc, '' if ok else 'the absolute value is held in %s, which cannot hold it for every %s' % (ty, t))
    else:
        cx.ob(None, 'start type', where, loc)
    cx.cond('exit', where, loc, truth(lp.cond), lnot(eq(vnum, ZERO)), 'the loop condition', nonneg=(vnum,))
    cx.ob(not lp.nbreaks, 'exit', where + ' (no early exit)', loc, 'the digit loop can stop before the number is exhausted')
    # Character stored.
    b = lp.step[buf]
    cx.same('position', where, loc, b.args[2], vlen, 64, mod=False, vars_=[vlen], what='the position written')
    ch = b.args[3]
    # The remainder may be what is left after taking away ten times the quotient.
    c0 = ch.args[1] if ch.op == 'cast' and bare(ch.args[0]) in INTS else ch
    if sub(keep(strip_cast(c0)), C(48)) is sub(vnum, mul(C(10), U10)):
        ch = add(mk('mod', vnum, C(10)), C(48))
    cx.same('digit', where, loc, ch, add(mk('mod', vnum, C(10)), C(48)), 8, vars_=[vnum],
            dom=[v for v in list(range(0, 40)) + [99, 100, 1009] if v < 1 << w], what='the character stored')
    # Capacity.
    cap = None
    for e in I.trace:
        if e.kind == 'decl' and e.places and e.places[0].root == buf[0]:
            m = re.search(r'\[(\d+)\]', e.extra or '')
            if m:
                cap = int(m.group(1))
    need = len(str((1 << w) - 1)) if not s else len(str(1 << (w - 1))) + 1
    if cap is None:
        cx.ob(None, 'capacity', where, loc)
    else:
        cx.ob(cap >= need, 'capacity', where, loc, '%d characters are reserved, %s needs up to %d' % (cap, t, need))
    # Result.
    xlen, xbuf = mk('lx', lp.id, ln), mk('lx', lp.id, buf)
    nz = lnot(eq(xlen, ZERO))
    neg = lt(n, ZERO)
    r = I.ret
    zero = mk('str', '0')
    isz = eq(xlen, ZERO)
    for zv in (True, False):
        for sv in ((True, False) if s else (False,)):
            known = {isz: zv, lnot(isz): not zv, neg: sv, lnot(neg): not sv}
            # the number itself is zero exactly when no digit was produced
            known[eq(n, ZERO)] = zv
            known[lnot(eq(n, ZERO))] = not zv
            if zv and sv:
                continue
            g = assume_in(r, known)
            nm = '%s (%s)' % (where, 'zero' if zv else 'negative' if sv else 'positive')
            if zv:
                if g is zero:
                    cx.ob(True, 'result', nm, loc)
                else:
                    ranges = [x for x in subterms(g) if x.op == 'str']
                    cx.ob(False if (ranges or _empty_range(g, xlen)) else None, 'result', nm, loc, 'zero is printed as ' + show(g, 5)[:200])
                continue
            its = [x for x in subterms(g) if x.op == 'call' and 'make_reverse_iterator' in str(x.args[0])]
            if len(its) != 2 or g.op != 'ctor':
                cx.ob(None if g.op == 'ctor' else False if g.op == 'str' else None, 'result', nm, loc, show(g, 5)[:300])
                continue
            order = [x for x in g.args if isinstance(x, T) and x.op == 'call' and 'make_reverse_iterator' in str(x.args[0])]
            if len(order) != 2:
                cx.ob(None, 'result', nm, loc, show(g, 5)[:300])
                continue
            full = mk('with', xbuf, 'i', xlen, C(45)) if sv else xbuf
            wl = add(xlen, ONE) if sv else xlen
            wantb, wante = add(full, wl), full
            for what, x, want in (('first', order[0].args[1], wantb), ('last', order[1].args[1], wante)):
                if x is want:
                    cx.ob(True, 'result', nm + ', ' + what, loc)
                else:
                    # Comparable when made of the buffer, the length and constants only.
                    ok = all(y.op in ('with', 'lx', 'c', 'lin', 'i', 'cast') for y in subterms(x))
                    cx.ob(False if ok else None, 'result', nm + ', ' + what, loc, 'the text is taken from %s, expected %s' % (show(x, 5)[:200], show(want, 5)[:200]))


def _u8(t):
    return mk('cast', 'unsigned char', t)


def _empty_range(g, xlen):
    return False


def _samples(w, s):
    M = (1 << w) - 1
    v = [0, 1, 2, 9, 10, 11, 99, 100, 127, 255, 256, M >> 1, (M >> 1) + 1, M, M - 1, 12345]
    out = []
    for x in v:
        x &= M
        if s and x >> (w - 1):
            x -= 1 << w
        if x not in out:
            out.append(x)
    if s:
        out += [-1, -2, -10, -100]
    return out


def _fold_mod(t, env, w):
    from ..fold import fold
    return fold(t, env, w) % (1 << w)


def decl_type(P, I, key):
    for e in I.trace:
        if e.kind == 'decl' and e.places and e.places[0].root == key[0]:
            return bare(e.extra or '')
    # Parameters of the functions analysed.
    for i in I.seen_funcs:
        for p in (P.funcs.get(i) or {}).get('params', ()):
            if p.get('d') is not None and len(key[0]) > 1 and p['d'] == key[0][1] and key[0][0] == 'v':
                return bare(P.ty(p['t']))
    return None


# ---- spin lock and flag arrays ------------------------------------------------------

ACQ = {'std::memory_order_acquire', 'std::memory_order_acq_rel', 'std::memory_order_seq_cst', 'std::memory_order::acquire',
       'std::memory_order::acq_rel', 'std::memory_order::seq_cst'}
REL = {'std::memory_order_release', 'std::memory_order_acq_rel', 'std::memory_order_seq_cst', 'std::memory_order::release',
       'std::memory_order::acq_rel', 'std::memory_order::seq_cst'}


def order_in(e, ok):
    """Memory orders named by a call (no argument: sequentially consistent)."""
    os_ = [x.args[0] for a in e.args[1:] for x in subterms(a) if x.op == 'glob' and 'memory_order' in str(x.args[0])]
    os_ += ['enum:%s' % a.args[0] for a in e.args[1:] if a.op == 'c']
    if not os_:
        return True
    return all(o in ok for o in os_)


@rule('U03', ['base.cpp', 'usrc.cpp'],
      'Lock guard: the trace of constructing and destroying the guard on a symbolic flag (spin condition is the atomic '
      'test-and-set with acquire ordering, exactly one release clear on scope exit, every exit of the spin loop leaves with the flag '
      'acquired).  Flag array: capacity test against the allocation size, one construction and one clear per slot over exactly the '
      'allocated range, element access at the same stride.',
      ['The standard atomic_flag operations behave as specified.'], 9)
def u03(cx):
    P = cx.progs['base.cpp']
    f, = cx.entry(P, 'hx::lock_take')
    I = cx.analyse(P, f)
    loc = ret_loc(I)
    tas = [e for e in I.trace if e.kind == 'call' and e.q in ('std::atomic_flag::test_and_set', 'std::atomic_flag_test_and_set_explicit', 'std::atomic_flag_test_and_set')]
    clr = [e for e in I.trace if e.kind == 'call' and e.q in ('std::atomic_flag::clear', 'std::atomic_flag_clear_explicit', 'std::atomic_flag_clear')]
    cx.ob(len(tas) >= 1, 'acquire', 'lock guard construction', loc, 'the flag is never tested and set')
    for e in tas:
        cx.ob(order_in(e, ACQ), 'acquire order', 'lock guard construction', e.loc, 'the acquisition does not order later accesses (acquire needed)')
    spins = [l for l in I.loops.values()]
    if tas:
        # Leaving the loop requires test_and_set to have returned false.
        ok = None
        if not spins:
            ok = False
        for l in spins:
            c = truth(l.cond) if l.cond is not None else TRUE
            inl = [e for e in tas if l.id in e.loops or (l.cond is not None and contains(l.cond, lambda x: is_tas(x)))]
            if not inl:
                continue
            # Exit condition of the loop: !cond or a break; each must imply !tas.
            exits = []
            if c is not TRUE:
                exits.append(lnot(c))
            exits += [x for x, k in l.exits if k in ('break', 'ret', 'return')]
            ok = bool(exits)
            for x in exits:
                m = [y for y in subterms(x) if is_tas(y)]
                if not m:
                    ok = False
                    continue
                if any(logic.implies(x, lnot(y)) is True for y in m):
                    continue
                ok = False
        if ok is None and not any(contains(t, lambda x: is_tas(x)) for l in spins for t in [l.cond] + [x for x, _ in l.exits] + list(l.step.values()) if isinstance(t, T)):
            ok = False      # what test_and_set reports decides nothing
        cx.ob(ok, 'spin', 'lock guard construction', tas[0].loc, 'the constructor can return although the flag was already set by another holder')
    cx.ob(len(clr) == 1 and not clr[0].loops and not [g for g in clr[0].guards if not contains(g, lambda x: is_tas(x))], 'release',
          'lock guard destruction', clr[0].loc if clr else loc, 'the flag is not cleared exactly once when the guard goes out of scope')
    for e in clr:
        cx.ob(order_in(e, REL), 'release order', 'lock guard destruction', e.loc, 'the release does not order earlier accesses (release needed)')
        cx.ob(all(e.i > x.i for x in tas), 'release', 'lock guard destruction (after acquisition)', e.loc, 'the flag is cleared before it is acquired')
    # Flag array.
    P = cx.progs['usrc.cpp']
    f, = cx.entry(P, 'hx::flags_make')
    I = cx.analyse(P, f)
    n = P_('n')
    loc = ret_loc(I)
    news = [e for e in I.trace if e.kind == 'new' and e.extra[2] is not None]
    places = [e for e in I.trace if e.kind == 'new' and e.extra[1]]
    sz = atomic_flag_size(P)
    if len(news) == 1:
        e = news[0]
        cx.same('allocation', 'flag array storage', e.loc, e.extra[2], scale(n, sz), 64, what='the number of bytes allocated')
        thr = [x for x in I.trace if x.kind == 'throw']
        cx.ob(all('bad_alloc' in x.q for x in thr), 'allocation', 'flag array overflow error', thr[0].loc if thr else loc, 'an oversized request must be reported as an allocation failure')
        lim = ((1 << 64) - 1) // sz
        tc = throw_cond(I)
        ok = True if sz == 1 and tc is FALSE else logic.implies(lt(C(lim), n), tc, assume=lnot(lt(C((1 << 64) - 1), n)))
        cx.ob(ok, 'allocation', 'flag array overflow check', e.loc, 'the size computation can overflow')
        # Nothing in range is refused.
        ok = logic.implies(tc, lt(C(lim), n))
        cx.ob(ok, 'allocation', 'flag array accepts representable sizes', e.loc, 'a representable size is refused')
    else:
        cx.ob(None, 'allocation', 'flag array storage', loc)
    ini = [e for e in I.trace if e.kind == 'call' and e.q.startswith('std::atomic_flag') and 'clear' in e.q]
    if len(news) == 1 and len(I.loops) == 1:
        l, = I.loops.values()
        pv = [k for k in l.step if l.step[k] is not lvs(l.id, k) and k[0][0] != 'd']
        cx.ob(len(places) == 1 and places[0].loops == (l.id,) and guard_of(places[0], l.guards) is truth(l.cond), 'initialisation',
              'every slot is constructed', places[0].loc if places else loc, 'a slot is left without a constructed flag')
        cx.ob(len(ini) == 1 and ini[0].loops == (l.id,) and guard_of(ini[0], l.guards) is truth(l.cond), 'initialisation',
              'every slot is cleared', ini[0].loc if ini else loc, 'a slot is left without being cleared')
        if len(pv) == 1 and not l.nbreaks:
            k = pv[0]
            v = lvs(l.id, k)
            base = l.init[k]
            st = sub(l.step[k], v)
            cond = truth(l.cond)
            # pointer loop from the first byte to one past the last, or index loop.
            if base.op == 'call' or is_c(base):
                tot = scale(n, sz) if st is C(sz) else n if st is ONE else None
                if tot is not None:
                    end = add(base, tot if not is_c(base) or st is not ONE or sz == 1 else n)
                    r1 = logic.equiv(cond, lnot(eq(v, end)))
                    r2 = logic.equiv(cond, lt(v, end))
                    cx.ob(True if r1 or r2 else False, 'initialisation', 'range of slots', l.loc, 'the loop covers %s .. %s instead of all slots' % (show(base, 4), show(cond, 6)))
                else:
                    cx.ob(False if is_c(st) else None, 'initialisation', 'range of slots', l.loc, 'the loop advances by %s bytes, slots are %d bytes apart' % (show(st), sz))
                if base.op == 'call' and places:
                    cx.ob(places[0].extra[1][0] is v, 'initialisation', 'slot address', places[0].loc, 'the flag is constructed away from its slot')
            else:
                cx.ob(None, 'initialisation', 'range of slots', l.loc)
        else:
            cx.ob(None, 'initialisation', 'range of slots', loc)
    else:
        cx.ob(None, 'initialisation', 'every slot', loc)
    for q in ('hx::flags_at', 'hx::flags_cat'):
        f, = cx.entry(P, q)
        I = cx.analyse(P, f)
        r = I.ret
        idx = P_('n')
        if r.op == 'deref' and any(x.op == 'call' for x in subterms(r)):
            p = r.args[0]
            base = [x for x in subterms(p) if x.op == 'call']
            cx.same('access', 'element access ' + ('const' if 'cat' in q else ''), ret_loc(I), p, add(base[0], scale(idx, sz)), 64, what='the address of element n')
        else:
            cx.ob(None, 'access', 'element access', ret_loc(I), show(r))


def is_tas(x):
    return x.op == 'call' and 'test_and_set' in str(x.args[0])


def atomic_flag_size(P):
    return 1


# ---- flyweight storage ---------------------------------------------------------------

def by_presence(I):
    """What a search of a map tells about a key is expressed through the insertion of that key which follows."""
    mp = lambda e, *ns: e.kind == 'call' and re.match(r'std::(unordered_)?map::', str(e.q)) and str(e.q).split('::')[-1] in ns and len(e.args) > 1
    ins = [e for e in I.trace if mp(e, 'try_emplace', 'emplace', 'insert') and isinstance(e.res, T)]
    if len(ins) != 1:
        return I
    e = ins[0]
    m, fresh, first = e.args[0], mk('fld', e.res, 'second'), mk('fld', e.res, 'first')
    to = {}
    for x in I.trace:
        if not (mp(x, 'find', 'count', 'contains') and x.i < e.i and x.args[1] is e.args[1] and isinstance(x.res, T)):
            continue
        # Nothing else touches the map between the two.
        if any((mp(y, 'erase', 'clear', 'extract', 'swap', 'merge', 'operator[]') or str(y.q or '').endswith('::unlock')) and x.i < y.i < e.i for y in I.trace):
            continue
        n = str(x.q).split('::')[-1]
        if n == 'find':
            to[eq(x.res, mk('end', m))] = fresh
            to[x.res] = first
        elif n == 'count':
            to[eq(x.res, ZERO)] = fresh
        else:
            to[truth(x.res)] = lnot(fresh)
            to[x.res] = lnot(fresh)
    if not to:
        return I
    f = lambda y: to.get(y)
    g = lambda y: subst(y, f) if isinstance(y, T) else y
    for x in I.trace:
        x.guards = type(x.guards)(c for c in map(g, x.guards) if c is not TRUE)
        x.args = type(x.args)(map(g, x.args))
        if x is not e:
            x.res = g(x.res)
        if x.extra is not None and isinstance(x.extra, (tuple, list)):
            x.extra = tuple(tuple(map(g, y)) if isinstance(y, (tuple, list)) else g(y) for y in x.extra)
    if isinstance(I.ret, T):
        I.ret = clean_ite(g(I.ret), fresh)
    return I


def clean_ite(t, c):
    """Choices between equal values."""
    def f(x):
        if x.op == 'ite':
            a, b = subst(x.args[1], f), subst(x.args[2], f)
            if a is b:
                return a
        return None
    return subst(t, f)


@rule('U04', ['usrc.cpp'],
      'Trace of fetching process-wide storage for a type: the map of stored objects is only touched while the mutex is held, an entry is '
      'created once per type, its buffer has the requested size and its cleanup function is recorded, a failed allocation removes the '
      'entry before the error leaves, and the caller gets the stored address and the freshness flag.  The instance accessor constructs '
      'only in fresh storage and otherwise returns the stored object; a failing construction aborts.',
      ['std::unordered_map, std::unique_ptr and std::mutex behave as specified.'], 10)
def u04(cx):
    P = cx.progs['usrc.cpp']
    f, = cx.entry(P, 'hx::fw_get')
    I = by_presence(cx.analyse(P, f))
    loc = ret_loc(I)
    tp, s, fn = P_('tp'), P_('s'), P_('f')
    def is_map(e):
        return e.kind == 'call' and re.match(r'std::unordered_map::|std::map::', e.q)
    locks = [e for e in I.trace if (e.kind == 'ctor' and re.match(r'std::(lock_guard|scoped_lock|unique_lock)::', e.q or '') or
             e.kind == 'call' and e.q == 'std::mutex::lock') and not e.guards]
    held = held_locks(I)
    maps = [e for e in I.trace if is_map(e)]
    cx.ob(len(maps) >= 1 and bool(locks) and all(m.i > locks[0].i for m in maps), 'lock', 'storage map accesses', maps[0].loc if maps else loc,
          'the map of stored objects is accessed before the mutex is taken')
    if locks:
        a = locks[0].args
        glob = a and contains(a[0], lambda x: x.op == 'glob')
        cx.ob(bool(glob), 'lock', 'storage mutex is shared', locks[0].loc, 'the mutex is not shared between the callers')
        nm = [x.args[0] for x in subterms(a[0]) if x.op == 'glob'] if a else []
        for m in maps:
            ok = any(h[0] in nm and h[2] < m.i and (h[3] is None or m.i < h[3]) for h in held)
            cx.ob(ok, 'lock', 'mutex held during %s' % m.q.split('::')[-1], m.loc, 'the map of stored objects is used while the mutex is not held')
    # Both the map and its mutex belong to the process.
    for n, what in [(x.args[0], 'mutex' if 'lock' in str(e.q) else 'map') for e in locks + maps for x in subterms(e.args[0]) if x.op == 'glob']:
        for g in P.gvars.values():
            if n in (g['q'], g.get('n'), g['q'].rsplit('::', 1)[-1]) and re.search(r'fw_|mutex|map|storage', n) and g.get('tls'):
                cx.ob(False, 'lock', 'one %s for the process' % what, locks[0].loc if locks else loc, 'every thread has its own %s (%s)' % (what, n))
    rets = [e for e in I.trace if e.kind == 'ret']
    emp = [e for e in maps if e.q.split('::')[-1] in ('try_emplace', 'emplace', 'insert')]
    if len(emp) != 1:
        cx.ob(None if emp or maps else False, 'insert', 'entry creation', loc)
        return
    e = emp[0]
    cx.ob(contains(e.args[1], lambda x: x is tp), 'insert', 'entry key', e.loc, 'the entry is not keyed by the type of the object')
    res = e.res
    fresh = mk('fld', res, 'second') if isinstance(res, T) else None
    news = [x for x in I.trace if x.kind == 'new' or x.kind == 'call' and re.match(r'std::make_unique(_for_overwrite)?$', re.sub('<.*', '', str(x.q)))]
    if fresh is not None and len(news) == 1:
        x = news[0]
        cx.cond('insert', 'storage allocated exactly for new entries', x.loc, land(*x.guards), fresh)
        cx.same('insert', 'size of the storage', x.loc, x.args[0] if x.kind == 'call' else x.extra[2] if x.extra[2] is not None else ONE, s, 64, what='the number of bytes')
        # stored under the entry
        asg = [y for y in I.trace if y.kind in ('asg', 'call') and y.i > x.i and not y.ctx_catch and contains_any(y.args, x.res)] if False else \
            [y for y in I.trace if y.kind in ('asg', 'call') and y.i > x.i and any(isinstance(z, T) and contains(z, lambda w: w is x.res) for z in y.args)]
        cx.ob(bool(asg), 'insert', 'storage kept in the entry', x.loc, 'the allocated storage is not stored in the entry')
        reg = [y for y in I.trace if y.kind == 'asg' and y.args and any(z is fn for z in y.args) and y.places and y.places[0].root[0] != 'v']
        reg = [y for y in reg if y.places[0].root[0] == 'd' or 'elem' in str(y.places[0])] or reg
        ok = [y for y in reg if logic.equiv(land(*y.guards), fresh)] or any(isinstance(z, T) and contains(z, lambda w: w is fn) for z in e.args[2:])
        cx.ob(bool(ok), 'insert', 'cleanup function recorded for new entries', x.loc, 'the function destroying the stored object is not recorded')
        # exception safety
        ers = [y for y in I.trace if is_map(y) and y.q.endswith('::erase')]
        tid = x.tries[-1][0] if x.tries else None
        good = [y for y in ers if any(g.op == 'caught' for g in y.guards)]
        rethrow = [y for y in I.trace if y.kind == 'throw' and y.q == 'rethrow' and any(g.op == 'caught' for g in y.guards)]
        # allocating before the entry exists is equally safe
        pre = x.i < e.i
        cx.ob(pre or (bool(good) and bool(x.tries)), 'unwind', 'entry removed when the allocation fails', x.loc, 'a failed allocation leaves an entry without storage behind')
        cx.ob(pre or bool(rethrow), 'unwind', 'allocation failure propagates', x.loc, 'a failed allocation is swallowed')
        for y in good:
            cx.ob(contains(y.args[1], lambda z: z is mk('fld', res, 'first') or z is tp), 'unwind', 'entry removed is the new one', y.loc)
    else:
        cx.ob(None, 'insert', 'storage allocation', loc)
    r = I.ret
    if fresh is not None and isinstance(r, T):
        for new in (True, False):
            w = assume_in(r, {fresh: new, lnot(fresh): not new})
            if w.op != 'agg' or len(w.args) < 4:
                cx.ob(None, 'result', 'new' if new else 'existing', ret_loc(I), show(w, 4)[:200])
                continue
            v, fl = w.args[2], truth(w.args[3])
            cx.ob(True if fl is (TRUE if new else FALSE) else None if contains(fl, lambda x: x.op in ('lv', 'lx', 'unknown', 'opaque', 'opq')) else False, 'result', 'freshness flag (%s)' % (
                'new' if new else 'existing'), ret_loc(I), 'the flag returned for %s entry is %s' % ('a new' if new else 'an existing', show(fl, 5)))
            own = contains(subst(v, lambda x: mk('atom', 'entry') if x is res else None), lambda x: x.op in ('newarr', 'newptr') or x.op == 'call' and 'make_unique' in str(x.args[0]))
            ent = contains(v, lambda x: x is mk('fld', res, 'first'))
            cx.ob(own or ent if new else ent and not own, 'result', 'address of %s storage' % ('new' if new else 'existing'), ret_loc(I),
                  '%s entry yields %s' % ('a new' if new else 'an existing', show(v, 5)))
    # The accessor.
    f, = cx.entry(P, 'hx::fw_inst')
    I = by_presence(cx.analyse(P, f))
    emp = [e for e in I.trace if is_map(e) and e.q.split('::')[-1] in ('try_emplace', 'emplace', 'insert')]
    cons = [e for e in I.trace if e.kind == 'new' and e.extra[1]]
    if len(emp) == 1 and len(cons) == 1 and isinstance(emp[0].res, T):
        fresh = mk('fld', emp[0].res, 'second')
        c = cons[0]
        cx.cond('accessor', 'object constructed exactly in fresh storage', c.loc, land(*c.guards), fresh)
        stor = c.extra[1][0]
        cx.ob(contains(stor, lambda x: x.op == 'call' and 'unique_ptr::get' in str(x.args[0])), 'accessor', 'object constructed in the storage', c.loc)
        ab = [e for e in I.trace if e.kind == 'call' and e.q in ('abort', 'std::abort', 'std::terminate', 'exit', 'std::exit', 'quick_exit')]
        th = [e for e in I.trace if e.kind == 'throw' and e.i > c.i]
        if c.tries:
            end = [e for e in ab if any(g.op == 'caught' for g in e.guards)]
            cx.ob(bool(end) or bool(th), 'accessor', 'failed construction never yields an object', c.loc,
                  'after a failed construction the storage is handed out as an object')
            gone = [e for e in I.trace if is_map(e) and e.q.split('::')[-1] in ('erase', 'extract', 'clear') and e.i > c.i and any(g.op == 'caught' for g in e.guards)]
            if not end and th:
                cx.ob(bool(gone) or None if any(e.kind == 'call' and str(e.q).startswith('obake::') and any(g.op == 'caught' for g in e.guards) for e in I.trace if e.i > c.i) else bool(gone),
                      'accessor', 'failed construction leaves no entry', c.loc,
                      'after a failed construction the next request is handed out the storage as an object')
        else:
            nx = any(g.get('nx') for g in (P.funcs.get(i, {}) for i in I.seen_funcs) if re.search(r'fw_holder|fw_inst', str(g.get('q'))) and not re.search('~|operator', str(g.get('q'))))
            cx.ob(None if nx else False, 'accessor', 'failed construction leaves no entry', c.loc,
                  'after a failed construction the next request is handed out the storage as an object')
        al = [e for e in I.trace if e.kind == 'new' and e.extra[2] is not None]
        tis = [e for e in I.trace if e.kind == 'ctor' and 'type_index' in (e.q or '')]
        cx.ob(any(contains(a, lambda x: x.op == 'typeid' or (x.op == 'call' and 'typeid' in str(x.args[0]))) for e in tis for a in e.args) or None, 'accessor', 'key is the type of the object', gen_loc(I))
        for a in al:
            v = cval(a.extra[2])
            cx.ob(None if v is None else v >= 1000, 'accessor', 'storage fits the object', a.loc, 'the storage of an object of 1000 bytes has %s bytes' % v)
        # The recorded cleanup function destroys an object of the type.
        reg = {x for e in I.trace if e.kind == 'asg' and land(*e.guards) is not FALSE for a in e.args if isinstance(a, T) for x in [strip_cast(a)] if x.op == 'fn'}
        for x in reg:
            g = P.funcs.get(x.args[1])
            if g is not None and g['q'].endswith('::__invoke'):
                c = [h for h in P.by_q.get(g['q'][:-len('__invoke')] + 'operator()', []) if h.get('body') and P.loc(h) == P.loc(g)]
                g = c[0] if len(c) == 1 else None
            if g is None or not g.get('body'):
                cx.ob(None, 'accessor', 'cleanup function', gen_loc(I))
                continue
            J = cx.analyse(P, g)
            dt = [e for e in J.trace if re.search(r'hx::fw_value::~|std::destroy_at', str(e.q))]
            cx.ob(len(dt) == 1 and not dt[0].guards and not dt[0].loops, 'accessor', 'cleanup function destroys the object', P.loc(g),
                  'the cleanup function does not destroy the object' if not dt else 'the object is destroyed %s' % ('twice' if len(dt) > 1 else 'under a condition'))
        cx.ob(True if reg else None, 'accessor', 'cleanup function registered', gen_loc(I))
        own = [x for x in subterms(I.ret) if x.op == 'glob' and not re.search(r'map|storage', str(x.args[0]))]
        cx.ob(not own, 'accessor', 'the object returned is the stored one', gen_loc(I), 'the object returned is %s' % (show(own[0]) if own else ''))
    elif len(emp) == 1 and len(cons) > 1 and isinstance(emp[0].res, T):
        fresh = mk('fld', emp[0].res, 'second')
        bad = [c for c in cons if not any(g.op == 'caught' for g in c.guards) and not logic.implies(land(*c.guards), fresh)]
        cx.ob(False if bad else None, 'accessor', 'object constructed exactly in fresh storage', (bad or cons)[0].loc, 'an object is constructed in storage which already holds one')
    else:
        cx.ob(None, 'accessor', 'shape', gen_loc(I))
    # Cleanup of the stored objects runs their destructors.
    dt = [f for q, fs in P.by_q.items() if 'fw_storage_map' in q and '~' in q for f in fs if f.get('body')]
    if len(dt) == 1:
        I = cx.analyse(P, dt[0])
        calls = [e for e in I.trace if e.kind == 'call' and e.loops and 'elem' in ''.join(show(a, 6) for a in e.args)]
        lp = [l for l in I.loops.values()]
        ok = len(lp) == 1 and any(len(e.args) >= 2 and contains(e.args[0], lambda x: x.op == 'elem') and contains(e.args[-1], lambda x: x.op == 'elem') and
                                  guard_of(e, lp[0].guards) is TRUE for e in calls)
        ok = ok and not lp[0].exits
        cx.ob(True if ok else (False if not calls or len(lp) == 1 and lp[0].exits and lp[0].range is not None else None), 'cleanup', 'stored objects are destroyed', P.loc(dt[0]), 'the cleanup function is not run for every stored object')


# ---- hardware concurrency ---------------------------------------------------------------

@rule('U05', ['usrc.cpp'],
      'Summary of the hardware-concurrency query: on every path the value is at least one, and it is the reported value whenever that is '
      'nonzero.', ['std::thread::hardware_concurrency() returns an unsigned value.'], 2)
def u05(cx):
    P = cx.progs['usrc.cpp']
    f, = cx.entry(P, 'hx::hconc')
    I = cx.analyse(P, f)
    cs = [x for x in subterms(I.ret) if x.op == 'call' and 'hardware_concurrency' in str(x.args[0])]
    loc = ret_loc(I)
    if len(cs) != 1:
        cx.ob(False if not contains(I.ret, lambda x: x.op in ('call', 'undef', 'opq', 'lx')) else None, 'value', 'number of threads', loc, 'the value returned is %s' % show(I.ret, 5))
        cx.ob(None, 'fallback', 'number of threads', loc)
        return
    h = cs[0]

    def leaves(t, c):
        if t.op == 'ite':
            yield from leaves(t.args[1], c + [t.args[0]])
            yield from leaves(t.args[2], c + [lnot(t.args[0])])
        elif t.op == 'max' and ONE in t.args and h in t.args:
            yield h, c + [lnot(eq(h, ZERO))]
            yield ONE, c + [eq(h, ZERO)]
        else:
            yield t, c
    zero, one = eq(h, ZERO), eq(h, ONE)
    known = unknown = True
    for v, c in leaves(I.ret, []):
        if v is h:
            unknown = unknown and logic.implies(land(*c), lnot(zero), nonneg=(h,))
        elif v is ONE:
            known = known and logic.implies(land(*c), lor(zero, one), nonneg=(h,))
        else:
            known = unknown = False
    for nm, dom, ok in (('reported count', [1, 2, 3, 8, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1], known), ('unknown count', [0], unknown)):
        # Earlier values of a cached result are not known.
        fr = not contains(I.ret, lambda x: x.op in ('opq', 'glob', 'undef', 'lv', 'lx', 'static', 'v') or x.op in ('call', 'p') and x is not h)
        w = [] if ok or not fr else [v for v in dom if _fold_mod(I.ret, {h: v}, 32) != (v if v else 1)]
        cx.ob(True if ok else False if w else None, 'value', nm, loc, 'a reported count of %s gives %s' % (w[:1], [_fold_mod(I.ret, {h: v}, 32) for v in w[:1]]) if w else show(I.ret, 5))


# ---- tuple visits -----------------------------------------------------------------------

VIS = 'hx::vis::operator()'


def tuple_elems(t):
    """Element types of std::tuple<...>."""
    m = re.match(r'^(?:const )?std::tuple<(.*)>$', t)
    out, d, cur = [], 0, ''
    for ch in m.group(1):
        d += (ch == '<') - (ch == '>')
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def unsequenced_visits(P, f):
    """Calls in the function two of whose arguments visit an element: their order is unspecified."""
    out = []

    def visits(n):
        if isinstance(n, list):
            return sum(map(visits, n))
        if not isinstance(n, dict):
            return 0
        own = P.funcs.get(n.get('f')) if n.get('k') in ('call', 'opcall') else None
        return int(own is not None and own['q'] == VIS or n.get('q') == VIS) + sum(visits(v) for v in n.values())

    def rec(n):
        if isinstance(n, list):
            for x in n:
                rec(x)
        elif isinstance(n, dict):
            if n.get('k') == 'call' and n.get('op') in (None, '()') and sum(1 for x in n.get('a', ()) if visits(x)) > 1:
                out.append(n)
            for v in n.values():
                rec(v)
    rec(f.get('body'))
    return out


@rule('U07', ['base.cpp'],
      'Traces of visiting tuples of zero to five elements (objects, constants, references and fundamental types; passed as lvalue, constant and rvalue) '
      'with an opaque visitor: the calls are unconditional, one per element, sequenced in element order, on the element in place and in its value '
      'category, by the visitor itself, and an exception of the visitor is not intercepted.',
      ['std::apply passes the elements of the tuple, in the category of the tuple, to the function.'], 60)
def u07(cx):
    P = cx.progs['base.cpp']
    for f in cx.entry(P, 'hx::tup_visit', 12) + cx.entry(P, 'hx::tup_visit_r', 1):
        I = cx.analyse(P, f)
        tt = f['ta'][1:-1].strip()
        lval = tt.endswith('&')
        const = tt.startswith('const ')
        els = tuple_elems(tt.rstrip('& '))
        calls = [e for e in I.trace if e.kind == 'call' and e.q == VIS]
        loc = calls[0].loc if calls else gen_loc(I)
        nm = 'visit of %s, %s' % (tt.rstrip('& '), 'lvalue' if lval else 'rvalue')
        reach = [x for x in (P.funcs.get(e.extra[1]) for e in I.trace if e.kind == 'enter') if x]
        lost = [e for e in I.trace if e.kind == 'call' and e.q and not e.q.startswith(('hx::', 'std::apply')) and
                any(isinstance(x, T) and (x.op == 'clo' or contains(x, lambda y: y is P_('v'))) for x in e.args)]
        if not calls and lost:
            # The visits happen in a function which is not followed.
            cx.ob(None, 'each once', nm, loc, lost[0].q)
            continue
        bad = [e for e in calls if e.guards or e.loops]
        cx.ob(len(calls) == len(els) and not bad, 'each once', nm, bad[0].loc if bad else loc,
              '%d unconditional calls for %d elements' % (len(calls) - len(bad), len(els)))
        if len(calls) != len(els):
            continue
        cx.ob(not any(e.tries for e in calls), 'exceptions', nm, loc, 'an exception of the visitor is caught')
        # Order.
        seen = []
        for e in calls:
            pl = e.places[1] if e.places and len(e.places) > 1 else None
            ix = cval(pl.path[0][1]) if pl is not None and pl.root == ('a', 0) and len(pl.path) == 1 and pl.path[0][0] == 'i' else None
            if ix is None:
                x = [y for y in subterms(e.args[1]) if y.op == 'idx' and y.args[0] is P_('t') and is_c(y.args[1])]
                ix = (x[0].args[1].args[0],) if len(x) == 1 else None
            seen.append(ix)
        idx = [i[0] if isinstance(i, tuple) else i for i in seen]
        if None in idx:
            cx.ob(None, 'order', nm, loc, str(seen))
        else:
            cx.ob(idx == list(range(len(els))), 'order', nm, loc, 'elements are visited in the order %s' % idx)
            cp = [i for i in seen if isinstance(i, tuple)]
            cx.ob(not cp, 'element', nm, loc, 'the visitor receives a copy of element %s' % cp[:1])
        if els:
            us = [n for g in reach for n in unsequenced_visits(P, g)]
            cx.ob(not us, 'sequence', nm, P.loc(us[0]) if us else loc, 'the visits are arguments of one call: their order is unspecified')
        # Value category and constness of each element.
        for i, (e, t) in enumerate(zip(calls, els)):
            obj = t.rstrip('& ') if t.endswith('&') else ('const ' + t if const and not t.startswith('const ') else t)
            want = obj + ' &' if lval or t.endswith('&') and not t.endswith('&&') else obj
            got = (e.ta or '')[1:-1].strip()
            cx.ob(got == want if got else None, 'category', '%s, element %d' % (nm, i), e.loc, 'the visitor receives %s instead of %s' % (got, want))
            pl = e.places[0] if e.places else None
            ok = pl is not None and pl.root == ('a', 1) and not pl.path
            cx.ob(ok or (False if pl is not None and pl.root[0] == 'v' else None), 'visitor', '%s, element %d' % (nm, i), e.loc, 'the visitor called is not the one given')

# ---- powers of arithmetic values ------------------------------------------------------------

RANK = {'float': 1, 'double': 2, 'long double': 3}


@rule('U08', ['base.cpp'],
      'For 13 combinations of floating-point and arithmetic arguments, the resolved library call reached: both arguments unchanged '
      'except that an integral argument is converted to the floating-point type of the other; the overload selected works in the common '
      'floating-point type.', ['std::pow computes the power in the type of its overload.'], 13, r'obake::pow\b')
def u08(cx):
    P = cx.progs['base.cpp']
    for f in cx.entry(P, 'hx::do_pow', 13):
        I = cx.analyse(P, f)
        t, u = [x.strip() for x in f['ta'][1:-1].split(',')]
        nm = 'pow(%s, %s)' % (t, u)
        r = I.ret
        x, y = P_('x'), P_('y')
        fp = t if t in RANK and (u not in RANK or RANK[t] >= RANK[u]) else u
        wx = mk('cast', t if t in RANK else u, x)
        wy = mk('cast', u if u in RANK else t, y)
        def leaves(v, c):
            if v.op == 'ite':
                yield from leaves(v.args[1], c + [v.args[0]])
                yield from leaves(v.args[2], c + [lnot(v.args[0])])
            else:
                yield v, c
        ok, why = True, ''
        for v, c in leaves(r, []):
            inner = v
            while inner.op == 'cast' and inner.args[0] == fp:
                inner = inner.args[1]
            narrowed = strip_cast(v)
            if inner.op == 'call' and len(inner.args) == 3 and is_pow(inner):
                gx, gy = inner.args[1], inner.args[2]
                o = eff(gx, t, x) in (t if t in RANK else u, fp) and strip_cast(gx) is x and exact_casts(gx, t) and \
                    eff(gy, u, y) in (u if u in RANK else t, fp) and strip_cast(gy) is y and exact_casts(gy, u)
            elif cval(strip_cast(v)) == 1 and any(strip_cast(k) in (eq(y, ZERO), eq(x, ONE)) or
                                                  k.op == 'eq' and {strip_cast(z) for z in k.args} in ({y, ZERO}, {x, ONE}) for k in c):
                # pow(x, 0) and pow(1, y) are one for every x and y.
                o = True
            elif narrowed.op == 'call' and is_pow(narrowed):
                o = False
            elif all(z.op in ('c', 'p', 'cast', 'fmul', 'fadd', 'div', 'lin', 'fdiv') or z.op == 'call' and MATH.match(str(z.args[0]).split('<')[0]) for z in subterms(v)
                     if isinstance(z, T)):
                o = False
            else:
                o = None
            if o is not True and (ok is True or o is False):
                ok, why = o, 'computes %s' % show(r)
        cx.ob(ok, 'promotion', nm, ret_loc(I), why)
        rt = bare(P.ty(f['ret']))
        if rt is not None:
            cx.ob(rt == fp, 'result type', nm, ret_loc(I), 'the result type is %s, the usual promotion gives %s' % (rt, fp))


MATH = re.compile(r'^(std::)?(__builtin_)?(pow|exp|exp2|expm1|log|log2|log10|log1p|sqrt|cbrt|fabs|abs|fma|round|trunc|floor|ceil|hypot)[fl]?$')


def is_pow(c):
    return re.match(r'^(std::)?(__builtin_)?pow[fl]?$', str(c.args[0]).split('<')[0]) is not None


def exact_casts(t, ty):
    """No conversion before the last one loses anything a direct conversion would keep."""
    chain = []
    while t.op == 'cast':
        chain.append(t.args[0])
        t = t.args[1]
    if not chain:
        return True
    last = chain[0]
    for c in chain[1:]:
        if c in RANK:
            if RANK[c] < RANK.get(last, 9) or ty not in RANK and c != last:
                return False
        elif c in INTS and ty in INTS and ty != 'bool':
            (w, s), (w0, s0) = INTS[c], INTS[ty]
            if not (w >= w0 and s == s0 or s and w > w0):
                return False
        elif c in INTS and ty != 'bool':
            return False
    return True


def eff(t, ty, leaf):
    """Type of an argument after its conversions (narrowest floating type passed through)."""
    cur = ty
    while t.op == 'cast':
        if t.args[0] in RANK:
            return t.args[0]
        cur = t.args[0]
        t = t.args[1]
    return cur


# ---- error reporting -----------------------------------------------------------------------

GROW = re.compile(r'::(operator\+=|append|push_back)$')
CUT = re.compile(r'::(substr|resize|erase|clear|pop_back|remove_prefix|remove_suffix|replace|insert|assign|swap|shrink_to_fit)$')


def text_of(t):
    """A string as the list of what was put together: ('lit', text), ('all', value), ('part', value) or ('new', None) where the
    earlier text is dropped; None when unknown."""
    t = strip_cast(t)
    nm = re.sub(r'<.*', '', str(t.args[0])) if t.op in ('call', 'upd', 'ctor') else ''
    if t.op == 'str':
        return [('lit', t.args[0])]
    if t.op == 'c' and 0 < t.args[0] < 256:
        return [('lit', chr(t.args[0]))]
    if t.op in ('call', 'upd') and nm == 'std::operator+' and t.op == 'call' and len(t.args) == 3:
        l, r = text_of(t.args[1]), text_of(t.args[2])
        return None if l is None or r is None else l + r
    if t.op == 'upd' and t.args[1] == 0 and GROW.search(nm):
        l = text_of(t.args[2])
        if l is None or len(t.args) < 4:
            return None
        if len(t.args) == 4:
            r = text_of(t.args[3])
            return None if r is None else l + r
        return None
    if t.op == 'upd' and t.args[1] == 0 and CUT.search(nm) and nm.startswith('std::basic_string'):
        if nm.endswith('::clear'):
            return []
        if nm.endswith('::assign') and len(t.args) == 4:
            return text_of(t.args[3])
        l = text_of(t.args[2])
        return None if l is None or nm.endswith(('::insert', '::swap', '::replace', '::assign')) else [('part', y) if k == 'all' else (k, y) for k, y in l]
    if t.op == 'upd' and t.args[1] == 0 and nm.endswith('basic_string::operator=') and len(t.args) == 4:
        return text_of(t.args[3])
    if t.op == 'upd' and t.args[1] == 0 and nm.endswith('basic_string::reserve'):
        return text_of(t.args[2])
    if t.op == 'call' and re.search(r'::basic_string(_view)?::(substr|c_str|data)$', nm):
        # (The characters alone, without the size, end at the first null character.)
        l = text_of(t.args[1])
        if l is None:
            return None
        return [('part', y) if k == 'all' else (k, y) for k, y in l]
    if t.op == 'ctor' and re.match(r'std::(basic_)?string(_view)?$', nm):
        a = [x for x in t.args[1:] if not (isinstance(x, T) and x.op == 'ctor' and 'allocator' in str(x.args[0]))]
        if not a:
            return []
        if len(a) == 1 and isinstance(a[0], T):
            return text_of(a[0])
        return None
    if t.op == 'ite':
        l, r = text_of(t.args[1]), text_of(t.args[2])
        if l is not None and l == r:
            return l
        return [('all', t)]
    if t.op in ('p', 'call', 'uninit') or t.op == 'idx':
        return [('all', t)] if t.op != 'uninit' else []
    return None


@rule('U13', ['base.cpp'],
      'Traces of the error-raising helper for messages of every string-like kind and exceptions with and without a text and further arguments: on every path '
      'exactly the requested exception is thrown and the helper never returns; the text carried is put together from pieces, among which are '
      'the whole message, the name of the type and a stack trace, and the other arguments reach the constructor unchanged.  Stack-trace '
      'switch: the query and the setter use the same flag, generation happens exactly when it is set, and skips the frames asked for.',
      ['Formatting and type-name helpers do not throw other exceptions.'], 60)
def u13(cx):
    P = cx.progs['base.cpp']
    for q in ('hx::do_throw', 'hx::do_throw0', 'hx::do_throw_more', 'hx::do_throw_val', 'hx::do_throw_raw'):
        for f in cx.entry(P, q):
            I = cx.analyse(P, f, raw_throw=True)
            ta = (f.get('ta') or '<hx::ex_%s>' % q[13:])[1:-1]
            ty, _, st = ta.partition(', ')
            st = st.replace('std::basic_string_view<char, std::char_traits<char>>', 'string view').replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
            th = [e for e in I.trace if e.kind == 'throw']
            loc = th[0].loc if th else gen_loc(I)
            nm = 'raising ' + ty + (', message given as %s' % st if st else '')
            cx.ob(bool(th) and all(e.q == ty for e in th), 'type', nm, loc, 'throws %s' % sorted({e.q for e in th}))
            dead = bool(I.final.guards) and I.final.guards[-1] is FALSE
            cx.ob(dead or logic.equiv(throw_cond(I), TRUE) is True, 'always', nm, loc, 'can return without throwing')
            want = [P_(p['n']) for p in f['params']]
            for e in th:
                if e.q != ty or not e.args:
                    continue
                caught = [x for x in e.tries or () if x]
                cx.ob(None if caught else True, 'leaves', nm, e.loc, 'raised inside a try block')
                v = e.args[0]
                while v.op == 'ctor' and len(v.args) == 2 and isinstance(v.args[1], T) and v.args[1].op == 'ctor' and v.args[1].args[0] == v.args[0]:
                    v = v.args[1]
                if q == 'hx::do_throw0':
                    continue
                got = list(v.args[1:]) if v.op == 'ctor' else None
                if got is None:
                    cx.ob(None, 'arguments', nm, e.loc, show(v, 3))
                    continue
                if q in ('hx::do_throw_val', 'hx::do_throw_raw'):
                    # The exception takes no text of the kind that is decorated: it gets the arguments as they are.
                    g = [strip_cast(x) for x in got if isinstance(x, T)]
                    cx.ob(g == want, 'arguments', nm, e.loc, 'the constructor receives %s' % ', '.join(show(x, 3)[:60] for x in got))
                    continue
                s = P_('s')
                rest = [x for x in got[1:] if not (x.op == 'ctor' and 'ex_arg' in str(x.args[0]) and len(x.args) == 1)]
                cx.ob(rest == want[1:], 'arguments', nm, e.loc, 'the constructor receives %s after the text' % (', '.join(show(x, 3)[:60] for x in rest) or 'nothing'))
                fz = [x for x in subterms(got[0]) if x.op == 'frozen' and contains(x, lambda y: y.op == 'p' or y.op == 'call' and 'stack_trace' in str(y.args[0]))] if got else []
                if fz:
                    cx.ob(False, 'trace', nm, e.loc, 'a part of the text is kept from the first call (%s)' % fz[0].args[0])
                    continue
                txt = text_of(got[0]) if got else []
                has = bool(got) and contains(got[0], lambda x: x is s)
                if txt is None:
                    cx.ob(None if has else False, 'message', nm, e.loc, 'the message is not carried by the exception')
                    cx.ob(None, 'trace', nm, e.loc)
                    continue
                whole = any(k == 'all' and strip_cast(y) is s for k, y in txt)
                part = any(k == 'part' and contains(y, lambda x: x is s) for k, y in txt)
                other = any(k == 'all' and strip_cast(y) is not s and contains(y, lambda x: x is s) for k, y in txt)
                cx.ob(True if whole else None if other else False, 'message', nm, e.loc,
                      'only a part of the message is carried by the exception' if part else 'the message is not carried by the exception')
                tr = [y for k, y in txt if k != 'lit' and contains(y, lambda x: x.op == 'call' and str(x.args[0]) == 'obake::detail::stack_trace_impl')]
                cx.ob(bool(tr), 'trace', nm, e.loc, 'no stack trace is part of the text')
                tn = [y for k, y in txt if k == 'all' and contains(y, lambda x: x.op == 'call' and 'type_name' in str(x.args[0]) and ty in str(x))]
                un = [y for k, y in txt if k == 'all' and contains(y, lambda x: x.op == 'call' and re.search('type_name|demangle|typeid', str(x.args[0])))]
                on = [y for k, y in txt if k == 'all' and contains(y, lambda x: x.op == 'call' and re.match(r'(obake|mppp)::type_name<', str(x.args[0])) and ty not in str(x))]
                cx.ob(True if tn else False if on else None if un else False, 'type name', nm, e.loc, 'the name of the type is not part of the text')
    # The switch and the generation.
    IMPL = 'obake::detail::stack_trace_impl'
    fq, = cx.entry(P, 'hx::trace_query')
    Iq = cx.analyse(P, fq)
    flags = {x for x in subterms(Iq.ret) if x.op == 'glob' and 'memory_order' not in str(x.args[0])}
    isload = lambda t: (t.op == 'call' and re.search(r'::(load|operator bool|operator (__)?\w+)$', re.sub('<.*', '', str(t.args[0]))) and t.args[1] in flags) or t in flags
    loc = ret_loc(Iq)
    if len(flags) != 1:
        cx.ob(False if is_c(Iq.ret) or frozen(Iq.ret) is not None else None, 'switch', 'query', loc, 'the query returns %s' % show(Iq.ret, 3))
        return
    flag = list(flags)[0]
    cx.ob(True if isload(Iq.ret) else False if Iq.ret.op == 'not' and isload(Iq.ret.args[0]) or frozen(Iq.ret) is not None else None, 'switch', 'query reports the flag', loc, 'the query returns %s' % show(Iq.ret, 3))

    def writes(I):
        return [e for e in I.trace if e.kind == 'call' and e.args and e.args[0] is flag and re.search(r'::(store|exchange|operator=|fetch_\w+|compare_exchange_\w+|operator[&|^]=)$', re.sub('<.*', '', str(e.q)))
                or e.kind == 'asg' and e.places and e.places[0] is not None and e.places[0].root[0] == 'g' and str(flag.args[0]) in str(e.places[0].root)]
    wq = writes(Iq)
    cx.ob(not wq and not any(x.op == 'call' and re.search(r'::(exchange|fetch_\w+)$', str(x.args[0])) for x in subterms(Iq.ret)), 'switch', 'query leaves the flag alone', loc, 'the query changes the flag')
    for q, skip in (('hx::do_trace', P_('n')), ('hx::do_trace0', ZERO)):
        f, = cx.entry(P, q)
        I = cx.analyse(P, f, stops={IMPL})
        gen = [e for e in I.trace if e.kind == 'call' and e.q == IMPL]
        loc = gen[0].loc if gen else ret_loc(I)
        nm = 'trace, %s' % ('frames to skip given' if skip is not ZERO else 'default')
        cx.ob(not writes(I), 'switch', nm + ': flag left alone', loc, 'generating a trace changes the flag')
        if len(gen) != 1:
            cx.ob(None if gen else False, 'switch', nm, loc, 'no trace is generated')
            continue
        on = [x for x in subterms(I.ret) if isload(x) and x.op == 'call'] or [x for c in gen[0].guards for x in subterms(c) if isload(x) and x.op == 'call']
        fz = next((x for c in gen[0].guards for x in [frozen(c)] if x is not None), None)
        g = land(*gen[0].guards)
        if fz is not None:
            cx.ob(False, 'switch', nm + ': follows the flag', loc, 'the state of the switch is kept from the first call (%s)' % fz.args[0])
        elif not on:
            cx.ob(False if g is TRUE else None, 'switch', nm + ': follows the flag', loc, 'a trace is generated when %s' % show(g, 3))
        else:
            r = logic.equiv(g, on[0])
            others = [x for x in subterms(g) if x.op in ('p', 'glob') and x is not flag and 'memory_order' not in str(x.args[0])]
            cx.ob(True if r else False if r is False or others and g.op == 'and' else None, 'switch', nm + ': follows the flag', loc, 'a trace is generated when %s' % show(g, 3))
        cx.same('switch', nm + ': frames skipped', loc, gen[0].args[0], skip, 32, mod=False, vars_=[P_('n')], what='the number of frames to skip')
        res = [v for v, c in _leaves(I.ret) if v is gen[0].res or v.op == 'call' and v.args[0] == IMPL]
        cx.ob(bool(res) or (None if contains(I.ret, lambda x: x.op == 'call' and x.args[0] == IMPL) else False), 'switch', nm + ': result', loc, 'returns %s' % show(I.ret, 3))
    f2, = cx.entry(P, 'hx::trace_switch')
    I2 = cx.analyse(P, f2)
    sts = writes(I2)
    if not sts:
        cx.ob(False, 'switch', 'setter writes the flag that is read', gen_loc(I2), 'the flag is not written')
        return
    loc = sts[0].loc
    e = sts[-1]
    b = P_('b')
    vals = [x for x in e.args if x is not flag and isinstance(x, T) and not (x.op == 'glob')]
    for e in sts:
        vals = [x for x in e.args if x is not flag and isinstance(x, T) and x.op != 'glob']
        v = vals[0] if vals else None
        g = land(*e.guards)
        ok = v is not None and (logic.implies(g, v if v.op in ('b', 'p', 'not', 'eq', 'lt') else truth(v)) and logic.implies(g, b) or
                                logic.implies(g, lnot(b)) and (v is FALSE or cval(v) == 0) or logic.implies(g, b) and (v is TRUE or cval(v) == 1) or v is b or strip_cast(v) is b)
        cx.ob(True if ok else False if v is not None and (v.op == 'not' and v.args[0] is b or is_c(v) or v in (TRUE, FALSE)) else None, 'switch', 'setter stores its argument', e.loc, 'stores %s' % (show(v, 3) if v is not None else '?'))
    c = logic.equiv(lor(*[land(*e.guards) for e in sts]), TRUE)
    cx.ob(True if c else False if c is False else None, 'switch', 'setter always stores', loc, 'the setter stores nothing when %s' % show(lnot(lor(*[land(*e.guards) for e in sts])), 3))


def _leaves(t, c=()):
    if t.op == 'ite':
        yield from _leaves(t.args[1], c + (t.args[0],))
        yield from _leaves(t.args[2], c + (lnot(t.args[0]),))
    else:
        yield t, c
