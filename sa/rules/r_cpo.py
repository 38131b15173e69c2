"""Customisation points: which implementation a call resolves to."""
from ..rlib import *
from . import rule

LEVEL = {'ext': 'the external customisation', 'adl': 'the function found by argument-dependent lookup', 'int': 'the internal customisation'}
HOOK = re.compile(r'^hxc::(\w+)_(ext|adl|int)_(c|r)$')
# Types and the levels they provide.
TYPES = {'E': 'ext', 'A': 'adl', 'N': 'int'}


def in_repo(I):
    for e in reversed(I.trace):
        if e.kind == 'ret' and '/harness/' not in e.loc:
            return e.loc
    return ''


def default_ok(name, cat, I, f):
    """The default implementation did the documented thing."""
    ps = [q['n'] for q in f['params']]
    x = mk('p', 'x')
    calls = [e for e in I.trace if e.kind in ('call', 'ctor') and e.q and not re.search(r'::~|::\w+::(\w+)$', '') and not e.q.startswith('obake::')]
    calls = [e for e in calls if not (e.kind == 'ctor')]
    n = [e.q.split('::')[-1] for e in calls]
    fin = I.final.store

    def arg(e, k, v):
        return len(e.args) > k and e.args[k] is v
    if name in ('cf_stream_insert', 'tex_stream_insert', 'cf_tex_stream_insert'):
        return n == ['operator<<'] and arg(calls[0], 0, mk('p', 'os')) and arg(calls[0], 1, x) and not calls[0].guards
    if name == 'key_tex_stream_insert':
        return n == ['key_stream_insert_K'] and arg(calls[0], 0, mk('p', 'os')) and arg(calls[0], 1, x) and arg(calls[0], 2, mk('p', 'ss'))
    if name == 'byte_size':
        return not n and cval(I.ret) == 24
    if name == 'hash':
        return n == ['operator()'] and calls[0].q.startswith('std::hash') and x in calls[0].args and I.ret.op == 'call'
    if name in ('trim', 'evaluate', 'subs'):
        return not n and I.ret is x
    if name == 'is_zero':
        r = I.ret
        if n != ['operator=='] or r.op != 'call':
            return False
        a = [y for y in r.args if isinstance(y, T)]
        z = [y for y in a if y is not x]
        return x in a and len(z) == 1 and z[0].op == 'ctor' and cval(z[0].args[-1]) == 0
    if name == 'negate':
        if n != ['operator-', 'operator=']:
            return False
        return calls[0].args[0] is x and contains(calls[1].args[1], lambda y: y.op == 'call' and y.args[0].endswith('operator-')) and \
            fin[('a', 0)].op == 'upd' and contains(fin[('a', 0)], lambda y: y is x)
    if name == 'safe_convert':
        return n == ['operator='] and arg(calls[0], 0, x) and arg(calls[0], 1, mk('p', 'y')) and I.ret is TRUE
    return None


@rule('U06', ['cpo.cpp'],
      'For 36 customisation points, types that provide different subsets of the implementation levels are passed as lvalues and '
      'rvalues; the resolved callee, the arguments that reach it (with value category) and the use of its result are read from the '
      'instantiated program.  The availability traits and concepts are evaluated by the front end for types with and without an implementation.',
      [], 500, witness=True)
def u06(cx):
    P = cx.progs['cpo.cpp']
    n = 0
    for q in sorted(P.by_q):
        m = re.match(r'^hx::(\w+)_([EANDK])_([cr])$', q)
        if not m:
            continue
        name, ty, cat = m.groups()
        f = P.by_q[q][0]
        where = '%s, %s %s' % (name, {'E': 'all levels', 'A': 'no external level', 'N': 'internal level', 'D': 'default only', 'K': 'key insertion only'}[ty],
                               'lvalue' if cat == 'c' else 'rvalue')
        with cx.item(where):
            I = cx.analyse(P, f)
            n += 1
            hooks = [(e, HOOK.match(e.q)) for e in I.trace if e.kind == 'call' and e.q and HOOK.match(e.q)]
            loc = in_repo(I)
            lvl = TYPES.get(ty)
            # Levels the customisation point has: those for which hooks exist in the harness.
            have = [l for l in ('ext', 'adl', 'int') if 'hxc::%s_%s_c' % (name, l) in hook_names(P)]
            if lvl == 'int' and 'int' not in have:
                lvl = None
            if lvl is None:
                ok = default_ok(name, cat, I, f) if not hooks else False
                cx.ob(ok if ok else (False if hooks else None if ok is None else False), 'default', where, loc, 'the default implementation is not the documented one')
                continue
            right = [e for e, h in hooks if h.group(1) == name and h.group(2) == lvl]
            cx.ob(len(hooks) == 1 and len(right) == 1 and not right[0].guards and not right[0].loops, 'priority', where, loc,
                  '%s should be called; called: %s' % (LEVEL[lvl], ', '.join(e.q for e, h in hooks) or 'nothing'))
            if len(hooks) != 1 or not right:
                continue
            e, h = hooks[0]
            cx.ob(h.group(3) == cat, 'category', where, loc, 'the value category of the arguments is not preserved')
            want = [mk('p', p_['n']) for p_ in f['params']]
            cx.ob(list(e.args) == want, 'arguments', where, loc, 'the arguments reaching the implementation are not the ones given, in order')
            if I.ret is not None and name != 'negate' and P.ty(f['ret']) != 'void':
                r = strip_cast(I.ret)
                cx.ob(r.op == 'call' and r.args[0] == e.q, 'result', where, loc, 'the result of the implementation is not returned')
            if name == 'negate':
                r = I.ret
                cx.ob(contains(r, lambda y: y is mk('p', 'x')), 'result', where, loc, 'negation must return its argument')
    for g in sorted((g for g in P.gvars.values() if g['q'].startswith('hxw::')), key=lambda g: g['q']):
        cx.ob(int(g['val']) == 1, 'availability', g['q'][5:].replace('_E', ', all levels').replace('_A', ', no external level').replace('_N', ', internal level')
              .replace('_D', ', default only').replace('_Z', ', nothing').replace('_concept', ' (concept)'), P.loc(g), 'the availability test gives the wrong answer')


def hook_names(P):
    if not hasattr(P, '_hooks'):
        P._hooks = set(q for q in P.by_q if q.startswith('hxc::')) | set(q for q in re.findall(r'hxc::\w+_(?:ext|adl|int)_[cr]', hooks_src()))
    return P._hooks


_src = []


def hooks_src():
    import os
    from .. import build
    if not _src:
        s = open(os.path.join(build.VERIF, 'harness', 'cpo.cpp')).read()
        _src.append(re.sub(r'\b(\w+_(?:ext|adl|int)_[cr])\(', r'hxc::\1(', s))
    return _src[0]
