"""Text written to a stream or collected in a string, as a sequence of literal text and values."""
from .terms import *
from . import logic
import re


class Unknown(Exception):
    def __init__(self, what, cond=None):
        Exception.__init__(self, what)
        self.cond = cond


def base(q):
    return str(q).split('<')[0] if not str(q).startswith(('std::operator', 'hx::operator')) else str(q)


def isop(q, name):
    """Does the qualified name denote the operator?"""
    q = str(q)
    i = q.find('operator' + name)
    return i >= 0 and (q[i + 8 + len(name):] == '' or q[i + 8 + len(name)] == '<' and name in ('<<', '+', '+='))


WRITER = re.compile(r'stream_insert$')


def join(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def strip(t):
    while t.op in ('conv', 'cast', 'addr') and isinstance(t.args[-1], T) or t.op == 'deref':
        t = t.args[-1]
    return t


def literal(t):
    t = strip(t)
    if t.op == 'str':
        return t.args[0]
    if t.op == 'ctor' and ('string' in str(t.args[0]) or 'fmt::' in str(t.args[0])):
        ts = [x for x in t.args[1:] if isinstance(x, T)]
        if ts:
            return literal(ts[0])
    if t.op == 'call' and str(t.args[0]).split('<')[0] == 'fmt::runtime':
        return literal(t.args[1])
    return None


def formatted(t):
    f = literal(t.args[1])
    if f is None:
        raise Unknown('format %s' % show(t.args[1], 3))
    out, i, n, args = [], 0, 0, t.args[2:]
    while i < len(f):
        c = f[i]
        if c in '{}' and f[i:i + 2] == c * 2:
            out.append(c)
            i += 2
        elif c == '{':
            j = f.index('}', i)
            s = f[i + 1:j]
            if s and not s.isdigit():
                raise Unknown('format {%s}' % s)
            k = int(s) if s else n
            n += 1
            if k >= len(args):
                raise Unknown('format arguments')
            out += text(args[k])
            i = j + 1
        elif c == '}':
            raise Unknown('format }')
        else:
            out.append(c)
            i += 1
    return out


def text(t, char=False):
    """The pieces of a value converted to text."""
    if t.op == 'conv' and 'basic_string<' in str(t.args[0]) and t.args[-1].op == 'c':
        return [chr(t.args[-1].args[0])]
    t = strip(t)
    l = literal(t)
    if l is not None:
        return [l]
    if t.op == 'c' and char:
        return [chr(t.args[0])]
    if t.op == 'call':
        q = str(t.args[0])
        if q.split('<')[0] == 'fmt::format':
            return join(formatted(t))
        if q.startswith('std::operator+') and len(t.args) == 3:
            return join(text(t.args[1], True) + text(t.args[2], True))
        if re.match(r'std::basic_string(<.*>)?::substr(<.*>)?$', q) and len(t.args) == 4 and t.args[2] is C(1) and add(t.args[3], C(2)).op in ('size', 'call'):
            return [mk('mid', *[x for x in text(t.args[1])])]
        if re.match(r'std::basic_(ostringstream|stringstream)(<.*>)?::str$', q):
            return stream(t.args[1])
    if t.op == 'upd' and re.match(r'std::basic_string(<.*>)?::(operator\+=|append|push_back)(<.*>)?$', str(t.args[0])) and t.args[1] == 0 and len(t.args) == 4:
        return join(text(t.args[2]) + text(t.args[3], True))
    if t.op == 'upd' and re.match(r'std::basic_string(<.*>)?::clear$', str(t.args[0])):
        return []
    if t.op == 'ctor' and str(t.args[0]).startswith('std::basic_string<'):
        v = [x for x in t.args[1:] if isinstance(x, T) and not (x.op == 'ctor' and 'allocator' in str(x.args[0]))]
        if len(v) == 2:
            b, e = [[y for y in subterms(x) if y.op in ('begin', 'end', 'call') and (y.op in ('begin', 'end') or re.search(r'::c?(begin|end)$', str(y.args[0])))] for x in v]
            if len(b) == 1 and len(e) == 1 and b[0].args[-1] is e[0].args[-1] and sub(v[0], b[0]) is C(1) and sub(v[1], e[0]) is C(-1):
                return [mk('mid', *text(b[0].args[-1]))]
            if len(b) == 1 and len(e) == 1 and b[0].args[-1] is e[0].args[-1] and sub(v[0], b[0]).op == sub(v[1], e[0]).op == 'c':
                return [mk('part', mk('ps', *text(b[0].args[-1])), sub(v[0], b[0]), sub(v[1], e[0]))]
            return [t]
    if t.op == 'ctor' and 'basic_string<' in str(t.args[0]) and not any(isinstance(x, T) and not (x.op == 'ctor' and 'allocator' in str(x.args[0])) for x in t.args[1:]):
        return []
    if t.op == 'ctor' and str(t.args[0]).startswith('std::basic_string<') and len(t.args) == 2:
        return text(t.args[1])
    if t.op == 'ite':
        raise Unknown('text depends on %s' % show(t.args[0], 4)[:120], t.args[0])
    return [t]


def stream(t):
    """What has been written to the stream."""
    t = strip(t)
    if t.op == 'upd' and t.args[1] == 0:
        q = str(t.args[0])
        if isop(q, '<<') and len(t.args) == 4:
            return join(stream(t.args[2]) + text(t.args[3], not q.startswith('std::basic_ostream')))
        if re.match(r'std::(ios_base|basic_ios(<.*>)?|basic_ostream(<.*>)?)::(flags|exceptions|precision|width|fill|flush|setf|unsetf|imbue)$', q):
            return stream(t.args[2])
        if WRITER.search(re.sub(r'<[^<]*>$', '', q)) and len(t.args) >= 4:
            return join(stream(t.args[2]) + [mk('out', re.sub(r'<.*', '', q).rsplit('::', 1)[-1], strip(t.args[3]))])
        if re.match(r'std::basic_o?stringstream(<.*>)?::str$', q) and len(t.args) == 4:
            return text(t.args[3])
        raise Unknown('stream changed by %s' % q)
    if t.op == 'ctor' and 'stringstream' in str(t.args[0]):
        return []
    if t.op == 'ite':
        raise Unknown('what is written depends on %s' % show(t.args[0], 4)[:120], t.args[0])
    return [t]


def resolve(t, case, rewrite=None, nonneg=()):
    """The value in one case: conditions which the case decides are replaced."""
    memo = {}

    def dec(c):
        if rewrite:
            c = rewrite(c)
        c = truth(c)
        if c in (TRUE, FALSE):
            return c
        if logic.implies(case, c, nonneg=nonneg) is True:
            return TRUE
        if logic.implies(case, lnot(c), nonneg=nonneg) is True:
            return FALSE
        return None

    def f(x):
        if x.op == 'ite':
            c = subst(x.args[0], f, memo)
            d = dec(c)
            if d is not None:
                return subst(x.args[1] if d is TRUE else x.args[2], f, memo)
        return None
    return subst(t, f, memo)
