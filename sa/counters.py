"""Loop counters that cannot reach the bound they are compared with: a counter of a type narrower than 32 bits is incremented until it
reaches a value of a wider type."""
from .interp import INTS, bare


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def width(P, e):
    t = bare(P.types[e['t']]) if 't' in e else ''
    return 1 if t == 'bool' else INTS[t][0] if t in INTS else None


def narrow_counters(P, f):
    """[(node, counter, its type, type of the bound)]"""
    out = []
    for s in walk(f.get('body')):
        if s.get('s') not in ('for', 'while', 'do') or s.get('c') is None:
            continue
        stepped = set()
        for n in walk([s.get('inc'), s.get('b')]):
            if n.get('k') == 'un' and '++' in str(n.get('op')) or n.get('k') == 'asg' and n.get('op') == '+=':
                a = n['a'][0]
                if a.get('k') == 'ref':
                    stepped.add(a.get('d'))
        if not stepped:
            continue
        for c in walk(s['c']):
            if c.get('k') != 'bin' or c.get('op') not in ('<', '<=', '!=', '>', '>='):
                continue
            for i in (0, 1):
                x, y = c['a'][i], c['a'][1 - i]
                while x.get('k') == 'cast' and len(x.get('a', ())) == 1:
                    x = x['a'][0]
                if x.get('k') != 'ref' or x.get('d') not in stepped:
                    continue
                if c['op'] in ('>', '>=') and i == 0 or c['op'] in ('<', '<=') and i == 1:
                    continue
                w = width(P, x)
                if w is None or w >= 32 or w == 1:
                    continue
                ws = []
                z = y
                while True:
                    if 'cv' in z:
                        ws.append(0)
                    ws.append(width(P, z))
                    if z.get('k') in ('cast', 'paren') and len(z.get('a', ())) == 1:
                        z = z['a'][0]
                    else:
                        break
                if None in ws or min(ws) <= w:
                    continue
                out.append((s, x.get('n', ''), P.types[x['t']], P.types[z['t']]))
    return out
