#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/props.py (run from /verif)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from meta.props import PROPS, NA, NOTES
from sa.rules import RULES

LEVEL_NOTE = ('Symbolic summaries and traces of the functions named in the evidence file, computed from the current source on every run '
              '(clang front end, resolved program, templates instantiated); a path whose shape is not recognised is reported as undecided, '
              'never as a violation. ')
out, checks, na = [], [], []
for q in PROPS:
    pid = q['id']
    out.append({'id': pid, 'title': q['title'], 'statement': q['statement'],
                'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']]}})
    assert len(q['title']) <= 80, q['title']
    assert q['statement'].count('. ') <= 2, pid
    if pid in RULES:
        c = {'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
             'technique': q['technique'], 'level': 'other', 'level_note': LEVEL_NOTE + q.get('bounds', '')}
        checks.append(c)
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No rule has been built for it.')})
for pid in RULES:
    assert any(q['id'] == pid for q in PROPS), pid
with open('properties.jsonl', 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -B -c "from sa import build; build.tool()"', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(out), 'properties', len(checks), 'checks', len(na), 'not applicable')

# Per-property notes of DESIGN.md.
import glob
d = open('DESIGN.md').read()
A, B = '<!-- generated: properties -->', '<!-- end of generated part -->'
seeds = {}
for x in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(x))
    seeds.setdefault(j['property'], []).append((x.split('/')[1], j['what_it_breaks'], j['needs']))
L = [A, '']
for q in PROPS:
    pid = q['id']
    L += ['### %s %s' % (pid, q['title']), '', q['statement'], '']
    L += ['* Quantified over: %s. Why tests cannot settle it: %s' % (q['text'], q['why'])]
    if pid in RULES:
        r = RULES[pid]
        L += ['* How it is decided: %s.' % q['technique'].rstrip('.'), '* Rule: %s' % r.explanation.strip()]
        L += ['* Analysed: harness units %s; anchored in %s.' % (', '.join('`%s`' % t for t in r.tus), '; '.join('%s (`%s`)' % (a, b) for a, b in q['mech']))]
        L += ['* Fewest obligations below which the check counts as broken: %d.' % r.min_obligations + (' ' + ' '.join(r.assumptions) if r.assumptions else '')]
        for n, w, need in seeds.get(pid, []):
            L += ['* Planted change `%s`: %s; needs %s. Caught.' % (n, w, need)]
    else:
        L += ['* Not applicable: %s' % NA[pid]]
    L += ['']
L += [B]
i, k = d.index(A), d.index(B) + len(B)
open('DESIGN.md', 'w').write(d[:i] + '\n'.join(L) + d[k:])
