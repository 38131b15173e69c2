#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'old' 'new' NEEDS BREAKS: make seeded/ID/patch.diff and meta.json from a textual change of /repo's HEAD.
FILE/old/new may be repeated by separating entries with a line of '@@@@'."""
import json, os, subprocess, sys
id_, prop, files, olds, news, needs, breaks = sys.argv[1:8]
d = os.path.join('/verif/seeded', id_)
os.makedirs(d, exist_ok=True)
w = '/tmp/mkseed.%d' % os.getpid()
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
try:
    sp = '\n@@@@\n'
    for f, o, n in zip(files.split(sp), olds.split(sp), news.split(sp)):
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(o) == 1, '%s: %d matches of %r' % (f, s.count(o), o)
        open(p, 'w').write(s.replace(o, n))
    open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
