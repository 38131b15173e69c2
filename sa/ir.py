"""Loading of the resolved program exported by tool/obx."""
import json
import re


class Program:
    """The functions, globals and records of one or more exported translation units."""

    def __init__(self):
        self.funcs = {}      # id -> function record
        self.gvars = {}      # id -> variable record
        self.recs = []
        self.types = []
        self.files = []
        self.by_q = {}
        self.dtors = {}      # class type string -> function id
        self.rec_by_t = {}
        self.ref_members = set()     # declarations of members of reference type
        self.fld_order = {}

    def load(self, path):
        base_types = 0
        with open(path) as f:
            for line in f:
                r = json.loads(line)
                k = r['R']
                if k == 'func':
                    self.funcs[r['id']] = r
                elif k == 'gvar':
                    self.gvars[r['id']] = r
                elif k == 'rec':
                    self.recs.append(r)
                elif k == 'types':
                    self.types = r['v']
                elif k == 'files':
                    self.files = r['v']
        for f in self.funcs.values():
            self.by_q.setdefault(f['q'], []).append(f)
            if f.get('kind') == 'dtor' and not f.get('def'):
                self.dtors[self.types[f['cls']]] = f['id']
        for r in self.recs:
            self.rec_by_t[self.types[r['t']]] = r
            self.rec_by_t.setdefault(re.sub(r'\b(const|volatile)\b ?', '', self.types[r['t']]).strip(), r)
            self.ref_members.update(x['d'] for x in r['fields'] if self.types[x['t']].strip().endswith('&'))
        return self

    def ty(self, i):
        return self.types[i] if i is not None else ''

    def loc(self, node):
        L = node.get('L') if node else None
        if not L:
            return ''
        return '%s:%d' % (self.files[L[0]], L[1])

    def find(self, q, **kw):
        """Functions with qualified name q (no template arguments)."""
        return self.by_q.get(q, [])
