"""Access to the exported program."""

class Program:
    def __init__(self, js):
        self.js = js
        self.types = js['types']
        self.records = js['records']
        self.decls = {int(k): v for k, v in js['decls'].items()}
        self.files = js['files']
        self.funcs = {}
        self.by_q = {}
        for f in js['functions']:
            self.funcs[f['d']] = f
            self.by_q.setdefault(self.decls[f['d']]['q'], []).append(f['d'])
        self.globals = {g['d']: g for g in js['globals']}

    def loc(self, l):
        if not l or l[0] < 0: return '?'
        f = self.files[l[0]]
        i = f.find('/netcode/')
        return '%s:%d' % (f[i + 1:] if i >= 0 else f, l[1])

    def file_of(self, l):
        return '' if not l or l[0] < 0 else self.files[l[0]]

    def strip(self, t):
        """Type id without reference."""
        ty = self.types[t]
        while ty.get('k') == 'ref':
            t = ty['p']; ty = self.types[t]
        return t

    def t(self, t):
        return self.types[t]

    def rec_of(self, t):
        ty = self.types[self.strip(t)]
        return ty['rec'] if ty.get('k') == 'rec' else None

    def functions(self, q, pred=None):
        return [d for d in self.by_q.get(q, []) if pred is None or pred(self.decls[d])]

    def methods(self, recid, name=None):
        r = []
        for d in self.funcs:
            x = self.decls[d]
            if x.get('rec') == recid and (name is None or x['n'] == name): r.append(d)
        return r

    def find_rec(self, q, full=None):
        return [i for i, r in enumerate(self.records) if r.get('q') == q and (full is None or full in r['full'])]
