"""Call graph and exception-effect analysis over the exported AST."""

def walk(x, f):
    """Pre-order visit of AST nodes; f returning False prunes."""
    if isinstance(x, dict):
        if 'k' in x and f(x) is False: return
        for k, v in x.items():
            if isinstance(v, (dict, list)): walk(v, f)
    elif isinstance(x, list):
        for v in x: walk(v, f)

# Library functions that can throw (allocation, user code, checked access). Matched on the qualified
# name's container and on the method; functions that are not listed are assumed not to throw and are
# reported in the evidence.
ALLOC_METHODS = {
    'push_back', 'emplace_back', 'push_front', 'emplace_front', 'resize', 'reserve', 'assign', 'insert', 'emplace',
    'emplace_hint', 'operator[]', 'try_emplace', 'insert_or_assign', 'append', 'shrink_to_fit', 'at', 'value',
}
CONT_PREFIX = ('std::vector', 'std::__cxx11::list', 'std::list', 'std::map', 'std::set', 'std::deque', 'std::basic_string',
               'std::__cxx11::basic_string', 'boost::container::', 'std::unordered_')
NO_ALLOC_OPERATOR_INDEX = ('std::vector', 'std::deque', 'std::array', 'boost::container::vector', 'std::basic_string', 'std::__cxx11::basic_string')

def lib_throws(p, d, ast):
    """Exception types a library function may throw: set of names, or None when unknown."""
    dd = p.decls[d]
    if dd.get('exc') == 'noexcept': return set()
    q = dd.get('q', '')
    n = dd.get('n', '')
    if dd.get('externC') or dd.get('builtin'): return set()
    if n in ('operator new', 'operator new[]'):
        return {'std::bad_alloc'}
    for c in CONT_PREFIX:
        if q.startswith(c):
            if n == 'operator[]' and q.startswith(NO_ALLOC_OPERATOR_INDEX): return set()
            if n in ALLOC_METHODS: return {'std::bad_alloc'}
            if dd.get('ctor') == 'copy': return {'std::bad_alloc'}
            if dd.get('assign') == 'copy': return {'std::bad_alloc'}
            if dd.get('isctor') or 'ctor' in dd:
                if dd.get('ctor') in ('move', 'default'): return set()
                if 'iterator' in q.split('::')[-2:][0] or 'iterator' in q: return set()
                return {'std::bad_alloc'} if dd.get('params') else set()
            return set()
    if q.startswith('std::function') and n == 'operator()': return {'*handler*'}
    if q.startswith('std::function') and ('ctor' in dd):
        return set() if dd.get('ctor') in ('move', 'default') else {'std::bad_alloc'}
    return set()

def bases(p, rid):
    out = []
    st = [rid]
    while st:
        r = st.pop()
        if r in out: continue
        out.append(r)
        st += p.records[r].get('bases') or []
    return out

class Exceptions:
    """May-throw sets of every function with a body, by fixpoint over the call graph."""
    def __init__(self, p, handler_may_throw=True):
        self.p = p
        self.sets = {d: {} for d in p.funcs}     # d -> {exception: witness chain}
        self.handler = handler_may_throw
        self.sites = 0
        self.unknown = set()
        changed = True
        while changed:
            changed = False
            for d in p.funcs:
                s = self.body(d)
                if p.decls[d].get('exc') == 'noexcept': continue
                for k, w in s.items():
                    if k not in self.sets[d]:
                        self.sets[d][k] = w
                        changed = True

    def rec_q(self, t):
        r = self.p.rec_of(t)
        return None if r is None else r

    def exc_name(self, t):
        r = self.p.rec_of(t)
        return self.p.records[r]['q'] if r is not None else self.p.types[self.p.strip(t)]['s']

    def exc_bases(self, name):
        for i, r in enumerate(self.p.records):
            if r.get('q') == name:
                return [self.p.records[b]['q'] for b in bases(self.p, i)] + (['std::exception'])
        return [name, 'std::exception'] if name.startswith('std::') else [name]

    def body(self, d):
        f = self.p.funcs[d]
        out = {}
        for i in f.get('inits') or []:
            if 'e' in i: self.expr(i['e'], out)
        if 'body' in f: self.expr(f['body'], out)
        return out

    def expr(self, x, out):
        if isinstance(x, list):
            for v in x: self.expr(v, out)
            return
        if not isinstance(x, dict): return
        k = x.get('k')
        if k == 'Try':
            inner = {}
            self.expr(x['s'], inner)
            rest = dict(inner)
            for h in x['h']:
                if 't' not in h:
                    caught, rest = rest, {}
                else:
                    hn = self.exc_name(h['t'])
                    caught = {e: w for e, w in rest.items() if hn in self.exc_bases(e)}
                    rest = {e: w for e, w in rest.items() if e not in caught}
                ho = {}
                self.expr(h['s'], ho)
                if '*rethrow*' in ho:
                    w = ho.pop('*rethrow*')
                    for e in caught or inner: ho[e] = w
                for e, w in ho.items(): out.setdefault(e, w)
            for e, w in rest.items(): out.setdefault(e, w)
            return
        if k == 'Throw':
            if 'e' in x:
                out.setdefault(self.exc_name(x['e']['t']), ['throw at ' + self.p.loc(x['l'])])
                self.expr(x['e'], out)
            else: out.setdefault('*rethrow*', ['rethrow at ' + self.p.loc(x['l'])])
            return
        if k == 'Lambda':
            # the body runs when called
            for c in x.get('caps') or []: self.expr(c.get('init'), out)
            return
        if k == 'New':
            if not x.get('place'):
                out.setdefault('std::bad_alloc', ['new at ' + self.p.loc(x['l'])])
            elif self.p.types[x['at']].get('k') == 'rec' and False: pass
        if k in ('Call', 'MCall', 'OpCall', 'Ctor'):
            c = x.get('callee')
            if c is not None: self.call(c, x, out)
            elif k == 'Call':
                pass       # through a C function pointer
        for kk, v in x.items():
            if kk in ('callee',): continue
            if isinstance(v, (dict, list)): self.expr(v, out)

    def call(self, c, x, out):
        p = self.p
        dd = p.decls[c]
        self.sites += 1
        loc = p.loc(x['l'])
        if c in p.funcs and ('body' in p.funcs[c] or 'inits' in p.funcs[c]):
            if dd.get('exc') == 'noexcept': return
            for e, w in self.sets[c].items():
                if len(w) < 12: out.setdefault(e, ['%s called at %s' % (dd['q'], loc)] + w)
            # a defaulted / synthesised function without a body: nothing
            self.lambda_args(x, out, loc)
            return
        if dd.get('repo') and c not in p.funcs:
            q = dd.get('q', '')
            if q.startswith('vdrv::') and self.handler:
                out.setdefault('*handler*', ['user handler called at ' + loc])
            elif dd.get('defaulted') and dd.get('ctor') == 'copy' or dd.get('assign') == 'copy':
                out.setdefault('std::bad_alloc', ['copy at ' + loc])
            return
        s = lib_throws(p, c, x)
        for e in s:
            if e == '*handler*' and not self.handler: continue
            out.setdefault(e, ['%s at %s' % (dd.get('q'), loc)])
        # algorithms writing through inserters, calling lambdas
        self.lambda_args(x, out, loc)
        if not s and dd.get('exc') != 'noexcept' and not dd.get('repo'): self.unknown.add(dd.get('q'))

    def lambda_args(self, x, out, loc):
        """Closures given to an algorithm or wrapper are assumed to be called by it."""
        p = self.p
        dd = p.decls[x['callee']]
        if 'ctor' in dd or dd.get('isctor'): return
        def vis(y):
            if y.get('k') == 'Lambda':
                for e, w in self.body(y['op']).items() if y['op'] in p.funcs else ():
                    out.setdefault(e, ['closure at %s called at %s' % (p.loc(y['l']), loc)] + w)
                return False
            if y.get('k') == 'Call' and y is not x:
                n = p.decls[y['callee']]['n'] if 'callee' in y else ''
                if n in ('back_inserter', 'inserter', 'front_inserter'):
                    out.setdefault('std::bad_alloc', ['insertion through %s at %s' % (n, loc)])
            return True
        for a in x.get('a') or []: walk(a, vis)
