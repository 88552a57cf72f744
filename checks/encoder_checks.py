"""Properties of the encoder."""
from common import *
from session import *
from wire_checks import where_of

def source_rec(p): return rec(p, 'ntc::detail::encoder_source')
def gf_coeff(dd, p): return dd['n'] == 'coefficient' and dd.get('rec') is not None and p.records[dd['rec']]['q'] == 'ntc::detail::galois_field'

def reachable(I, st, o, kind, out=None, seen=None):
    """Container objects of a kind owned by object o."""
    out = out if out is not None else []
    seen = seen if seen is not None else set()
    if o in seen or o not in st.heap: return out
    seen.add(o)
    ob = st.heap[o]
    if ob.kind == kind: out.append(o)
    if ob.kind == 'rec' and ob.t is not None:
        for f in I.fields_of(ob.t):
            if I.ty(f['t']).get('k') == 'ref': continue
            v = ob.f.get(f['n'])
            if isinstance(v, ObjRef): reachable(I, st, v.o, kind, out, seen)
    return out

class Enc(Checker):
    """Encoder whose window is a sorted list of sources with identifiers below the next one."""
    stub_coder = True
    next_field = None            # name of the member that holds the next source identifier
    def __init__(self):
        Checker.__init__(self)
        self.enc = self.win = None
    def setup(self, I, st, o):
        self.enc = o.o
        ls = reachable(I, st, o.o, 'list')
        if len(ls) != 1: raise Missing('window of the encoder')
        self.win = ls[0]
        self.size0 = st.get(self.win, 'size')
        self.ws = accessor(I, st, o.o, 'window_size')
        self.rate = accessor(I, st, o.o, 'rate')
        self.code = accessor(I, st, o.o, 'code_type')
        self.before = st.copy()
        st.ghost['pk'] = ''
        st.ghost['enc'] = ''
    def list_key(self, I, st, v): return accessor(I, st, v.o, 'id')
    def materialize(self, I, st, c, e):
        if c == self.win:
            v = I.symbolic(st, type_of(I.p, source_rec(I.p)), 'src')
            k = st.get(e, 'key')
            if not st.assume_eq(accessor(I, st, v.o, 'id'), k): return []
            if self.next_field and not st.assume(self.before.get(self.enc, self.next_field) - 1 - k): return []
            st.set(e, 'second', v)
            self.source(I, st, v)
        return [st]
    def source(self, I, st, v):
        # sizes fit in the 16 bits of the format
        b = vec_field(I, st, v.o)
        st.set(b, 'size', fresh('bytes', 1, 65535))
    def on_call(self, I, st, d, dd, this, args, ast):
        p = I.p
        r = dd.get('rec')
        if gf_coeff(dd, p) and len(args) == 2:
            vs = [I.lib.val(st, a) for a in args]
            if all(isinstance(v, Lin) for v in vs): return [(st, memo(('coeff',) + tuple(vs), 'coeff', 1, (1 << 32) - 1))]
        if r is None: return None
        q = p.records[r]['q']
        if q == 'ntc::detail::packetizer' and dd['n'] in ('write_source', 'write_repair'):
            k = dd['n'][6:]
            v = I.lib.val(st, args[0])
            if not isinstance(v, ObjRef): return None
            if len(st.ghost['pk']) < 6: st.ghost['pk'] += k[0]
            st.emit('packet', k, accessor(I, st, v.o, 'id'), v, where_of(I, ast))
            self.written(I, st, k, v, ast)
            return [(st, NULL)]
        if self.stub_coder and q == 'ntc::detail::encoder' and dd['n'] == 'operator()':
            st.emit('encode', I.lib.val(st, args[0]), I.lib.val(st, args[1]))
            if len(st.ghost['enc']) < 6: st.ghost['enc'] += 'e'
            return [(st, NULL)]
        return None
    def written(self, I, st, k, v, ast): pass

def data_methods(p):
    e = enc_rec(p)
    pr = packet_rec(p)
    r = [d for d in methods(p, e, 'operator()', 1) if p.rec_of(p.decls[d]['params'][0]['t']) != pr]
    if not r: raise Missing('encoder::operator()(data)')
    return r

def start(I, c, p, inv=None):
    """Encoders after an arbitrary history: yields (state, object)."""
    for s, o in instance(I, State(), enc_rec(p)):
        s.alloc('root', None, {'obj': o})
        c.setup(I, s, o)
        s.assume(c.ws - 1)
        s.assume(c.rate - 1)
        if inv: inv(s, c)
        c.before = s.copy()
        yield s, o

def commits(I, c, p, inv=None):
    for d in data_methods(p):
        for s, o in start(I, c, p, inv):
            a = I.symbolic(s, p.decls[d]['params'][0]['t'], 'data')
            s.alloc('root', None, {'obj': a})
            b = I.lib.buf_of(s, a)
            s.assume(s.get(b, 'size') - 1)
            s.assume(const(65535) - s.get(b, 'size'))
            n0 = s.get(b, 'size')
            g0 = s.get(b, 'gen')
            c.data = (b, n0, g0)
            c.before = s.copy()
            for s2, v in I.call(s, d, o, [a], None): yield s2, o, d

def unwrap(v):
    """Undoes the reductions modulo 2^bits: the number before any of them."""
    for _ in range(8):
        m = [x[0] for x in v.t if isinstance(SYMS[x[0]].tag, tuple) and SYMS[x[0]].tag[0] == 'wrap']
        if not m: break
        v = v.subst({m[0]: SYMS[m[0]].tag[1]})
    return v

def int_fields(I, st, o):
    return [f['n'] for f in I.fields_of(st.heap[o].t) if isinstance(st.get(o, f['n']), Lin)]

_disc = {}
def discover(p):
    """Names of the members holding the next identifiers and the number of packets since the last ack."""
    if id(p) in _disc: return _disc[id(p)]
    c = Enc()
    I = Interp(p, c)
    src, rep, cnt = None, None, None
    for s, o, d in commits(I, c, p):
        if s.exc: continue
        ev = s.events()
        ids = {e[1]: e[2] for e in ev if e[0] == 'packet'}
        fs = int_fields(I, c.before, o.o)
        for f in fs:
            v = c.before.get(o.o, f)
            bits = [x for x in I.fields_of(s.heap[o.o].t) if x['n'] == f]
            if 'source' in ids and s.eq(ids['source'], v) is True and not v.is_const(): src = src or f
            if 'repair' in ids and s.eq(ids['repair'], v) is True and not v.is_const(): rep = rep or f
            if s.ghost['pk'] == 'sr':
                w = s.get(o.o, f)
                if isinstance(w, Lin): w = unwrap(w)
                if w == v + 2: cnt = cnt or f
    _disc[id(p)] = (src, rep, cnt)
    return _disc[id(p)]

def make(p, base=Enc, **kw):
    src = discover(p)[0]
    def mk():
        c = base()
        c.next_field = src
        for k, v in kw.items(): setattr(c, k, v)
        return c
    return mk

# ------------------------------------------------------------------ C15
class Window(Enc):
    phase = ''
    def on_event(self, I, st, kind, *a):
        if kind == 'erase' and a[0] == self.win and self.phase in ('commit', 'resize'):
            c, e, ast = a
            k = st.get(e, 'key')
            where = where_of(I, ast)
            first = all(x == e or st.entails(st.get(x, 'key') - k) for x in st.get(c, 'ents')) and I.lib.covered(st, c, None, k - 1)
            self.ob(st, 'evict-oldest', 'a source leaves a full window only if it is the oldest one', where, bool(first), ['removed %r, listed %r' % (k, [st.get(x, 'key') for x in st.get(c, 'ents')])])
            if self.phase == 'commit':
                self.ob(st, 'evict-only-if-full', 'a source leaves the window only when there is no room left', where, st.entails(st.get(c, 'size') - self.ws),
                        ['size %r, maximum %r' % (st.get(c, 'size'), self.ws)])
        elif kind in ('erase', 'erase_range', 'clear') and a[0] == self.win and self.phase == 'other':
            self.ob(st, 'window-stable', 'only new data and acknowledgments remove sources from the window', where_of(I, a[-1]), False, [kind])
        elif kind in ('clear',) and a[0] == self.win and self.phase == 'commit':
            self.ob(st, 'evict-only-if-full', 'a source leaves the window only when there is no room left', where_of(I, a[-1]), False, [kind])
        elif kind == 'list_push' and a[0] == self.win:
            c, key, v, ast = a
            where = where_of(I, ast)
            self.ob(st, 'only-commit-adds', 'only new data adds a source to the window', where, self.phase == 'commit')
            if self.phase == 'commit' and self.next_field:
                self.ob(st, 'sorted-window', 'a source is added behind all older ones', where, st.eq(key, self.before.get(self.enc, self.next_field)) is True, [key])
                st.ghost['added'] = min(2, st.ghost.get('added', 0) + 1)
        elif kind == 'insert' and a[0] == self.win and self.phase == 'commit' and not isinstance(a[1], int): pass
    def on_call(self, I, st, d, dd, this, args, ast):
        p = I.p
        if dd.get('rec') is not None and p.records[dd['rec']]['q'] == 'ntc::detail::packetizer' and dd['n'] == 'read_ack':
            r = I.symbolic(st, dd['ret'], 'ack')
            ids = accessor(I, st, st.get(r.o, 'first').o, 'source_ids').o
            out = []
            if 'W' in st.ghost:
                for s, e in I.lib.find(st, ids, st.ghost['W']):
                    s.ghost['acked'] = 1 if e is not None else 0
                    if e is not None: s.alloc('root', None, {'e': It(ids, e)})
                    out.append((s, r))
            else: out.append((st, r))
            return out
        return Enc.on_call(self, I, st, d, dd, this, args, ast)
    def keep_entry(self, I, st, cont, ent):
        return 'W' in st.ghost and st.eq(st.get(ent, 'key'), st.ghost['W']) is True
    def focus(self, I, st, cont): return [st.ghost['W']] if 'W' in st.ghost else []
    def split_head(self, I, st):
        """Keeps apart how the cursors of the frames stand to the witness."""
        if 'W' not in st.ghost: return [st]
        ks = []
        for o, ob in st.heap.items():
            if ob.kind != 'frame': continue
            for v in ob.f.values():
                if isinstance(v, It) and v.e is not None and v.e in st.heap: ks.append((o, st.get(v.e, 'key')))
        todo = [(st, '')]
        for _, k in ks:
            nt = []
            for s, r in todo:
                for s2, b in I.cmp(s, '<', k, s.ghost['W']):
                    if b: nt.append((s2, r + '<')); continue
                    for s3, b3 in I.cmp(s2, '==', k, s2.ghost['W']): nt.append((s3, r + ('=' if b3 else '>')))
            todo = nt
        out = []
        for s, r in todo:
            s.ghost['cmp'] = r
            out.append(s)
        return out

def presence(I, st, c, k):
    """True / False / None: is key k in container c?"""
    for e in st.get(c, 'ents'):
        r = st.eq(st.get(e, 'key'), k)
        if r is True: return True
        if r is None: return None
    return False if I.lib.in_gap(st, c, k) else None

def window_bound(I, c, p, inv, rule_prefix=''):
    c.phase = 'commit'
    worst = True
    for s, o, d in commits(I, c, p, inv):
        where = p.loc(p.decls[d]['l'])
        if s.exc: continue
        n = s.get(c.win, 'size')
        c.ob(s, 'window-bounded', 'after a data is given the window is not larger than its maximal size', where, s.entails(c.ws - n), ['%r sources, maximum %r' % (n, c.ws)])
        c.ob(s, 'data-enters-window', 'a data given enters the window once', where, s.ghost.get('added', 0) == 1, [s.ghost.get('added', 0)])
        last = [e for e in s.get(c.win, 'ents') if c.next_field and s.eq(s.get(e, 'key'), c.before.get(c.enc, c.next_field)) is True]
        if last:
            v = s.get(last[0], 'second')
            b = vec_field(I, s, v.o)
            same = s.eq(s.get(b, 'size'), c.data[1]) is True and (s.get(b, 'gen') == c.data[2] or s.get(b, 'copyof') is not None)
            c.ob(s, 'data-kept', 'the source of the window holds the data given', where, True if same else (False if s.eq(s.get(b, 'size'), c.data[1]) is False else None),
                 ['%r bytes, given %r' % (s.get(b, 'size'), c.data[1])])

def window(rep, cache):
    p = program(cache)
    if discover(p)[0] is None: raise Missing('next source identifier of the encoder')
    mk = make(p, Window)
    # the bound, from any size; or inductively when every operation keeps it
    import report
    trial = report.Report(rep.pid, rep.tier)
    decide(trial, p, mk, lambda I, c: window_bound(I, c, p, None))
    if [o for o in trial.obs if o['rule'] == 'window-bounded' and o['ok'] is not True]:
        ind = lambda s, c: s.assume(c.ws - s.get(c.win, 'size'))
        t2 = report.Report(rep.pid, rep.tier)
        decide(t2, p, mk, lambda I, c: window_bound(I, c, p, ind))
        def setter(I, c):
            c.phase = 'resize'
            for d in methods(p, enc_rec(p), 'set_window_size', 1):
                for s, o in start(I, c, p, ind):
                    n = I.symbolic(s, p.decls[d]['params'][0]['t'], 'sz')
                    s.assume(n - 1)
                    for s2, v in I.call(s, d, o, [n], None):
                        c.ob(s2, 'window-bounded', 'changing the maximal size keeps the window below it', p.loc(p.decls[d]['l']), s2.entails(accessor(I, s2, o.o, 'window_size') - s2.get(c.win, 'size')))
        decide(t2, p, mk, setter)
        if not [o for o in t2.obs if o['rule'] == 'window-bounded' and o['ok'] is not True]: trial = t2
    for o in trial.obs: rep.ob(o['rule'], o['what'], o['where'], o['ok'], [x for v in trial.violations if v['where'] == o['where'] for x in v['detail']])
    rep.notes += trial.notes
    for k, v in trial.analysed.items(): rep.analysed[k] = rep.analysed.get(k, 0) + v
    # acknowledgments: an arbitrary source W of the window
    def acks(I, c):
        c.phase = 'ack'
        pr = packet_rec(p)
        for d in methods(p, enc_rec(p), 'operator()', 1, param_is(p, 0, pr)):
            where = p.loc(p.decls[d]['l'])
            for s, o in start(I, c, p):
                W = fresh('W', 0, (1 << 32) - 1)
                for s1, e in I.lib.find(s, c.win, W):
                    if e is None: continue
                    s1.ghost['W'] = W
                    pk, b, sh = a_packet(I, s1)
                    s1.alloc('root', None, {'obj': pk})
                    for s2, v in I.call(s1, d, o, [pk], None):
                        there = presence(I, s2, c.win, W)
                        if s2.exc or 'acked' not in s2.ghost: continue
                        if s2.ghost['acked']:
                            c.ob(s2, 'acked-removed', 'an acknowledged source leaves the window', where, None if there is None else not there)
                        else:
                            c.ob(s2, 'unacked-kept', 'a source that is not acknowledged stays in the window', where, there)
    decide(rep, p, mk, acks)
    def others(I, c):
        c.phase = 'other'
        n = 0
        er = enc_rec(p)
        for name in ('generate_repair', 'window', 'set_rate', 'set_code_type', 'set_adaptive', 'set_window_size', 'rate', 'window_size', 'nb_sent_repairs', 'nb_sent_sources'):
            for d in methods(p, er, name):
                if name == 'set_window_size': c.phase = 'resize'
                else: c.phase = 'other'
                for s, o in start(I, c, p):
                    args = [I.symbolic(s, x['t'], 'a') for x in p.decls[d]['params']]
                    for a in args:
                        if isinstance(a, Lin): s.assume(a)
                    for s2, v in I.call(s, d, o, args, None):
                        n += 1
                        if name == 'window' and isinstance(v, Lin):
                            c.ob(s2, 'window-reported', 'window() is the number of sources kept', p.loc(p.decls[d]['l']), s2.eq(v, s2.get(c.win, 'size')) is True, [v])
                        c.ob(s2, 'window-stable', '%s leaves the window as it is' % name, p.loc(p.decls[d]['l']), True)
    decide(rep, p, mk, others)
    rep.assume('identifiers do not wrap around 2^32', 'window size and rate given by the user are positive (documented preconditions)')

# ------------------------------------------------------------------ C16 / C17
def last_ids(evs, kind): return [e[2] for e in evs if e[0] == 'packet' and e[1] == kind]

def numbering(rep, cache):
    p = program(cache)
    src, rpr, cnt = discover(p)
    if src is None or rpr is None: raise Missing('identifier counters of the encoder')
    mk = make(p)
    def after(I, c, s, o, where, op):
        ev = s.events()
        pk = s.ghost['pk']
        b = c.before
        def val(f): return s.get(o.o, f)
        ids = last_ids(ev, 'source')
        for i, x in enumerate(ids):
            c.ob(s, 'source-identifier', '%s: a source packet carries the next source identifier' % op, where, s.eq(x, b.get(o.o, src)) is True, ['%r, next %r' % (x, b.get(o.o, src))])
        rs = last_ids(ev, 'repair')
        for i, x in enumerate(rs):
            c.ob(s, 'repair-identifier', '%s: repair packets carry consecutive identifiers' % op, where, s.eq(x, b.get(o.o, rpr) + i) is True, ['%r, next %r, position %d' % (x, b.get(o.o, rpr), i)])
        if len(ids) + len(rs) != len(pk): c.ob(s, 'packets-understood', op, where, None); return
        c.ob(s, 'repair-identifiers-fresh', '%s: repair identifiers are never used again' % op, where, s.eq(val(rpr), b.get(o.o, rpr) + len(rs)) is True,
             ['%d repairs, counter %r from %r' % (len(rs), val(rpr), b.get(o.o, rpr))])
        ns = 1 if op.startswith('data') else 0
        c.ob(s, 'source-identifiers-fresh', '%s: the next source identifier moves by the number of data' % op, where, s.eq(val(src), b.get(o.o, src) + ns) is True,
             ['%r from %r' % (val(src), b.get(o.o, src))])
        for acc, k, n in (('nb_sent_sources', 'source', len(ids)), ('nb_sent_repairs', 'repair', len(rs))):
            v0, v1 = accessor(I, b.copy(), o.o, acc), accessor(I, s, o.o, acc)
            c.ob(s, 'counts-' + k, '%s: %s() counts the %s packets sent' % (op, acc, k), where, s.eq(v1, v0 + n) is True, ['%r from %r, %d sent' % (v1, v0, n)])
        for i, e in enumerate(ev):
            if e[0] == 'packet' and e[1] == 'repair':
                en = [x for x in ev[:i] if x[0] == 'encode']
                c.ob(s, 'encoded-before-sent', '%s: a repair is computed before it is sent' % op, where, len(en) == sum(1 for x in ev[:i + 1] if x[0] == 'packet' and x[1] == 'repair') and en[-1][1] == e[3])
    def scenario(I, c):
        for s, o, d in commits(I, c, p):
            if not s.exc: after(I, c, s, o, p.loc(p.decls[d]['l']), 'data')
        for d in methods(p, enc_rec(p), 'generate_repair', 0):
            for s, o in start(I, c, p):
                for s2, v in I.call(s, d, o, [], None):
                    if not s2.exc: after(I, c, s2, o, p.loc(p.decls[d]['l']), 'generate_repair')
    decide(rep, p, mk, scenario)
    def identifiers_kept(I, c):
        """Nothing else moves the counters."""
        er = enc_rec(p)
        for d in sorted(p.funcs):
            dd = p.decls[d]
            if dd.get('rec') != er or dd.get('ctor') or dd['n'] in ('generate_repair', '<dtor>', '~encoder') or dd.get('access') == 'private': continue
            if d in data_methods(p) or not p.funcs[d].get('body'): continue
            if dd['n'] not in ('set_rate', 'set_window_size', 'set_code_type', 'set_adaptive', 'operator()', 'window', 'rate'): continue
            for s, o in start(I, c, p):
                args = []
                for x in dd['params']:
                    if p.rec_of(x['t']) == packet_rec(p): args.append(a_packet(I, s)[0])
                    else: args.append(I.symbolic(s, x['t'], 'a'))
                for s2, v in I.call(s, d, o, args, None):
                    ok = all(s2.eq(s2.get(o.o, f), c.before.get(o.o, f)) is True for f in (src, rpr))
                    c.ob(s2, 'identifiers-kept', '%s does not change the identifiers' % dd['n'], p.loc(dd['l']), ok)
                    c.ob(s2, 'nothing-sent', '%s sends nothing' % dd['n'], p.loc(dd['l']), s2.ghost['pk'] == '', [s2.ghost['pk']])
    class Acks(Enc):
        def on_call(self, I, st, d, dd, this, args, ast):
            if dd.get('rec') is not None and I.p.records[dd['rec']]['q'] == 'ntc::detail::packetizer' and dd['n'] == 'read_ack':
                return [(st, I.symbolic(st, dd['ret'], 'ack'))]
            return Enc.on_call(self, I, st, d, dd, this, args, ast)
    decide(rep, p, make(p, Acks), identifiers_kept)
    rep.assume('identifiers do not wrap around 2^32')

def enum_value(p, q, name):
    for t in p.types:
        if t.get('k') == 'enum' and t.get('q') == q:
            for n, v in t['vals']:
                if n == name: return v
    raise Missing(q + '::' + name)

def schedule(rep, cache):
    p = program(cache)
    src, rpr, cnt = discover(p)
    if src is None: raise Missing('next source identifier of the encoder')
    yes = enum_value(p, 'ntc::systematic', 'yes')
    mk = make(p)
    def scenario(I, c):
        n = 0
        size_t = [f['t'] for f in I.fields_of(enc_rec(p)) if I.ty(f['t']).get('bits') == 64 and I.ty(f['t']).get('k') == 'int']
        for s, o, d in commits(I, c, p):
            if s.exc: continue
            n += 1
            where = p.loc(p.decls[d]['l'])
            s0 = s.copy()
            k = c.before.get(o.o, src)
            rem = I.arith(s, '%', k + 1, c.rate, size_t[0], {'l': p.decls[d]['l'], 'k': 'Bin', 't': size_t[0]})
            for sys in (True, False):
                for due in (True, False):
                    y = s.copy()
                    if not ((y.assume_eq(c.code, const(yes)) if sys else y.assume_neq(c.code, const(yes))) and (y.assume_eq(rem, ZERO) if due else y.assume_neq(rem, ZERO))): continue
                    if not sys and y.eq(c.code, const(yes)) is True or not due and y.eq(rem, ZERO) is True: continue
                    want = ('s' if sys else 'r') + ('r' if due else '')
                    what = '%s code, %s: %s' % ('systematic' if sys else 'non-systematic', 'multiple of the rate' if due else 'other source',
                                               {'s': 'the source is sent alone', 'r': 'one repair replaces the source', 'sr': 'the source, then a repair', 'rr': 'two repairs'}[want])
                    c.ob(y, 'schedule', what, where, y.ghost['pk'] == want, ['sent: %s' % y.ghost['pk']])
        c.ob(None, 'commit-understood', 'data is processed', p.loc(p.decls[data_methods(p)[0]]['l']), True if n else None)
        for d in methods(p, enc_rec(p), 'generate_repair', 0):
            where = p.loc(p.decls[d]['l'])
            for s, o in start(I, c, p):
                for s2, v in I.call(s, d, o, [], None):
                    if s2.exc: continue
                    for empty in (True, False):
                        y = s2.copy()
                        if not (y.assume_eq(c.size0, ZERO) if empty else y.assume(c.size0 - 1)): continue
                        c.ob(y, 'forced-repair', 'generate_repair() sends %s' % ('nothing when the window is empty' if empty else 'one repair when the window is not empty'), where,
                             y.ghost['pk'] == ('' if empty else 'r'), [y.ghost['pk']])
    class S(Enc):
        def on_event(self, I, st, kind, *a):
            if kind == 'div' and isinstance(a[1], Lin) and not a[1].is_const():
                self.ob(st, 'no-division-by-zero', 'the rate is never zero where it divides', where_of(I, a[2]), st.entails(a[1] - 1) or st.eq(a[1], ZERO) is False, [a[1]])
    decide(rep, p, make(p, S), scenario)
    rep.assume('identifiers do not wrap around 2^32', 'window size and rate given by the user are positive (documented preconditions)')

# ------------------------------------------------------------------ C18
class Rate(Enc):
    def on_call(self, I, st, d, dd, this, args, ast):
        if dd.get('rec') is not None and I.p.records[dd['rec']]['q'] == 'ntc::detail::packetizer' and dd['n'] == 'read_ack':
            r = I.symbolic(st, dd['ret'], 'ack')
            np = accessor(I, st, st.get(r.o, 'first').o, 'nb_packets')
            cnt = discover(I.p)[2]
            if not cnt or not isinstance(np, Lin): return [(st, r)]
            n0 = self.before.get(self.enc, cnt)
            out = []
            lost = n0 - np
            for case, conds in [(0, [-n0]), (1, [n0 - 1, np - n0]), (2, [n0 - 1, -np])] + [(k + 3, [lost - 1, np - 1, n0 - lost.scale(1 << k)] + ([lost.scale(2 << k) - n0] if k < 6 else [])) for k in range(7)]:
                s = st.copy()
                if not all(s.assume(q) for q in conds): continue
                s.ghost['case'] = case
                out.append((s, r))
            return out
        return Enc.on_call(self, I, st, d, dd, this, args, ast)
    def on_event(self, I, st, kind, *a):
        if kind == 'float_conv':
            self.ob(st, 'conversion-in-range', 'the computed rate fits its type', where_of(I, a[-1]), False if a[0].hi == float('inf') else None, [a[0]])

def adaptive(rep, cache):
    p = program(cache)
    src, rpr, cnt = discover(p)
    pr = packet_rec(p)
    mk = make(p, Rate)
    def scenario(I, c):
        for d in methods(p, enc_rec(p), 'operator()', 1, param_is(p, 0, pr)):
            where = p.loc(p.decls[d]['l'])
            for s, o in start(I, c, p):
                ad = accessor(I, s, o.o, 'adaptive')
                pk, b, sh = a_packet(I, s)
                s.alloc('root', None, {'obj': pk})
                for s2, v in I.call(s, d, o, [pk], None):
                    if s2.exc: continue
                    r = accessor(I, s2, o.o, 'rate')
                    for on in (True, False):
                        y = s2.copy()
                        if not (y.assume_neq(ad, ZERO) if on else y.assume_eq(ad, ZERO)): continue
                        if on and y.eq(ad, ZERO) is True: continue
                        if on:
                            lo, hi = y.entails(r - 1), y.entails(const(50) - r)
                            c.ob(y, 'rate-in-range', 'an adaptive rate stays between 1 and 50', where, bool(lo and hi), ['rate %r %r' % (r, bounds(r))])
                            if 'case' in y.ghost:
                                what, lo, hi = ([('nothing was sent since the last acknowledgment', 50, 50), ('every packet arrived', 50, 50), ('no packet arrived', 1, 1)] +
                                                [('1/%d to 1/%d of the packets were lost' % (2 << k, 1 << k), (1 << k) + 1 >> 1, 1 << k) for k in range(6)] + [('less than 1/64 of the packets were lost', 32, 50)])[y.ghost['case']]
                                c.ob(y, 'rate-follows-loss', 'when %s, one repair for %s sources' % (what, lo if lo == hi else '%d to %d' % (lo, hi)), where,
                                     bool(y.entails(r - lo) and y.entails(const(hi) - r)), ['rate %r %r' % (r, bounds(r))])
                        else:
                            c.ob(y, 'rate-fixed', 'without adaptation an acknowledgment does not change the rate', where, y.eq(r, c.rate) is True, ['rate %r' % r])
                    if cnt:
                        c.ob(s2, 'losses-since-last-ack', 'the count of sent packets restarts with an acknowledgment', where, s2.eq(s2.get(o.o, cnt), ZERO) is True, [s2.get(o.o, cnt)])
        for s, o, d in commits(I, c, p):
            if s.exc: continue
            where = p.loc(p.decls[d]['l'])
            c.ob(s, 'rate-fixed', 'new data does not change the rate', where, s.eq(accessor(I, s, o.o, 'rate'), c.rate) is True)
            if cnt: counted(I, c, s, o, where, 'new data')
        for d in methods(p, enc_rec(p), 'generate_repair', 0):
            for s, o in start(I, c, p):
                for s2, v in I.call(s, d, o, [], None):
                    if not s2.exc and cnt: counted(I, c, s2, o, p.loc(p.decls[d]['l']), 'a forced repair')
        if not cnt: c.ob(None, 'counter-understood', 'packets sent since the last acknowledgment are counted', '?', None)
        for d in methods(p, enc_rec(p), 'set_rate', 1):
            for s, o in start(I, c, p):
                n = I.symbolic(s, p.decls[d]['params'][0]['t'], 'r')
                s.assume(n - 1)
                for s2, v in I.call(s, d, o, [n], None):
                    c.ob(s2, 'rate-set', 'rate() is the rate given to set_rate()', p.loc(p.decls[d]['l']), s2.eq(accessor(I, s2, o.o, 'rate'), n) is True)
    def counted(I, c, s, o, where, op):
        v = s.get(o.o, cnt)
        n = len(s.ghost['pk'])
        y = s.copy()
        y.assume(const(60000) - c.before.get(o.o, cnt))
        v = unwrap(v) if isinstance(v, Lin) else v
        c.ob(s, 'sent-packets-counted', '%s: every packet sent counts once in the loss estimate' % op, where, y.eq(v, c.before.get(o.o, cnt) + n) is True, ['%r, %d sent' % (v, n)])
    decide(rep, p, mk, scenario)
    rep.assume('floating-point division is monotone (IEEE 754)', 'less than 65536 packets are sent between two acknowledgments')
