"""Properties of what is read from and written to the network."""
from common import *
from session import *

ALLOWED = ('ntc::overflow_error', 'ntc::packet_type_error')

def where_of(I, ast):
    return I.p.loc(ast['l']) if ast else '?'

def core_call(p, dd):
    """Class of the packet given to the core decoder, None if dd is not the core decoder's entry."""
    if dd.get('rec') is None or dd['n'] != 'operator()' or p.records[dd['rec']]['q'] != 'ntc::detail::decoder': return None
    if len(dd['params']) != 1: return None
    r = p.rec_of(dd['params'][0]['t'])
    return p.records[r]['q'] if r is not None else None

READERS = (('read_ack', 'ack'), ('read_repair', 'repair'), ('read_source', 'source'))

def entries(p):
    """[(label, class, method)] of every function through which a packet enters the library."""
    out = []
    prec = packet_rec(p)
    for label, rid in (('encoder', enc_rec(p)), ('decoder', dec_rec(p))):
        for d in methods(p, rid, 'operator()', 1, param_is(p, 0, prec)):
            rv = p.types[p.decls[d]['params'][0]['t']].get('rv')
            out.append(('%s::operator()(%s)' % (label, 'packet&&' if rv else 'const packet&'), rid, d))
    if len(out) < 4: raise Missing('operator()(packet) of encoder and decoder')
    return out

def dispatcher(p):
    r = [d for d in p.funcs if p.decls[d]['q'] == 'ntc::dispatch' and len(p.decls[d]['params']) == 3 and 'body' in p.funcs[d]]
    if not r: raise Missing('ntc::dispatch')
    return r

def endpoints(p):
    """Entry points as runnable scenarios: (label, run(I) -> [(state, value, packet storage, shift, roots)], kinds)"""
    out = []
    def make(rid, d):
        def run(I):
            for s, o in instance(I, State(), rid):
                s.alloc('root', None, {'obj': o})
                pk, b, sh = a_packet(I, s)
                s.alloc('root', None, {'obj': pk})
                s.ghost['in'] = ObjRef(b)
                I.client.begin(I, s, b, sh, [o])
                for s2, v in I.call(s, d, o, [pk], None): yield s2, v, b, sh, [o]
        return run
    for label, rid, d in entries(p):
        out.append((label, make(rid, d), {'encoder': ('ack',), 'decoder': ('repair', 'source')}[label.split(':')[0]], p.loc(p.decls[d]['l'])))
    for d in dispatcher(p):
        t = p.types[p.decls[d]['params'][2]['t']]
        def run(I, d=d):
            for s, e in instance(I, State(), enc_rec(p)):
                s.alloc('root', None, {'obj': e})
                for s1, o in instance(I, s, dec_rec(p)):
                    s1.alloc('root', None, {'obj': o})
                    pk, b, sh = a_packet(I, s1)
                    s1.alloc('root', None, {'obj': pk})
                    I.client.begin(I, s1, b, sh, [e, o])
                    for s2, v in I.call(s1, d, None, [e, o, pk], None): yield s2, v, b, sh, [e, o]
        out.append(('dispatch(%s)' % ('packet&&' if t.get('rv') else 'const packet&'), run, ('ack', 'repair', 'source'), p.loc(p.decls[d]['l'])))
    return out

class Wire(Checker):
    """Stops at the core decoder; watches every access to packet storage."""
    def begin(self, I, st, b, sh, roots): pass
    def on_call(self, I, st, d, dd, this, args, ast):
        k = core_call(I.p, dd)
        if k is not None:
            st.emit('core', k, args[0], I.p.loc(ast['l']) if ast else '?')
            self.core(I, st, k, args[0], ast)
            return [(st, NULL)]
        return None
    def core(self, I, st, k, v, ast): pass

def symbol_of(I, st, v):
    """(pointer, size) of the symbol of a decoder_source / decoder_repair."""
    ptr = accessor(I, st, v.o, 'symbol')
    n = accessor(I, st, v.o, 'symbol_size')
    return ptr, n

# ------------------------------------------------------------------ C01
class Bounds(Wire):
    fn = ''
    def __init__(self):
        Wire.__init__(self)
        self.reads = 0
    def on_event(self, I, st, kind, *a):
        if kind == 'bounds':
            b, off, n, mode, ok, ast = a
            if b is None or b not in st.heap or not st.get(b, 'packet'): return
            self.reads += 1
            sh = packet_shift(I.p)
            inside = ok and (st.entails(-n) or st.entails(off - sh)) if isinstance(off, Lin) and isinstance(n, Lin) else None
            self.ob(st, 'packet-access-in-bounds', '%s access of the packet\'s storage stays inside the packet' % ('read' if 'r' in mode else 'write'),
                    where_of(I, ast), inside if inside is None else bool(inside),
                    ['offset %r, length %r, size %r' % (off, n, st.get(b, 'size'))])
        elif kind == 'scalar_overflow':
            cnt, sz, ast = a
            self.ob(st, 'scalar-not-overrun', 'value of %s bytes is not overrun' % sz, where_of(I, ast), False, ['%r bytes copied' % cnt], True)
        elif kind in ('null_deref', 'opt_deref', 'deref_end'):
            self.ob(st, 'no-invalid-dereference', kind, where_of(I, a[-1]), False)
    def core(self, I, st, k, v, ast):
        self.symbol(I, st, v, where_of(I, ast))
    def symbol(self, I, st, v, where):
        ptr, n = symbol_of(I, st, v)
        if not isinstance(ptr, Ptr) or not isinstance(n, Lin):
            self.ob(st, 'symbol-inside-packet', 'symbol lies inside the received packet', where, None); return
        ok = st.entails(ptr.off) and st.entails(st.get(ptr.b, 'size') - ptr.off - n)
        self.ob(st, 'symbol-inside-packet', 'symbol given to the decoder lies inside the received packet', where, ok,
                ['symbol at %r, length %r, storage %r' % (ptr.off, n, st.get(ptr.b, 'size'))])
    def leaves(self, I, st, v, b, sh, size, label, where):
        e = exc_name(I.p, st)
        if e is not None:
            self.ob(st, 'only-documented-errors', '%s lets out only overflow_error and packet_type_error' % label, where, e in ALLOWED, [e])
            return
        if isinstance(v, Lin):
            self.ob(st, 'consumed-within-packet', '%s reports no more bytes than the packet holds' % label, where, st.entails(size - sh - v),
                    ['consumed %r, packet %r' % (v, size - sh)])
            self.ob(st, 'consumed-positive', '%s reports at least the type byte of an accepted packet' % label, where, st.entails(v - 1), ['consumed %r' % v])
        else: self.ob(st, 'consumed-within-packet', '%s reports the bytes it consumed' % label, where, None)

def parsing(rep, cache):
    p = program(cache)
    pk = pkz_rec(p)
    total = 0
    for name, kind in READERS:
        for d in methods(p, pk, name, 1):
            def scenario(I, c, d=d, name=name, kind=kind):
                for s, o in instance(I, State(), pk):
                    s.alloc('root', None, {'obj': o})
                    v, b, sh = a_packet(I, s)
                    size = s.get(b, 'size')
                    where = p.loc(p.decls[d]['l'])
                    for s2, r in I.call(s, d, o, [v], None):
                        e = exc_name(p, s2)
                        if e is not None or not isinstance(r, ObjRef):
                            c.leaves(I, s2, None, b, sh, size, name, where); continue
                        c.leaves(I, s2, s2.get(r.o, 'second'), b, sh, size, name, where)
                        if kind != 'ack': c.symbol(I, s2, s2.get(r.o, 'first'), where)
            I, c = decide(rep, p, Bounds, scenario, name + ': ')
            total += c.reads
            if c.reads == 0: rep.ob('reads-seen', name + ': accesses of the packet are recognised', p.loc(p.decls[d]['l']), None)
    for label, run, kinds, where in endpoints(p):
        def scenario(I, c, run=run, label=label, where=where):
            n = 0
            for s, v, b, sh, roots in run(I):
                n += 1
                ob = s.heap.get(b)
                c.leaves(I, s, v, b, sh, c.size0, label, where)
            if not n: c.ob(None, 'returns', '%s returns' % label, where, None)
        class B(Bounds):
            def begin(self, I, st, b, sh, roots): self.size0 = st.get(b, 'size')
        I, c = decide(rep, p, B, scenario, label + ': ')
        total += c.reads
    rep.count('accesses of packet storage (over all paths)', total)
    rep.assume('std::copy_n, std::vector and boost::container behave as documented', 'packets handed in are at most 2^40 bytes long')

# ------------------------------------------------------------------ C03
def writer_types(rep, p):
    """Type byte each writer puts first: {kind: value}."""
    pk = pkz_rec(p)
    types = {}
    for kind in ('ack', 'repair', 'source'):
        for d in methods(p, pk, 'write_' + kind, 1):
            I = Interp(p, Checker())
            vals = set()
            for s, o in instance(I, State(), pk):
                s.alloc('root', None, {'obj': o})
                a = I.symbolic(s, p.decls[d]['params'][0]['t'], kind)
                s.alloc('root', None, {'obj': a})
                for s2, _ in I.call(s, d, o, [a], None):
                    w = [e for e in s2.events() if e[0] == 'write']
                    if not w: vals.add(None); continue
                    ch = w[0][1]
                    vals.add(ch[1].c if ch[0] == 'scalar' and isinstance(ch[1], Lin) and ch[1].is_const() and ch[2] == ONE else None)
            where = p.loc(p.decls[d]['l'])
            if len(vals) == 1 and None not in vals: types[kind] = vals.pop()
            rep.ob('writer-type-byte', 'write_%s starts with one constant type byte' % kind, where, kind in types or None)
    if len(types) < 3: raise Missing('type byte of a writer')
    rep.ob('type-bytes-distinct', 'the three kinds of packets have different type bytes', p.loc(p.decls[method(p, pk, 'write_ack')]['l']), len(set(types.values())) == 3, [types])
    return types

class Route(Wire):
    def on_call(self, I, st, d, dd, this, args, ast):
        r = Wire.on_call(self, I, st, d, dd, this, args, ast)
        if r is not None: return r
        if dd.get('rec') is not None and I.p.records[dd['rec']]['q'] == 'ntc::detail::packetizer':
            for n, k in READERS:
                if dd['n'] == n:
                    # what the reader does is the subject of other properties
                    st.emit('reader', k, I.p.loc(ast['l']) if ast else '?')
                    s2 = st.copy()
                    s2.exc = ('ntc::overflow_error', None, dd['l'])
                    return [(st, I.symbolic(st, dd['ret'], k)), (s2, None)]
        return None
    def begin(self, I, st, b, sh, roots):
        self.byte = I.lib.read_bytes(st, b, const(sh), 1)
        st.ghost['byte'] = self.byte
        self.size = st.get(b, 'size')

def routing(rep, cache):
    p = program(cache)
    types = writer_types(rep, p)
    CORE = {'repair': 'ntc::detail::decoder_repair', 'source': 'ntc::detail::decoder_source'}
    n = [0]
    for label, run, kinds, where in endpoints(p):
        def scenario(I, c, run=run, label=label, kinds=kinds, where=where):
            seen = set()
            for s, v, b, sh, roots in run(I):
                n[0] += 1
                evs = s.events()
                readers = [e[1] for e in evs if e[0] == 'reader']
                cores = [e[1] for e in evs if e[0] == 'core']
                exc = exc_name(p, s)
                x = s.copy()
                nonempty = x.assume(c.size - sh - 1)
                for k, t in types.items():
                    y = x.copy()
                    if not (nonempty and y.assume_eq(c.byte, const(t))): continue
                    if k in kinds:
                        ok = readers == [k]
                        c.ob(s, 'type-to-reader', '%s: a packet of type %s is read as one' % (label, k), where, ok, ['readers %s, leaves with %s' % (readers, exc)])
                        if exc is None and ok:
                            seen.add(k)
                            want = [CORE[k]] if k in CORE else []
                            c.ob(s, 'reader-to-core', '%s: an accepted %s reaches the coder once' % (label, k), where, cores == want, [cores])
                    else:
                        c.ob(s, 'foreign-type-rejected', '%s: a packet of type %s is rejected with packet_type_error' % (label, k), where,
                             exc == 'ntc::packet_type_error' and not readers and not cores, ['readers %s, leaves with %s' % (readers, exc)])
                y = x.copy()
                if nonempty and all(y.assume_neq(c.byte, const(t)) for t in types.values()) and feasible_neq(y, c.byte, types.values()):
                    c.ob(s, 'unknown-type-rejected', '%s: an unknown type byte is rejected with packet_type_error' % label, where,
                         exc == 'ntc::packet_type_error' and not readers and not cores, ['readers %s, leaves with %s' % (readers, exc)])
                y = s.copy()
                if y.assume(const(sh) - c.size):
                    c.ob(s, 'empty-rejected', '%s: an empty packet is rejected with packet_type_error' % label, where, exc == 'ntc::packet_type_error', [exc])
            for k in kinds:
                c.ob(None, 'kind-accepted', '%s: some packet of type %s is accepted' % (label, k), where, True if k in seen else None)
        decide(rep, p, Route, scenario)
    rep.count('paths through the entry points', n[0])

def feasible_neq(st, byte, vals):
    """Is some value outside vals possible for byte?"""
    vs = sorted(set(vals))
    lo = 0
    for v in vs + [256]:
        if lo <= v - 1:
            y = st.copy()
            if y.assume(byte - lo) and y.assume(const(v - 1) - byte): return True
        lo = v + 1
    return False

# ------------------------------------------------------------------ C04
def id_list_rec(p):
    a = rec(p, 'ntc::detail::ack')
    d = method(p, a, 'source_ids', 0)
    r = p.rec_of(p.decls[d]['ret'])
    if r is None: raise Missing('type of a list of identifiers')
    return r

def list_codec(p):
    """(writers, readers) of identifier lists among the packetizer's methods, by signature."""
    pk = pkz_rec(p)
    lr = id_list_rec(p)
    ws, rs = set(), set()
    for d in p.funcs:
        dd = p.decls[d]
        if dd.get('rec') != pk or 'body' not in p.funcs[d]: continue
        if dd['n'] in ('write_ack', 'write_repair', 'write_source', 'read_ack', 'read_repair', 'read_source'): continue
        if len(dd['params']) == 1 and p.rec_of(dd['params'][0]['t']) == lr and p.types[dd['ret']].get('k') == 'void': ws.add(d)
        if p.types[dd['ret']].get('k') == 'rec' and p.rec_of(dd['ret']) == lr and len(dd['params']) == 2: rs.add(d)
    return ws, rs

class Codec(Checker):
    """Writer and reader composed; identifier lists are opaque pieces."""
    def __init__(self):
        Checker.__init__(self)
        self.ws = self.rs = ()
    def on_call(self, I, st, d, dd, this, args, ast):
        if d in self.ws:
            ln = fresh('ids.len', 2, 1 << 30)
            v = I.lib.val(st, args[0])
            st.emit('write', ('ids', v, ln), I.p.loc(ast['l']))
            return [(st, NULL)]
        if d in self.rs:
            cur, left = args
            ptr = I.load(st, cur) if isinstance(cur, Loc) else cur
            mx = I.load(st, left) if isinstance(left, Loc) else left
            where = I.p.loc(ast['l'])
            if not (isinstance(cur, Loc) and isinstance(left, Loc) and isinstance(ptr, Ptr) and isinstance(mx, Lin)):
                I.note_unsupported(st, 'cursor of the identifier list reader', ast)
                return [(st, I.symbolic(st, dd['ret'], 'ids'))]
            seg = None
            for o, ln, v in st.get(ptr.b, 'segs') or ():
                if isinstance(v, tuple) and v[0] == 'ids' and st.eq(o, ptr.off) is True: seg = (o, ln, v)
            self.ob(st, 'list-where-written', 'identifiers are read where they were written', where, seg is not None, ['read at %r' % ptr.off])
            if seg is None: return [(st, I.symbolic(st, dd['ret'], 'ids'))]
            self.ob(st, 'list-fits', 'identifiers of a well-formed packet fit in what is left of it', where, st.entails(mx - seg[1]), ['left %r, needed %r' % (mx, seg[1])])
            I.store(st, cur, Ptr(ptr.b, ptr.off + seg[1]), ast)
            I.store(st, left, mx - seg[1], ast)
            r = I.symbolic(st, dd['ret'], 'ids')
            st.set(r.o, 'same', seg[2][1])
            return [(st, r)]
        return None

FIELDS = {'ack': (('nb_packets', 'nb_packets'),), 'repair': (('id', 'id'), ('encoded_size', 'encoded_size')), 'source': (('id', 'id'),)}

def layout(rep, cache):
    p = program(cache)
    pk = pkz_rec(p)
    ws, rs = list_codec(p)
    for kind in ('source', 'repair', 'ack'):
        wd = method(p, pk, 'write_' + kind, 1)
        rd = method(p, pk, 'read_' + kind, 1)
        wloc, rloc = p.loc(p.decls[wd]['l']), p.loc(p.decls[rd]['l'])
        lists = kind != 'source'
        def make():
            c = Codec()
            if ws and rs: c.ws, c.rs = ws, rs
            return c
        def scenario(I, c, kind=kind, wd=wd, rd=rd, wloc=wloc, rloc=rloc):
            for s, o in instance(I, State(), pk):
                s.alloc('root', None, {'obj': o})
                a = I.symbolic(s, p.decls[wd]['params'][0]['t'], kind)
                s.alloc('root', None, {'obj': a})
                sym = None
                if kind != 'ack':
                    symv = accessor(I, s, a.o, 'symbol')
                    sym = I.lib.buf_of(s, symv)
                    s.assume(const(65535) - s.get(sym, 'size'))
                gen = s.get(sym, 'gen') if sym is not None else None
                want = {w: accessor(I, s, a.o, w) for w, _ in FIELDS[kind]}
                ids = accessor(I, s, a.o, 'source_ids') if kind != 'source' else None
                s.trace = None
                for s2, _ in I.call(s, wd, o, [a], None):
                    evs = [e for e in s2.events() if e[0] in ('write', 'end', 'loop')]
                    loops = [e for e in evs if e[0] == 'loop' and any(x[0] in ('write', 'end') for b in e[1].bodies for x in b[1])]
                    c.ob(s2, 'writer-returns', 'write_%s returns' % kind, wloc, s2.exc is None, [exc_name(p, s2)])
                    if s2.exc: continue
                    evs = [e for e in evs if e[0] != 'loop']
                    ends = [i for i, e in enumerate(evs) if e[0] == 'end']
                    c.ob(s2, 'one-end-marker', 'write_%s marks the end once, after the last byte' % kind, wloc, ends == [len(evs) - 1], [[e[0] for e in evs]])
                    if loops:
                        c.ob(s2, 'layout-known', 'layout of %s packets' % kind, wloc, None, ['pieces written in a loop'])
                        continue
                    segs = []
                    off = const(packet_shift(p))
                    ok = True
                    for e in evs:
                        if e[0] != 'write': continue
                        ch = e[1]
                        if ch[0] == 'scalar':
                            if ch[2].is_const() and ch[2].c == ch[3] and ch[4] == ZERO: v = ch[1]
                            else: v = ('part',)
                            ln = ch[2]
                        elif ch[0] == 'bytes': v, ln = ('bytes',) + tuple(ch[1:4]), ch[4]
                        elif ch[0] == 'ids': v, ln = ('ids', ch[1]), ch[2]
                        else: ok = False; break
                        segs.append((off, ln, v))
                        off = off + ln
                    if not ok:
                        c.ob(s2, 'layout-known', 'layout of %s packets' % kind, wloc, None); continue
                    check_header(c, s2, kind, segs, sym, gen, wloc, p)
                    s3 = s2.copy()
                    s3.trace = None
                    pkt, b, sh = a_packet(I, s3)
                    extra = fresh('rest', 0, 1 << 20)
                    total = off - sh
                    s3.update(b, size=off + extra, segs=tuple(segs))
                    for s4, r in I.call(s3, rd, o, [pkt], None):
                        e = exc_name(p, s4)
                        c.ob(s4, 'well-formed-accepted', 'read_%s accepts what write_%s wrote, whatever follows it' % (kind, kind), rloc, e is None, [e])
                        if e is not None or not isinstance(r, ObjRef): continue
                        n = s4.get(r.o, 'second')
                        c.ob(s4, 'consumed-is-written', 'read_%s consumes exactly the bytes write_%s wrote' % (kind, kind), rloc,
                             isinstance(n, Lin) and s4.eq(n, total) is True, ['consumed %r, written %r' % (n, total)])
                        x = s4.get(r.o, 'first')
                        for w, g in FIELDS[kind]:
                            got = accessor(I, s4, x.o, g)
                            c.ob(s4, 'field-round-trip', '%s of a %s survives the network' % (w, kind), rloc,
                                 isinstance(got, Lin) and s4.eq(got, want[w]) is True, ['read %r, written %r' % (got, want[w])])
                        if kind != 'source':
                            got = accessor(I, s4, x.o, 'source_ids')
                            same = s4.get(got.o, 'same') if isinstance(got, ObjRef) else None
                            c.ob(s4, 'list-round-trip', 'source identifiers of a %s are the ones written' % kind, rloc, same == ids if same is not None else None)
                        if kind != 'ack':
                            ptr, ln = symbol_of(I, s4, x)
                            hit = [sg for sg in segs if isinstance(sg[2], tuple) and sg[2][0] == 'bytes' and sg[2][1] == sym]
                            good = bool(hit) and isinstance(ptr, Ptr) and s4.eq(ptr.off, hit[0][0]) is True and s4.eq(ln, hit[0][1]) is True
                            c.ob(s4, 'symbol-round-trip', 'symbol of a %s is the one written' % kind, rloc, good, ['symbol read at %r, length %r' % (getattr(ptr, 'off', None), ln)])
        decide(rep, p, make, scenario, kind + ': ')
    rep.assume('data of at most 65535 bytes (the width of the size field)')

def check_header(c, st, kind, segs, sym, gen, where, p):
    """Documented layout: type, then for sources and repairs identifier (4) and symbol size (2), then the whole symbol; big-endian."""
    sh = packet_shift(p)
    def tag(v):
        q = v.sym() if isinstance(v, Lin) else None
        return SYMS[q].tag if q is not None else None
    for o, ln, v in segs:
        if isinstance(v, Lin) and ln.is_const() and ln.c > 1 and not v.is_const():
            t = tag(v)
            c.ob(st, 'big-endian', 'integers of %s packets are written in network byte order' % kind, where, isinstance(t, tuple) and t[0] == 'bswap' and t[1] == 8 * ln.c, [repr(v)])
    if kind == 'ack': return
    i = [k for k, sg in enumerate(segs) if isinstance(sg[2], tuple) and sg[2][0] == 'bytes' and sg[2][1] == sym]
    c.ob(st, 'symbol-written-once', 'the symbol of a %s is written once' % kind, where, len(i) == 1, ['written %d times' % len(i)])
    if len(i) != 1: return
    o, ln, v = segs[i[0]]
    c.ob(st, 'symbol-offset', 'the symbol of a %s follows a header of 7 bytes' % kind, where, st.eq(o, const(sh + 7)) is True, ['offset %r' % (o - sh)])
    c.ob(st, 'symbol-whole', 'the symbol of a %s is written whole' % kind, where,
         v[2] == gen and v[3] == ZERO and st.eq(ln, st.get(sym, 'size')) is True, ['%r bytes of %r' % (ln, st.get(sym, 'size'))])

# ------------------------------------------------------------------ C05
class RleWriter(Checker):
    """Witness element K of the list of differences; counts of what is encoded and sent."""
    def begin(self, I, st, ids):
        self.n = st.get(ids, 'size')
        self.ids = ids
        st.ghost.update(np=0, enc=ZERO, sent=ZERO, phase=0, n=self.n)
    def cell(self, I, st, b, off):
        first = st.eq(off, ZERO)
        lo, hi = (1, 65535) if st.entails(off - 1) else (0, (1 << 32) - 1)
        return memo(('D', off), 'diff', lo, hi)
    def rle(self, I, st, b, off):
        t = I.p.rec_of(st.get(b, 'et'))
        o = st.alloc('pair', t, {'first': memo(('rle1', off), 'run', 1, 255), 'second': memo(('rle2', off), 'val', 1, 65535)})
        return ObjRef(o)
    def is_k(self, st, off):
        K, ev = st.ghost['K'], st.ghost.get('eqV')
        if st.eq(off, K) is True: return True
        return ev is not None and (st.eq(off, ev) is True or st.eq(memo(('D', off), 'diff', 1, 65535), memo(('D', ev), 'diff', 1, 65535)) is True)
    def is_v(self, st, v):
        q = v.sym()
        if q is not None and isinstance(SYMS[q].tag, tuple) and SYMS[q].tag[0] == 'D' and self.is_k(st, SYMS[q].tag[1]): return True
        for o in (st.ghost['K'], st.ghost.get('eqV')):
            if o is not None and st.eq(v, memo(('D', o), 'diff', 1, 65535)) is True: return True
        for q in set(q for f in st.facts for q, _ in f.t):
            t = SYMS[q].tag
            if isinstance(t, tuple) and t[0] == 'D' and self.is_k(st, t[1]) and st.eq(v, Lin(((q, 1),), 0)) is True: return True
        return False
    def split_head(self, I, st):
        if 'K' not in st.ghost: return [st]
        K = st.ghost['K']
        D = st.ghost['D'].o
        offs = []
        for o, ob in st.heap.items():
            if ob.kind != 'frame': continue
            for v in ob.f.values():
                if isinstance(v, Ptr) and v.b == D and v.off not in offs and st.eq(v.off, st.get(D, 'size')) is not True: offs.append(v.off)
        out = []
        for s, done in I.cmp(st, '<=', K, st.ghost['enc']):
            if done:
                s.ghost['eqV'] = None; s.ghost['krel'] = 'done'; out.append(s); continue
            todo = [(s, ())]
            for o in offs:
                nt = []
                for s1, r in todo:
                    for s2, b in I.cmp(s1, '<=', K, o):
                        if not b: nt.append((s2, r + (False,)))
                        else: nt += [(s3, r + (True,)) for s3, _ in I.cmp(s2, '==', K, o)]
                todo = nt
            for s1, r in todo:
                new = None
                for o, b in zip(offs, r):
                    if b and self.is_k(s1, o): new = o; break
                s1.ghost['eqV'] = new; s1.ghost['krel'] = str(r) + ('e' if new is not None else '')
                out.append(s1)
        return out
    def on_event(self, I, st, kind, *a):
        if kind == 'bulk' and a[0] == 'adjacent_difference':
            n, x, y, dst, ast = a
            if not (isinstance(x, It) and isinstance(dst, Ins)): return
            b = I.lib.buf_of(st, dst.o)
            whole = x.c == self.ids and I.lib.is_first(st, x) and isinstance(y, It) and y.c == self.ids and y.e is None
            self.ob(st, 'differences-of-whole-list', 'the differences encoded are those of the whole list', where_of(I, ast), bool(whole))
            self.ob(st, 'differences-start-empty', 'nothing is left of an earlier list in front of the differences', where_of(I, ast), st.eq(st.get(b, 'size'), ZERO) is True)
            st.set(b, 'summary', self.cell)
            st.ghost['D'] = ObjRef(b)
            K = fresh('K', 1, 65535)
            st.ghost['K'] = K
            st.ghost['hasK'] = 1
            # a witness exists only when the list has at least two elements: assumed where used
        elif kind == 'push':
            b, x, ast = a
            if not (isinstance(x, ObjRef) and x.o in st.heap and st.heap[x.o].kind == 'pair') or 'K' not in st.ghost: return
            rl, v = st.get(x.o, 'first'), st.get(x.o, 'second')
            where = where_of(I, ast)
            if not (isinstance(rl, Lin) and isinstance(v, Lin)): self.ob(st, 'runs-understood', 'runs', where, None); return
            if 'R' not in st.ghost:
                st.ghost['R'] = ObjRef(b)
                st.set(b, 'summary', self.rle)
                self.ob(st, 'runs-start-empty', 'nothing is left of an earlier list in front of the runs', where, st.eq(st.get(b, 'size'), ONE) is True)
            enc = st.ghost['enc']
            self.ob(st, 'run-length-in-range', 'a run length is between 1 and 255', where, st.entails(rl - 1) and st.entails(const(255) - rl), ['run length %r' % rl])
            y = st.copy()
            if y.assume(y.ghost['K'] - enc - 1) and y.assume(enc + rl - y.ghost['K']) and y.assume(self.n - 1 - y.ghost['K']):
                q = v.sym()
                t = SYMS[q].tag if q is not None else None
                if rl.is_const() and rl.c <= 8: cases = [enc + i for i in range(1, rl.c + 1)]
                elif isinstance(t, tuple) and t[0] == 'D': cases = [t[1], None]
                else: cases = [None]
                ok = True
                for k in cases:
                    z = y.copy()
                    if k is not None and not z.assume_eq(z.ghost['K'], k): continue
                    if k is None and len(cases) > 1 and not z.assume_neq(z.ghost['K'], cases[0]): continue
                    ok = ok and self.is_v(z, v)
                self.ob(st, 'run-holds-equal-values', 'a run stands for equal differences only', where, ok, ['run of %r times %r after %r elements' % (rl, v, enc)])
            st.ghost['enc'] = enc + rl
        elif kind in ('inc_wrap', 'narrow') and 'D' in st.ghost and st.ghost['np'] <= 3:
            old, new, ast = a
            ty = I.p.types[I.p.strip(ast['t'])] if 't' in ast else {}
            if kind == 'inc_wrap' and ty.get('bits') == 8 or kind == 'narrow' and ty.get('bits') == 8:
                self.ob(st, 'run-length-never-wraps', 'a run length never exceeds what its byte can hold', where_of(I, ast), False, ['%r becomes %r' % (old, new)], True)
        elif kind == 'sink':
            what, args, ast = a
            where = where_of(I, ast)
            g = st.ghost
            if what == 'end':
                m = st.get(g['R'].o, 'size') if 'R' in g else ZERO
                y = st.copy()
                if y.eq(self.n, ZERO) is True: 
                    self.ob(st, 'empty-list-is-zero', 'an empty list is written as a zero count', where, g['np'] == 3 and st.eq(g['count'], ZERO) is True, [g['np'], g.get('count')])
                    return
                if g['np'] < 4: self.ob(st, 'first-identifier-sent', 'the first identifier is written', where, False, [g['np']]); return
                self.ob(st, 'count-is-runs', 'the count written is the number of runs plus one', where, st.eq(g['count'], m + 1) is True, ['count %r, runs %r' % (g['count'], m)])
                self.ob(st, 'all-encoded', 'every identifier after the first is encoded once', where, st.eq(g['enc'], self.n - 1) is True, ['encoded %r of %r' % (g['enc'], self.n - 1)])
                self.ob(st, 'all-sent', 'every run is written once, in order', where, st.eq(g['sent'], m) is True and g['phase'] == 0, ['sent %r of %r' % (g['sent'], m)])
                return
            ch = I.lib.chunk(st, args[0], args[1], ast)
            if ch[0] != 'scalar' or not isinstance(ch[1], Lin) or not ch[2].is_const():
                if st.imprecise is None: st.imprecise = 'piece of a list written in bulk'
                return
            v, n = ch[1], ch[2].c
            q = v.sym()
            t = SYMS[q].tag if q is not None else None
            if isinstance(t, tuple) and t[0] == 'bswap': v = t[2]; q = v.sym(); t = SYMS[q].tag if q is not None else None
            np = g['np']
            if np < 2: g['np'] = np + 1
            elif np == 2:
                g['np'] = 3; g['count'] = v
                self.ob(st, 'count-width', 'the count takes 2 bytes', where, n == 2, [n])
            elif np == 3:
                g['np'] = 4
                ok = n == 4 and self.first(I, st, v)
                self.ob(st, 'first-identifier', 'the first identifier is written whole', where, ok, ['%d bytes, %r' % (n, v)])
            else:
                ph = g['phase']
                want = ('rle1', 1) if ph == 0 else ('rle2', 2)
                ok = isinstance(t, tuple) and t[0] == want[0] and n == want[1] and st.eq(t[1], g['sent']) is True
                if not (isinstance(t, tuple) and t[0] in ('rle1', 'rle2')): ok = None
                self.ob(st, 'runs-sent-in-order', 'run %s is written next' % ('length' if ph == 0 else 'value'), where, ok, ['%d bytes, %r, %r runs sent' % (n, t, g['sent'])])
                g['phase'] = 1 - ph
                if ph == 1: g['sent'] = g['sent'] + 1
    def first(self, I, st, v):
        q = v.sym()
        t = SYMS[q].tag if q is not None else None
        if isinstance(t, tuple) and t[0] == 'D': return st.eq(t[1], ZERO) is True
        for e in st.get(self.ids, 'ents'):
            if st.eq(st.get(e, 'key'), v) is True and I.lib.is_first(st, It(self.ids, e)): return True
        return False

class RleReader(Checker):
    def begin(self, I, st, b, sh):
        self.b = b
        st.ghost.update(np=0, pos=const(sh), got=ZERO, exp=ZERO, pairs=ZERO, phase=0)
    def val(self, I, st, off, n):
        c = I.lib.read_bytes(st, self.b, off, n)
        return c if n == 1 else memo(('bswap', 8 * n, c), 'be', 0, (1 << (8 * n)) - 1)
    def on_event(self, I, st, kind, *a):
        g = st.ghost
        if 'np' not in g: return
        if kind == 'bounds' and a[0] in st.heap and st.get(a[0], 'packet'):
            b, off, n, mode, ok, ast = a
            where = where_of(I, ast)
            if not (isinstance(n, Lin) and n.is_const() and isinstance(off, Lin)):
                if st.imprecise is None: st.imprecise = 'bulk read of a list'
                return
            n = n.c
            self.ob(st, 'reads-contiguous', 'the pieces of a list are read one after the other', where, st.eq(off, g['pos']) is True, ['read at %r, expected %r' % (off, g['pos'])])
            g['pos'] = off + n
            np = g['np']
            if np < 2: g['np'] = np + 1
            elif np == 2:
                g['np'] = 3; g['count'] = self.val(I, st, off, n)
                self.ob(st, 'count-width', 'the count takes 2 bytes', where, n == 2, [n])
            elif np == 3:
                g['np'] = 4; g['first'] = self.val(I, st, off, n)
                self.ob(st, 'first-width', 'the first identifier takes 4 bytes', where, n == 4, [n])
            else:
                ph = g['phase']
                self.ob(st, 'run-width', 'a run takes 1 byte of length and 2 of value', where, n == (1, 2)[ph], [n])
                if ph == 0:
                    self.ob(st, 'run-expanded', 'a run is expanded as many times as its length', where, st.eq(g['got'], g['exp']) is True, ['%r of %r' % (g['got'], g['exp'])])
                    g['exp'] = g['exp'] + self.val(I, st, off, n)
                else:
                    g['value'] = self.val(I, st, off, n)
                    g['pairs'] = g['pairs'] + 1
                g['phase'] = 1 - ph
        elif kind == 'vec_clear': pass
        elif kind == 'push':
            b, x, ast = a
            where = where_of(I, ast)
            if not isinstance(x, Lin): return
            if 'D' not in g:
                g['D'] = ObjRef(b)
                self.ob(st, 'expansion-starts-empty', 'nothing is left of an earlier list', where, st.eq(st.get(b, 'size'), ONE) is True)
                self.ob(st, 'expansion-starts-with-first', 'the first identifier comes first', where, 'first' in g and st.eq(x, g['first']) is True, [x, g.get('first')])
                return
            if b != g['D'].o: return
            g['got'] = g['got'] + 1
            self.ob(st, 'expanded-value', 'what a run is expanded to is its value', where, 'value' in g and st.eq(x, g['value']) is True, [x, g.get('value')])
        elif kind == 'bulk' and a[0] == 'partial_sum':
            n, x, y, dst, ast = a
            where = where_of(I, ast)
            if not (isinstance(x, Ptr) and isinstance(y, Ptr) and 'D' in g and x.b == g['D'].o):
                if st.imprecise is None: st.imprecise = 'sums not understood'
                return
            g['summed'] = 1
            self.ob(st, 'sum-of-everything', 'identifiers are the sums of all the differences', where, st.eq(x.off, ZERO) is True and st.eq(y.off, st.get(x.b, 'size')) is True)
            self.ob(st, 'run-expanded', 'a run is expanded as many times as its length', where, st.eq(g['got'], g['exp']) is True, ['%r of %r' % (g['got'], g['exp'])])
            self.ob(st, 'all-runs-read', 'as many runs are read as announced', where, st.eq(g['pairs'] + 1, g['count']) is True and g['phase'] == 0, ['%r, announced %r' % (g['pairs'], g['count'])])
            if isinstance(dst, Ins) and isinstance(dst.o, ObjRef): g['into'] = dst.o

def id_lists(rep, cache):
    p = program(cache)
    pk = pkz_rec(p)
    wd = method(p, pk, 'write_ack', 1)
    def writer(I, c):
        for s, o in instance(I, State(), pk):
            s.alloc('root', None, {'obj': o})
            a = I.symbolic(s, p.decls[wd]['params'][0]['t'], 'ack')
            s.alloc('root', None, {'obj': a})
            ids = accessor(I, s, a.o, 'source_ids')
            s.assume(const(65535) - s.get(ids.o, 'size'))
            c.begin(I, s, ids.o)
            ends = 0
            for s2, _ in I.call(s, wd, o, [a], None):
                ends += 'R' in s2.ghost
            c.ob(None, 'list-writer-understood', 'the run-length encoder is recognised', p.loc(p.decls[wd]['l']), True if ends else None)
    decide(rep, p, RleWriter, writer, 'write: ')
    rd = method(p, pk, 'read_ack', 1)
    def reader(I, c):
        for s, o in instance(I, State(), pk):
            s.alloc('root', None, {'obj': o})
            pkt, b, sh = a_packet(I, s)
            s.alloc('root', None, {'obj': pkt})
            c.begin(I, s, b, sh)
            seen = 0
            for s2, r in I.call(s, rd, o, [pkt], None):
                if s2.exc or not isinstance(r, ObjRef): continue
                where = p.loc(p.decls[rd]['l'])
                got = accessor(I, s2, s2.get(r.o, 'first').o, 'source_ids')
                g = s2.ghost
                if 'count' not in g: continue
                if 'summed' in g: seen += 1
                elif s2.eq(s2.get(got.o, 'size'), ZERO) is True:
                    c.ob(s2, 'zero-is-empty-list', 'only a zero count is read as an empty list', where, s2.eq(g['count'], ZERO) is True, [g['count']])
                if s2.eq(g['count'], ZERO) is True:
                    c.ob(s2, 'zero-is-empty-list', 'a zero count is read as an empty list', where, s2.eq(s2.get(got.o, 'size'), ZERO) is True)
                c.ob(s2, 'consumed-all-pieces', 'a list ends after its last piece', where, s2.eq(s2.get(r.o, 'second') + packet_shift(p), g['pos']) is True, [s2.get(r.o, 'second'), g['pos']])
            c.ob(None, 'list-reader-understood', 'the run-length decoder is recognised', p.loc(p.decls[rd]['l']), True if seen else None)
    decide(rep, p, RleReader, reader, 'read: ')
    rep.assume('lists of at most 65535 identifiers whose gaps fit in 16 bits (limit of the format, see DESIGN.md)',
               'std::adjacent_difference and std::partial_sum are inverse of each other')

# ------------------------------------------------------------------ C06
MUTATIONS = ('insert', 'erase', 'erase_range', 'insert_range', 'list_push', 'clear', 'cont_move', 'vec_clear', 'resize', 'push', 'elem_store', 'opt_set')

class Rejected(Wire):
    """Remembers the state before a packet is read and which containers change."""
    def begin(self, I, st, b, sh, roots):
        self.before = st.copy()
        st.ghost['touched'] = ''
        st.ghost['said'] = ''
    def on_event(self, I, st, kind, *a):
        if 'touched' not in st.ghost: return
        if kind in MUTATIONS and a and isinstance(a[0], int):
            if a[0] in self.before.heap and ',%d,' % a[0] not in st.ghost['touched']: st.ghost['touched'] += ',%d,' % a[0]
        elif kind == 'sink': st.ghost['said'] = where_of(I, a[-1])
        elif kind == 'callback': st.ghost['said'] = where_of(I, a[-1])

COUNTERS = ('nb_received_acks', 'nb_received_repairs', 'nb_received_sources', 'nb_packets')

def counters(I, st, o, seen=None):
    """Terms of the counters of received packets, found through their accessors."""
    seen = seen if seen is not None else set()
    out = []
    if o in seen or o not in st.heap: return out
    seen.add(o)
    ob = st.heap[o]
    if ob.kind != 'rec' or ob.t is None: return out
    for n in COUNTERS:
        if methods(I.p, ob.t, n, 0):
            v = accessor(I, st.copy(), o, n)
            if isinstance(v, Lin): out.append(v)
    for f in I.fields_of(ob.t):
        v = st.get(o, f['n'])
        if isinstance(v, ObjRef): out += counters(I, st, v.o, seen)
    return out

def differences(I, a, b, o, exempt, path, out, seen):
    """Fields of object o that are not the same in states a (before) and b (after)."""
    if o in seen: return
    seen.add(o)
    x, y = a.heap.get(o), b.heap.get(o)
    if x is None: return
    if y is None: out.append((path, 'destroyed', True)); return
    if x.kind == 'rec' and x.t is not None:
        if I.p.records[x.t]['q'] == 'ntc::detail::packetizer': return
        for f in I.fields_of(x.t):
            v, w = x.f.get(f['n']), y.f.get(f['n'])
            name = path + '.' + f['n']
            if isinstance(v, ObjRef):
                if I.ty(f['t']).get('k') == 'ref': continue
                if v != w: out.append((name, 'replaced', True)); continue
                differences(I, a, b, v.o, exempt, name, out, seen)
            elif isinstance(v, Lin):
                if v in exempt: continue
                r = b.eq(v, w) if isinstance(w, Lin) else None
                if r is not True: out.append((name, '%r becomes %r' % (v, w), r is False or None if not isinstance(w, Lin) else True))
            elif v is not w and v != w and not isinstance(v, Flo): out.append((name, 'changed', None))
    elif x.kind in ('map', 'set', 'list', 'vec', 'opt'):
        if ',%d,' % o in b.ghost['touched']: out.append((path, 'modified', True)); return
        if x.kind == 'vec':
            bu = I.lib.buf_of(a, ObjRef(o))
            if bu in b.heap and (a.get(bu, 'gen') != b.get(bu, 'gen') or ',%d,' % bu in b.ghost['touched']): out.append((path, 'modified', True))
        elif isinstance(x.f.get('size'), Lin) and b.eq(x.f['size'], y.f.get('size')) is not True: out.append((path, 'size changes', True))

def rejection(rep, cache):
    p = program(cache)
    n = [0]
    for label, run, kinds, where in endpoints(p):
        def scenario(I, c, run=run, label=label, where=where):
            got = set()
            for s, v, b, sh, roots in run(I):
                e = exc_name(p, s)
                if e is None: continue
                n[0] += 1
                got.add(e)
                c.ob(s, 'rejected-reaches-no-coder', '%s: a packet rejected with %s is not given to the coder' % (label, e), where,
                     not [x for x in s.events() if x[0] == 'core'])
                c.ob(s, 'rejected-emits-nothing', '%s: a packet rejected with %s makes no handler called' % (label, e), where, not s.ghost['said'], [s.ghost['said']])
                for r in roots:
                    ex = set(counters(I, c.before, r.o))
                    out = []
                    differences(I, c.before, s, r.o, ex, I.p.records[s.heap[r.o].t]['q'], out, set())
                    hard = [(a, w) for a, w, k in out if k]
                    soft = [(a, w) for a, w, k in out if not k]
                    c.ob(s, 'rejected-changes-nothing', '%s: a packet rejected with %s leaves the state as it was' % (label, e), where,
                         False if hard else None if soft else True, ['%s: %s' % x for x in hard + soft])
            c.ob(None, 'rejections-seen', '%s rejects some packets' % label, where, True if got else None)
        decide(rep, p, Rejected, scenario)
    rep.count('rejecting paths', n[0])
    rep.assume('counters of received packets and the scratch buffers used while reading are not part of the coding state')
