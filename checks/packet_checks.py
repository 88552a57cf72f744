"""The packet container: what every operation leaves, byte by byte."""
from common import *
from session import *
from wire_checks import where_of

class Bytes(Checker):
    loops = 0
    def on_event(self, I, st, kind, *a):
        if kind == 'resize' and a[0] in st.heap: st.emit('W', 'resize', I.lib.buf_of(st, ObjRef(a[0])), a[1], a[2], a[3][0] if a[3] else None)
        elif kind == 'push': st.emit('W', 'set', a[0], st.get(a[0], 'size') - 1, a[1])
        elif kind == 'elem_store': st.emit('W', 'set', a[0], a[1], a[2])
        elif kind in ('vec_ctor', 'vec_assign') and len(a[1]) > 1: st.emit('W', 'resize', I.lib.buf_of(st, ObjRef(a[0])), ZERO, a[1][0], a[1][1])
        elif kind == 'vec_clear': st.emit('W', 'resize', I.lib.buf_of(st, ObjRef(a[0])), st.get(I.lib.buf_of(st, ObjRef(a[0])), 'size'), ZERO, None)
        elif kind == 'bounds':
            b = a[0]
            if isinstance(b, int): self.ob(st, 'inside', 'bytes are accessed inside the storage', where_of(I, a[5]), bool(a[4]), ['offset %r, %r bytes of %r' % (a[1], a[2], st.get(b, 'size'))])

def split(s, l):
    """(state where l >= 0 or None, state where l < 0 or None)"""
    if s.entails(l): return s, None
    if s.entails(-l - 1): return None, s
    y, n = s.copy(), s.copy()
    return (y if y.assume(l) else None), (n if n.assume(-l - 1) else None)

def value_at(s, b, off, evs):
    """What byte `off` of storage b is after events evs: [(state, value)]."""
    for i in range(len(evs) - 1, -1, -1):
        e = evs[i]
        if e[0] == 'copy' and isinstance(e[2], Ptr) and e[2].b == b or e[0] == 'fill' and isinstance(e[1], Ptr) and e[1].b == b:
            dst, n = (e[2], e[3]) if e[0] == 'copy' else (e[1], e[2])
            out = []
            a, r1 = split(s, off - dst.off)
            if r1 is not None: out += value_at(r1, b, off, evs[:i])
            if a is not None:
                a2, r2 = split(a, dst.off + n - off - 1)
                if r2 is not None: out += value_at(r2, b, off, evs[:i])
                if a2 is not None:
                    if e[0] == 'fill': out.append((a2, e[3]))
                    elif isinstance(e[1], Ptr): out += value_at(a2, e[1].b, e[1].off + off - dst.off, evs[:i])
                    else: out.append((a2, None))
            return out
        if e[0] == 'W' and e[2] == b:
            if e[1] == 'set':
                q = s.eq(off, e[3])
                if q is True: return [(s, e[4])]
                if q is None:
                    out = []
                    y = s.copy()
                    if y.assume(off - e[3]) and y.assume(e[3] - off): out.append((y, e[4]))
                    for d in (off - e[3] - 1, e[3] - off - 1):
                        n = s.copy()
                        if n.assume(d): out += value_at(n, b, off, evs[:i])
                    return out
            else:
                new, old = split(s, off - e[3])
                out = [] if old is None else value_at(old, b, off, evs[:i])
                if new is not None: out.append((new, e[5] if e[5] is not None else 'uninitialised'))
                return out
    c = s.get(b, 'copyof')
    if c is not None: return [(s, ('initial', c, off))]
    return [(s, ('initial', b, off))]

def cell(l):
    """Key of the byte a value was read from."""
    ks = getattr(l, 't', None)
    if not ks or len(ks) != 1 or l.c not in (0, 256, -256): return None
    k = SYMS[list(ks)[0] if not isinstance(ks, tuple) else ks[0][0]].tag
    return k if isinstance(k, tuple) and k[0] in ('cell', 'cells') else None

def unaligned(p, r, depth=0):
    """Is class r an allocator that gives the alignment of the standard one?"""
    q = p.records[r]['q']
    if q == 'std::allocator': return True
    if 'align' in q or depth > 4: return False
    own = [d for d in p.funcs if p.decls[d].get('rec') == r and p.decls[d]['n'] == 'allocate']
    return not own and any(unaligned(p, b, depth + 1) for b in p.records[r].get('bases') or [])

def packets(rep, cache):
    p = program(cache)
    rid = packet_rec(p)
    sh = packet_shift(p)
    ds = sorted((d for d in p.funcs if p.decls[d].get('rec') == rid and ('body' in p.funcs[d] or p.decls[d].get('ctor'))), key=lambda d: p.decls[d]['l'])
    rep.count('functions of the packet', len(ds))
    byname = {}
    for d in ds: byname.setdefault(p.decls[d]['n'], []).append(d)
    def given(I, s, d):
        """Arguments of a call, and what they denote: (args, count, value(state, i) or None)."""
        dd = p.decls[d]
        args, count, val = [], None, None
        ts = [p.types[p.strip(x['t'])] for x in dd['params']]
        if len(ts) == 2 and all(t.get('k') == 'ptr' for t in ts):
            n = fresh('n', 0, 1 << 30)
            b = s.alloc('buf', None, {'size': n, 'gen': IP.new_oid(), 'w': (), 'name': 'src', 'et': None})
            s.alloc('root', None, {'obj': ObjRef(b)})
            return [Ptr(b, ZERO), Ptr(b, n)], n, lambda i: ('initial', b, i)
        for x, t in zip(dd['params'], ts):
            k = I.kind_of(x['t'])
            v = I.symbolic(s, x['t'], x['n'] or 'arg')
            if k == 'vec':
                s.alloc('root', None, {'obj': v})
                b = I.lib.buf_of(s, v)
                s.assume(const(1 << 30) - s.get(b, 'size'))
                count, val = s.get(b, 'size'), lambda i, b=b: ('initial', b, i)
            elif k == 'int':
                s.assume(const(1 << 30) - v)
                if t.get('bits') == 8: val = lambda i, v=v: v
                else: count = v
            args.append(v)
        return args, count, val
    def same(s, got, want):
        if got is None or want is None: return None
        if isinstance(got, Lin) and isinstance(want, Lin): return s.eq(got, want) is True or (s.eq(got - 256, want) is True or s.eq(got + 256, want) is True)
        if isinstance(got, Lin) and isinstance(want, tuple):        # a byte that was read
            k = cell(got)
            if k is None: return None
            gens = {s.heap[b].f.get('gen'): b for b in s.heap if s.heap[b].kind == 'buf'}
            if k[1] not in gens: return None
            return gens[k[1]] == want[1] and s.eq(k[2], want[2]) is True
        if isinstance(got, tuple) and isinstance(want, tuple): return got[1] == want[1] and s.eq(got[2], want[2]) is True
        return False
    def fresh_packet(I, s, taken=False):
        v = I.symbolic(s, type_of(p, rid), 'p')
        s.alloc('root', None, {'obj': v})
        b = vec_field(I, s, v.o)
        n = s.get(b, 'size')
        s.assume(const(1 << 30) - n)
        if taken: s.assume(-n)
        else: s.assume(n - sh)
        return v, b, n - sh
    def contents(I, c, s, v, n, what, where, values):
        """The packet holds n bytes, byte i being values(i)."""
        b = vec_field(I, s, v.o)
        c.ob(s, 'size-after', what + ': number of bytes', where, s.eq(s.get(b, 'size'), n + sh) is True, ['%r bytes, expected %r' % (s.get(b, 'size') - sh, n)])
        if values is None: return
        w = s.copy()
        i = memo('witness index', 'i', 0, 1 << 31)
        if not w.assume(n - 1 - i): return
        evs = w.events()
        for s2, got in value_at(w, b, i + sh, evs):
            for s3, want in values(s2, i):
                y = s3
                ok = True if want is Ellipsis else same(y, got, want)
                if len(I.loops) > c.loops and ok is True: ok = None if I.unroll else False
                c.ob(y, 'bytes-after', what + ': every byte', where, ok, ['byte %r is %r, expected %r' % (i, got, want)])
    def observers(I, c):
        for name in ('size', 'empty', 'data', 'begin', 'cbegin', 'end', 'cend', 'operator[]', 'symbol'):
            for d in byname.get(name, []):
                dd = p.decls[d]
                where = p.loc(dd['l'])
                what = '%s()%s' % (name, ' const' if dd.get('const') else '')
                s = State(); frame(s)
                v, b, n = fresh_packet(I, s)
                args, i = [], None
                if name == 'operator[]':
                    i = I.symbolic(s, dd['params'][0]['t'], 'i')
                    if not s.assume(n - 1 - i): continue
                    args = [i]
                for s2, r in I.call(s, d, v, args, {'l': dd['l'], 't': dd['ret'], 'k': 'MCall'}):
                    if isinstance(r, Loc): r = I.load(s2, r)
                    if name == 'size': ok = isinstance(r, Lin) and s2.eq(r, n) is True
                    elif name == 'empty':
                        z = s2.entails(-n)
                        ok = isinstance(r, Lin) and (s2.eq(r, ONE) is True and z or s2.eq(r, ZERO) is True and s2.entails(n - 1))
                    elif name in ('data', 'begin', 'cbegin'): ok = isinstance(r, Ptr) and r.b == b and s2.eq(r.off, const(sh)) is True
                    elif name in ('end', 'cend'): ok = isinstance(r, Ptr) and r.b == b and s2.eq(r.off, n + sh) is True
                    elif name == 'symbol': ok = isinstance(r, Ptr) and r.b == b and r.off.is_const() and r.off.c % 16 == 0 and r.off.c == sh + 7
                    else: ok = isinstance(r, (Elem, Ptr)) and r.b == b and s2.eq(r.off, i + sh) is True
                    rule = 'symbol-aligned' if name == 'symbol' else 'observes-contents'
                    c.ob(s2, rule, what + (': seven bytes of header, then an aligned symbol' if name == 'symbol' else ': tells about exactly the bytes of the packet'), where, ok, [r, n])
                    evs = [e for e in s2.events() if e[0] == 'W']
                    c.ob(s2, 'observers-pure', what + ': changes nothing', where, not evs and s2.eq(s2.get(b, 'size'), n + sh) is True, evs[:3])
    decide(rep, p, Bytes, observers)
    def mutators(I, c):
        for taken in (False, True):
            for name in ('assign', 'clear', 'push_back', 'resize', 'reserve', 'shrink_to_fit'):
                if taken and name not in ('assign', 'clear', 'resize'): continue
                for d in byname.get(name, []):
                    dd = p.decls[d]
                    where = p.loc(dd['l'])
                    what = '%s(%s)%s' % (name, ', '.join(p.types[x['t']]['s'].replace('std::', '') for x in dd['params']), ' on a packet whose contents were taken' if taken else '')
                    s = State(); frame(s)
                    v, b, n = fresh_packet(I, s, taken)
                    args, count, val = given(I, s, d)
                    c.loops = len(I.loops)
                    old = lambda i, b=b: ('initial', b, i + sh)
                    for s2, r in I.call(s, d, v, args, {'l': dd['l'], 't': dd['ret'], 'k': 'MCall'}):
                        if s2.exc: continue
                        if name in ('reserve', 'shrink_to_fit'): m, f = n, lambda s, i: [(s, old(i))]
                        elif name == 'clear': m, f = ZERO, None
                        elif name == 'assign': m, f = count, lambda s, i: [(s, val(i))]
                        elif name == 'push_back':
                            m = n + 1
                            def f(s, i):
                                l, h = split(s, n - 1 - i)
                                return ([(l, old(i))] if l is not None else []) + ([(h, val(i))] if h is not None else [])
                        else:
                            m = count
                            def f(s, i):
                                if taken: return [(s, Ellipsis)]
                                l, h = split(s, n - 1 - i)
                                return ([(l, old(i))] if l is not None else []) + ([(h, val(i) if val else Ellipsis)] if h is not None else [])
                        contents(I, c, s2, v, m, what, where, f)
    decide(rep, p, Bytes, mutators)
    def makers(I, c):
        for d in ds:
            dd = p.decls[d]
            if not dd.get('ctor'): continue
            where = p.loc(dd['l'])
            s = State(); frame(s)
            ast = {'l': dd['l'], 't': type_of(p, rid), 'k': 'Ctor'}
            if dd['ctor'] in ('copy', 'move') or len(dd['params']) == 1 and p.rec_of(dd['params'][0]['t']) == rid:
                v, b, n = fresh_packet(I, s)
                what = dd['ctor'] + ' constructor' if isinstance(dd['ctor'], str) else 'copy constructor'
                for s2, r in I.construct(s, None, d, [v], ast):
                    if not s2.exc: contents(I, c, s2, r, n, what, where, lambda s, i, b=b: [(s, ('initial', b, i + sh))])
                continue
            what = 'packet(%s)' % ', '.join(p.types[x['t']]['s'].replace('std::', '') for x in dd['params'])
            c.loops = len(I.loops)
            args, count, val = given(I, s, d)
            k = [p.types[p.strip(x['t'])]['s'] for x in dd['params']]
            extra = 7 if len(k) == 1 and 'vector' in k[0] else 0        # from a symbol: room for the header
            for s2, r in I.construct(s, None, d, args, ast):
                if s2.exc: continue
                m = (count if count is not None else ZERO) + extra
                def f(s, i):
                    if extra:
                        l, h = split(s, i - extra)
                        return ([(l, val(i - extra))] if l is not None else []) + ([(h, Ellipsis)] if h is not None else [])
                    return [(s, val(i) if val else Ellipsis)]
                contents(I, c, s2, r, m, what, where, f)
        for d in byname.get('operator=', []):
            dd = p.decls[d]
            s = State(); frame(s)
            v, b, n = fresh_packet(I, s)
            w, b2, n2 = fresh_packet(I, s)
            for s2, r in I.call(s, d, v, [w], {'l': dd['l'], 't': dd['ret'], 'k': 'MCall'}):
                if not s2.exc: contents(I, c, s2, v, n2, 'assignment', p.loc(dd['l']), lambda s, i: [(s, ('initial', b2, i + sh))])
    decide(rep, p, Bytes, makers)
    # alignment of the storage
    for f in p.records[rid].get('fields') or []:
        t = p.types[p.strip(f['t'])]
        if t.get('k') != 'rec' or 'vector' not in p.records[t['rec']]['q']: continue
        al = [p.types[a]['s'] if isinstance(a, int) else str(a) for a in (p.records[t['rec']].get('targs') or [])[1:]]
        import re
        m = [int(x) for a in al if 'align' in a for x in re.findall(r'(\d+)[ul]*>', a, re.I)[-1:]]
        rep.ob('storage-aligned', 'the storage of a packet is aligned on 16 bytes', f['n'] if 'l' not in f else p.loc(f['l']), (m[0] % 16 == 0) if m else False if unaligned(p, p.rec_of((p.records[t['rec']]['targs'])[1])) else None, al)
    rep.assume('sizes are below 2^30', 'a packet whose contents were taken is only resized, assigned, cleared or destroyed')
