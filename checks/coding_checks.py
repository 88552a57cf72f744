"""Properties of the linear code: how repairs are composed and the coefficients used."""
from common import *
from session import *
from wire_checks import where_of
from encoder_checks import *

def zero_filled(I, st, v):
    """Does a vector give a value to the elements it grows by?"""
    t = st.heap[v].t
    if t is None: return True
    r = I.p.rec_of(t)
    s = (I.p.records[r].get('full') if r is not None else I.p.types[t].get('s')) or ''
    # an allocator of the library that constructs elements without a value
    return 'default_init' not in s and 'ntc::' not in s

class Compose(Window):
    """Follows an arbitrary identifier W, in the window or not, into a repair."""
    stub_coder = False
    phase = 'compose'
    def setup(self, I, st, o):
        Window.setup(self, I, st, o)
        rr = rec(I.p, 'ntc::detail::encoder_repair')
        rs = [v.o for f in I.fields_of(st.heap[o.o].t) for v in [st.get(o.o, f['n'])] if isinstance(v, ObjRef) and v.o in st.heap and st.heap[v.o].t == rr]
        self.rep = rs[0] if len(rs) == 1 else None
        st.ghost['acc'] = 0          # something was accumulated in the symbol
        st.ghost['opW'] = 0
        if self.rep is not None:
            self.symbol(I, st, self.rep)
    def symbol(self, I, st, r):
        b = vec_field(I, st, r)
        st.ghost['rb'] = b
        st.ghost['D'] = st.get(b, 'size')
        return b
    def keep_entry(self, I, st, cont, ent):
        return 'W' in st.ghost and st.eq(st.get(ent, 'key'), st.ghost['W']) is True
    def shape(self, I, st, num):
        # small constants keep states apart: the projected sizes are 0 or 1
        out = []
        for o in sorted(num, key=num.get):
            ob = st.heap.get(o)
            if ob is None or ob.kind not in ('frame', 'rec'): continue
            for k in sorted(ob.f, key=str):
                v = ob.f[k]
                if isinstance(v, Lin) and v.is_const() and v.c in (0, 1): out.append((num[o], str(k), v.c))
        return tuple(out)
    def on_call(self, I, st, d, dd, this, args, ast):
        p = I.p
        r = dd.get('rec')
        if r is not None and p.records[r]['q'] == 'ntc::detail::galois_field' and dd['n'] == 'multiply_size' and len(args) == 2:
            sz, co = [I.lib.val(st, a) for a in args]
            ks = self.which(I, st, sz=sz)
            k = self.coeff_source(I, st, co)
            where = where_of(I, ast)
            ok = k is not None and any(st.eq(k, x) is True for x in ks)
            self.ob(st, 'size-product', 'the size of a source is multiplied by the coefficient of that source', where, ok, ['size %r, coefficient %r' % (sz, co)])
            # projection on the contribution of W
            if k is not None and 'W' in st.ghost:
                q = st.eq(k, st.ghost['W'])
                if q is not None: return [(st, ONE if q else ZERO)]
            return [(st, fresh('msz', 0, 65535))]
        return Window.on_call(self, I, st, d, dd, this, args, ast)
    def which(self, I, st, buf=None, sz=None):
        """Identifiers of the listed sources with this storage / size."""
        out = []
        for e in st.get(self.win, 'ents'):
            v = st.get(e, 'second')
            if not isinstance(v, ObjRef): continue
            b = vec_field(I, st, v.o)
            if buf is not None and b == buf: out.append(st.get(e, 'key'))
            if sz is not None and st.eq(st.get(b, 'size'), sz) is True: out.append(st.get(e, 'key'))
        return out
    def coeff_source(self, I, st, co):
        """Source identifier of a coefficient of the current repair."""
        q = co.sym() if isinstance(co, Lin) else None
        t = SYMS[q].tag if q is not None else None
        if not (isinstance(t, tuple) and t[0] == 'coeff'): return None
        self.rid = accessor(I, st, self.rep, 'id')
        return t[2] if st.eq(t[1], self.rid) is True else None
    def on_event(self, I, st, kind, *a):
        rb = st.ghost.get('rb')
        if kind == 'gf' and isinstance(a[1], Ptr) and a[1].b == rb:
            src, dst, co, ln, add, ast = a
            where = where_of(I, ast)
            self.site(where)
            ks = self.which(I, st, buf=src.b) if isinstance(src, Ptr) else []
            if not ks: self.ob(st, 'source-encoded', 'what is added to a repair is a source of the window', where, None); return
            k = ks[0]
            e = [x for x in st.get(self.win, 'ents') if st.get(x, 'key') == k][0]
            n = st.get(src.b, 'size')
            self.ob(st, 'whole-source', 'a source is added whole, at the start of the symbol', where, st.eq(ln, n) is True and st.eq(src.off, ZERO) is True and st.eq(dst.off, ZERO) is True,
                    ['%r bytes of %r from %r at %r' % (ln, n, src.off, dst.off)])
            c = self.coeff_source(I, st, co)
            self.ob(st, 'coefficient-of-pair', 'a source is multiplied by the coefficient of this repair and this source', where, c is not None and st.eq(c, k) is True, [repr(co)])
            if add == ZERO:
                self.ob(st, 'nothing-overwritten', 'what has been added to a repair is not overwritten', where, st.ghost['acc'] == 0)
                if st.entails(ln - st.ghost['D']): st.ghost['D'] = ZERO
            else:
                self.ob(st, 'starts-at-zero', 'sources are added to a symbol without remains of a former repair', where, st.eq(st.ghost['D'], ZERO) is True, ['%r stale bytes' % (st.ghost['D'],)])
            st.ghost['acc'] = 1
            if st.eq(k, st.ghost['W']) is True: st.ghost['opW'] = min(2, st.ghost['opW'] + 1)
            return
        if kind == 'resize' and a and rb is not None and st.heap[a[0]].kind == 'vec' and I.lib.buf_of(st, ObjRef(a[0])) == rb:
            v, old, new, fill = a[:4]
            D = st.ghost['D']
            if st.entails(D - new): st.ghost['D'] = new
            elif st.entails(new - D):
                if not fill and not zero_filled(I, st, v) and not st.entails(old - new): st.ghost['D'] = new
            else:
                m = fresh('stale', 0, None)
                st.assume(D - m); st.assume(new - m)
                st.ghost['D'] = m
        if kind == 'vec_clear' and rb is not None and I.lib.buf_of(st, ObjRef(a[0])) == rb:
            st.ghost['D'] = ZERO
            st.ghost['acc'] = 0
            st.ghost['opW'] = 0
    def site(self, w): self.__dict__.setdefault('sites', set()).add(w)
    def written(self, I, st, k, v, ast):
        if k != 'repair' or 'W' not in st.ghost: return
        where = where_of(I, ast)
        W = st.ghost['W']
        inw = presence(I, st, self.win, W)
        ids = accessor(I, st, v.o, 'source_ids').o
        there = presence(I, st, ids, W)
        if inw is None: self.ob(st, 'window-known', 'the window a repair encodes', where, None); return
        if inw:
            self.ob(st, 'whole-window', 'a repair lists every source of the window', where, there, (), there is False)
            self.ob(st, 'encoded-once', 'every source of the window is added exactly once to a repair', where, st.ghost['opW'] == 1, ['added %d times' % st.ghost['opW']], there is not None)
            es = [e for e in st.get(self.win, 'ents') if st.eq(st.get(e, 'key'), W) is True]
            if es:
                n = st.get(vec_field(I, st, st.get(es[0], 'second').o), 'size')
                b = vec_field(I, st, v.o)
                self.ob(st, 'symbol-large-enough', 'the symbol of a repair is as long as each source', where, st.entails(st.get(b, 'size') - n), ['%r for %r' % (st.get(b, 'size'), n)])
        else:
            self.ob(st, 'only-window', 'a repair lists and encodes only sources of the window', where, None if there is None else not there and st.ghost['opW'] == 0)
        z = accessor(I, st, v.o, 'encoded_size')
        self.ob(st, 'sizes-added', 'the encoded size of a repair is the sum of the products of the sizes of its sources, each once', where, st.eq(z, ONE if inw else ZERO) is True, ['contribution %r, expected %d' % (z, 1 if inw else 0)])
        self.ob(st, 'no-remains', 'nothing of a former repair remains in a symbol', where, st.eq(st.ghost['D'], ZERO) is True, ['%r stale bytes' % (st.ghost['D'],)])
        # next repair of the same operation
        st.ghost['acc'] = 0; st.ghost['opW'] = 0
        st.ghost['D'] = st.get(st.ghost['rb'], 'size')

def composition(rep, cache):
    p = program(cache)
    if discover(p)[0] is None: raise Missing('next source identifier of the encoder')
    mk = make(p, Compose)
    def forced(I, c):
        for d in methods(p, enc_rec(p), 'generate_repair', 0):
            n = 0
            for s, o in start(I, c, p):
                if c.rep is None: raise Missing('repair of the encoder')
                W = fresh('W', 0, (1 << 32) - 1)
                for s1, e in I.lib.find(s, c.win, W):
                    s1.ghost['W'] = W
                    # the list of the previous repair may hold anything
                    for s1 in ([s1] if e is not None else [x for x, _ in I.lib.find(s1, accessor(I, s1, c.rep, 'source_ids').o, W)]):
                        for s2, v in I.call(s1, d, o, [], None): n += 1
            c.ob(None, 'repairs-understood', 'repairs are composed from the window', p.loc(p.decls[d]['l']), True if n and c.__dict__.get('sites') else None)
    decide(rep, p, mk, forced)
    def commit(I, c):
        """The repair sent with a data covers that data."""
        for d in data_methods(p):
            for s, o in start(I, c, p):
                W = fresh('W', 0, (1 << 32) - 1)
                nx = c.before.get(c.enc, c.next_field)
                for s1, e in I.lib.find(s, c.win, W):
                    for s1 in ([s1] if e is not None else I.cmp_split(s1, W, nx)):
                        s1.ghost['W'] = W
                        a = I.symbolic(s1, p.decls[d]['params'][0]['t'], 'data')
                        s1.alloc('root', None, {'obj': a})
                        b = I.lib.buf_of(s1, a)
                        s1.assume(s1.get(b, 'size') - 1)
                        s1.assume(const(65535) - s1.get(b, 'size'))
                        I.call(s1, d, o, [a], None)
    decide(rep, p, mk, commit)
    rep.assume('data of 1 to 65535 bytes, identifiers below 2^32 - 1', 'GF-complete multiplies regions as documented')

# ------------------------------------------------------------------ C14
def atoms(v, out=None):
    """Symbols a term is computed from, through interpreted and uninterpreted operations."""
    out = out if out is not None else set()
    if isinstance(v, Lin):
        for q, _ in v.t:
            if q in out: continue
            out.add(q)
            t = SYMS[q].tag
            if isinstance(t, tuple):
                for x in t: atoms(x, out)
    elif isinstance(v, (tuple, frozenset, set)):
        for x in v: atoms(x, out)
    return out

class Field(Checker):
    def on_event(self, I, st, kind, *a):
        if kind == 'gf':
            st.ghost['nops'] = min(3, st.ghost.get('nops', 0) + 1)
            st.ghost['op'] = tuple(a[:5])
        elif kind == 'div' and isinstance(a[1], Lin):
            self.ob(st, 'no-division-by-zero', 'no division by zero in the field', where_of(I, a[2]), st.entails(a[1] - 1) or st.eq(a[1], ZERO) is False or st.entails(-a[1] - 1), [a[1]])

def field(rep, cache):
    p = program(cache)
    gr = rec(p, 'ntc::detail::galois_field')
    def one(p, n, pred=None): return method(p, gr, n, None, pred)
    region = lambda dd: len(dd['params']) == 4
    def scenario(I, c):
        for w in (4, 8, 16, 32):
            top = (1 << w) - 1
            def fresh_field():
                for s, o in construct(I, State(), gr, {0: const(w)}):
                    s.alloc('root', None, {'obj': o})
                    yield s, o
            d = one(p, 'coefficient')
            where = p.loc(p.decls[d]['l'])
            for s, o in fresh_field():
                r, q = fresh('repair', 0, (1 << 32) - 1), fresh('source', 0, (1 << 32) - 1)
                deps = set()
                for s2, v in I.call(s, d, o, [r, q], None):
                    v = I.lib.val(s2, v)
                    if not isinstance(v, Lin): c.ob(s2, 'coefficient-understood', 'w = %d' % w, where, None); continue
                    c.ob(s2, 'coefficient-nonzero', 'w = %d: a coefficient is never zero, so that it can be inverted' % w, where, bool(s2.entails(v - 1) or s2.eq(v, ZERO) is False and s2.entails(v)), ['%r %r' % (v, bounds(v))])
                    c.ob(s2, 'coefficient-in-field', 'w = %d: a coefficient is an element of the field' % w, where, bool(s2.entails(const(top) - v)), ['%r %r' % (v, bounds(v))])
                    deps |= atoms(v)
                for x, n in ((r, 'repair'), (q, 'source')):
                    c.ob(None, 'coefficient-depends', 'w = %d: a coefficient depends on the identifier of the %s' % (w, n), where, True if x.sym() in deps else None if [z for z in deps if z not in (r.sym(), q.sym()) and not isinstance(SYMS[z].tag, tuple)] else False)
            for nm, add in (('multiply', 0), ('multiply_add', 1)):
                d = one(p, nm, region)
                where = p.loc(p.decls[d]['l'])
                for s, o in fresh_field():
                    ln, co = fresh('len', 0, 65535), fresh('coeff', 1, top)
                    ps = []
                    for i in range(2):
                        b = s.alloc('buf', None, {'size': ln, 'gen': IP.new_oid(), 'w': (), 'name': 'region%d' % i})
                        s.alloc('root', None, {'obj': ObjRef(b)})
                        ps.append(Ptr(b, ZERO))
                    for s2, v in I.call(s, d, o, [ps[0], ps[1], ln, co], None):
                        op = s2.ghost.get('op')
                        if s2.ghost.get('nops', 0) > 1: c.ob(s2, 'region-operation', 'w = %d' % w, where, None); continue
                        ok = op is not None and isinstance(op[0], Ptr) and isinstance(op[1], Ptr) and op[0].b == ps[0].b and op[1].b == ps[1].b and s2.eq(op[0].off, ZERO) is True and s2.eq(op[1].off, ZERO) is True \
                            and s2.eq(op[2], co) is True and s2.eq(op[3], ln) is True and s2.eq(op[4], const(add)) is True
                        if not ok and op is None: ok = s2.entails(-ln)      # nothing to do
                        c.ob(s2, 'region-operation', 'w = %d: %s() %s the destination with the product of the whole region' % (w, nm, 'adds to' if add else 'replaces'), where, bool(ok), [repr(op)])
            d = one(p, 'multiply_size')
            where = p.loc(p.decls[d]['l'])
            for s, o in fresh_field():
                n, co = fresh('size', 0, 65535), fresh('coeff', 0, top)
                for s2, v in I.call(s, d, o, [n, co], None):
                    v = I.lib.val(s2, v)
                    zero = s2.eq(v, ZERO) is True
                    if zero: ok = s2.eq(n, ZERO) is True or s2.eq(co, ZERO) is True
                    else:
                        x, y = sorted((n, co), key=repr)
                        ts = [t for q in atoms(v) for t in [SYMS[q].tag] if isinstance(t, tuple) and t[0] == 'gfmul']
                        ok = len(ts) == 1 and set(ts[0][1:]) == {n, co}
                        op = s2.ghost.get('op')
                        if ok and op is not None: ok = s2.eq(op[3], const(2)) is True
                    c.ob(s2, 'size-product-exact', 'w = %d: multiply_size() is the product of both bytes of the size, zero only if a factor is' % w, where, bool(ok), [repr(v)])
            d = one(p, 'invert')
            where = p.loc(p.decls[d]['l'])
            for s, o in fresh_field():
                co = fresh('coeff', 1, top)
                for s2, v in I.call(s, d, o, [co], None):
                    v = I.lib.val(s2, v)
                    q = v.sym() if isinstance(v, Lin) else None
                    t = SYMS[q].tag if q is not None else None
                    c.ob(s2, 'inverse', 'w = %d: invert() is the inverse' % w, where, isinstance(t, tuple) and t == ('gfdiv', ONE, co) or None, [repr(v)])
            d = one(p, 'multiply', lambda dd: len(dd['params']) == 2)
            where = p.loc(p.decls[d]['l'])
            for s, o in fresh_field():
                x, y = fresh('x', 0, top), fresh('y', 0, top)
                for s2, v in I.call(s, d, o, [x, y], None):
                    v = I.lib.val(s2, v)
                    if s2.eq(v, ZERO) is True: ok = s2.eq(x, ZERO) is True or s2.eq(y, ZERO) is True
                    else:
                        q = v.sym() if isinstance(v, Lin) else None
                        t = SYMS[q].tag if q is not None else None
                        ok = isinstance(t, tuple) and t[0] == 'gfmul' and set(t[1:]) == {x, y}
                    c.ob(s2, 'product', 'w = %d: multiply() is the product of the two elements' % w, where, bool(ok), [repr(v)])
    decide(rep, p, Field, scenario)
    rep.assume('GF-complete implements the operations of the field as documented')
