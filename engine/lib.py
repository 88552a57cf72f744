"""Abstract semantics of the library functions used by the code under analysis: standard and boost
containers, iterators, algorithms, endian conversions, GF-complete entry points."""
import math
from lin import Lin, ZERO, ONE, const, fresh, memo, bounds, SYMS
import interp as I_
from interp import (ObjRef, Loc, Ptr, Elem, SPtr, It, Null, NULL, Fn, Flo, Opq, Ins, Obj, Alias, Caps, new_oid, Unsupported)

CONT = ('map', 'set', 'list')
BIG = 1 << 40

class Lib:
    def __init__(self, I):
        self.I = I
        self.p = I.p

    # ------------------------------------------------------------ storage
    def buf_of(self, st, v):
        """Storage object of a vec object."""
        b = st.get(v.o, 'buf')
        if b is None:
            o = self.I.new_vec(st, st.heap[v.o].t, fresh('size', 0, BIG))
            b = st.get(o, 'buf')
            st.set(v.o, 'buf', b)
        return b.o

    def access(self, st, b, off, n, mode, ast):
        """Obligation: [off, off+n) lies in storage b."""
        ob = st.heap.get(b)
        if ob is None or ob.kind != 'buf': return
        size = ob.f['size']
        ok = None
        if ob.f.get('dead'):
            self.I.client_event(st, 'stale', b, ast)
        if isinstance(off, Lin) and isinstance(n, Lin):
            if st.entails(-n): ok = True
            else: ok = st.entails(off) and st.entails(size - off - n)
        self.I.client_event(st, 'bounds', b, off, n, mode, bool(ok), ast)
        if not ok and isinstance(off, Lin) and isinstance(n, Lin):
            s2 = st.copy()
            if s2.assume(off) and s2.assume(size - off - n):
                st.assume(off); st.assume(size - off - n)

    def content(self, st, b, off, n, t=None, name='byte'):
        """Term denoting n bytes at off."""
        gen = st.get(b, 'gen')
        return memo(('cell', gen, off, n), name, 0, (1 << (8 * n)) - 1)

    def esize(self, st, b):
        et = st.get(b, 'et')
        if et is None: return 1
        ty = self.p.types[self.p.strip(et)]
        return max(1, (ty.get('bits') or 8) // 8)

    def load_elem(self, st, e, t, ast):
        b = e.b
        ob = st.heap.get(b)
        if ob is None: return self.I.symbolic(st, t, 'dead') if t is not None else Opq(('dead',))
        self.access(st, b, e.off, ONE, 'r', ast)
        ob = st.heap[b]
        et = ob.f.get('et')
        for off, v in reversed(ob.f.get('w') or ()):
            r = st.eq(off, e.off)
            if r is True: return v
            if r is None:
                return self.unknown_elem(st, b, et, t)
        if ob.f.get('summary') is not None:
            return ob.f['summary'](self.I, st, b, e.off)
        if ob.f.get('segs') is not None:
            v = self.segment(st, b, e.off, self.esize(st, b))
            if v is not None: return v
        if et is not None and self.I.is_class(et):
            k = ('eobj', ob.f['gen'], e.off)
            c = ob.f.get('objs') or {}
            if e.off in c: return c[e.off]
            v = self.I.symbolic(st, et, 'elem')
            c = dict(c); c[e.off] = v
            st.set(b, 'objs', c)
            return v
        if et is not None and self.I.kind_of(et) == 'int':
            lo, hi = self.I.range_of(t if t is not None and self.I.kind_of(t) == 'int' else et)
            if lo is not None and lo < 0:
                return memo(('cells', ob.f['gen'], e.off), 'elem', lo, hi)
            return memo(('cell', ob.f['gen'], e.off, self.esize(st, b)), 'elem', lo, hi)
        if et is not None:
            return self.I.symbolic(st, et, 'elem')
        return self.I.symbolic(st, t, 'elem') if t is not None else Opq(('elem',))

    def unknown_elem(self, st, b, et, t):
        tt = et if et is not None else t
        return self.I.symbolic(st, tt, 'elem?') if tt is not None else Opq(('elem?',))

    def store_elem(self, st, e, v, ast):
        b = e.b
        ob = st.heap.get(b)
        if ob is None: return
        self.access(st, b, e.off, ONE, 'w', ast)
        self.I.client_event(st, 'elem_store', b, e.off, v, ast)
        w = tuple((o, x) for o, x in (st.get(b, 'w') or ()) if st.eq(o, e.off) is not True)
        if len(w) > 12:
            st.update(b, gen=new_oid(), w=())
            w = ()
        st.set(b, 'w', w + ((e.off, v),))

    def touch(self, st, b):
        """Bulk write: forget contents."""
        st.update(b, gen=new_oid(), w=())

    def resize_buf(self, st, v, n, realloc=True):
        b = self.buf_of(st, v)
        st.update(b, size=n)
        return b

    # ------------------------------------------------------------ containers
    def key_of(self, st, e): return st.get(e, 'key')

    def in_gap(self, st, c, k):
        for lo, hi in st.get(c, 'gaps'):
            if (lo is None or st.entails(k - lo)) and (hi is None or st.entails(hi - k)): return True
        return False

    def add_gap(self, st, c, lo, hi):
        gaps = []
        for a, b in st.get(c, 'gaps'):
            # merge when they touch
            if (lo is None or b is None or st.entails(b + 1 - lo)) and (hi is None or a is None or st.entails(hi + 1 - a)):
                if lo is None or a is None: nlo = None
                elif st.entails(a - lo): nlo = lo
                elif st.entails(lo - a): nlo = a
                else: gaps.append((a, b)); continue
                if hi is None or b is None: nhi = None
                elif st.entails(hi - b): nhi = hi
                elif st.entails(b - hi): nhi = b
                else: gaps.append((a, b)); continue
                lo, hi = nlo, nhi
            else: gaps.append((a, b))
        gaps.append((lo, hi))
        st.set(c, 'gaps', tuple(gaps))
        if lo is None and hi is None:
            # everything is listed
            st.assume_eq(st.get(c, 'size'), const(len(st.get(c, 'ents'))))

    def new_entry(self, st, c, key):
        """Materialises an existing, so far unlisted element."""
        ob = st.heap[c]
        t = ob.t
        kind = ob.kind
        f = {'key': key, 'cont': c, 'first': key}
        e = st.alloc('ent', t, f)
        n = len(ob.f['ents']) + 1
        if not st.assume(ob.f['size'] - n): return []
        st.set(c, 'ents', ob.f['ents'] + (e,))
        if self.I.client:
            r = self.I.client.materialize(self.I, st, c, e)
        else: r = [st]
        out = []
        for s in r:
            self.fill_entry(s, c, e)
            out.append((s, e))
        return out

    def fill_entry(self, st, c, e):
        ob = st.heap[c]
        t = ob.t
        if ob.kind == 'map' and st.get(e, 'second') is None:
            vt = self.I.targ(t, 1)
            st.set(e, 'second', self.I.symbolic(st, vt, ob.f['name'] + '[]'))
        elif ob.kind == 'list' and st.get(e, 'second') is None:
            st.set(e, 'second', self.I.symbolic(st, self.I.targ(t, 0), ob.f['name'] + '[]'))
        elif ob.kind == 'set' and st.get(e, 'val') is None:
            et = self.I.targ(t, 0)
            if self.I.kind_of(et) == 'int': st.set(e, 'val', st.get(e, 'key'))
            else: st.set(e, 'val', self.I.symbolic(st, et, ob.f['name'] + '{}'))
        if ob.kind == 'map':
            vt = self.I.targ(t, 1)
            if self.p.types[self.p.strip(vt)].get('k') == 'ptr': st.set(e, 'ptr', True)

    def key_range(self, c_t):
        kt = self.I.targ(c_t, 0)
        if kt is not None and self.I.kind_of(kt) == 'int': return self.I.range_of(kt)
        return 0, (1 << 32) - 1

    def fresh_key(self, st, c):
        lo, hi = self.key_range(st.heap[c].t) if st.heap[c].kind != 'list' else (0, (1 << 32) - 1)
        return fresh('k', lo, hi)

    def outside_gaps(self, st, c, k):
        """States in which k lies in no gap."""
        states = [st]
        for lo, hi in st.get(c, 'gaps'):
            ns = []
            for s in states:
                if lo is not None:
                    s2 = s.copy()
                    if s2.assume(lo - 1 - k): ns.append(s2)
                if hi is not None:
                    s3 = s.copy()
                    if s3.assume(k - hi - 1): ns.append(s3)
            states = ns
        return states

    def find(self, st, c, k):
        """[(state, entry or None)]"""
        out = []
        ents = st.get(c, 'ents')
        unknown = []
        for e in ents:
            r = st.eq(self.key_of(st, e), k)
            if r is True: return [(st, e)]
            if r is None: unknown.append(e)
        rest = st
        for e in unknown:
            s2 = rest.copy()
            if s2.assume_eq(self.key_of(s2, e), k): out.append((s2, e))
            if not rest.assume_neq(self.key_of(rest, e), k):
                rest = None
                break
        if rest is None: return out
        if self.in_gap(rest, c, k):
            out.append((rest, None)); return out
        # present but unlisted
        s2 = rest.copy()
        for s3 in self.outside_gaps(s2, c, k):
            if s3.le(s3.get(c, 'size'), const(len(ents))) is True: continue
            out += self.new_entry(s3, c, k)
        # absent
        ok = True
        if ok:
            self.add_gap(rest, c, k, k)
            if self.I.client:
                for s4 in self.I.client.absent(self.I, rest, c, k): out.append((s4, None))
            else: out.append((rest, None))
        return out

    def succ(self, st, c, lo, strict=True):
        """Smallest element with key > lo (lo None: smallest element). [(state, entry or None)]"""
        base = None if lo is None else (lo + 1 if strict else lo)
        out = []
        ents = st.get(c, 'ents')
        # candidates among listed
        below, cand = [], []
        states = [(st, [])]
        for e in ents:
            ns = []
            for s, above in states:
                if base is None: ns.append((s, above + [e])); continue
                for s2, b in self.I.cmp(s, '<=', base, self.key_of(s, e)):
                    ns.append((s2, above + [e] if b else above))
            states = ns
        for s, above in states:
            # find the minimum of `above`
            mins = self.minimum(s, above)
            for s1, m in mins:
                hi = None if m is None else self.key_of(s1, m) - 1
                if self.covered(s1, c, base, hi):
                    out.append((s1, m)); continue
                # an unlisted element in [base, hi]
                s2 = s1.copy()
                if s2.le(s2.get(c, 'size'), const(len(s2.get(c, 'ents')))) is not True:
                    k = self.fresh_key(s2, c)
                    ok = (base is None or s2.assume(k - base)) and (hi is None or s2.assume(hi - k))
                    if ok:
                        for s3 in self.outside_gaps(s2, c, k):
                            for s4, e in self.new_entry(s3, c, k):
                                self.add_gap(s4, c, base, k - 1)
                                out.append((s4, e))
                # none
                if m is None and base is None and not s1.get(c, 'ents'):
                    if not s1.assume_eq(s1.get(c, 'size'), ZERO): continue
                self.add_gap(s1, c, base, hi)
                if self.consistent_size(s1, c): out.append((s1, m))
        return out

    def consistent_size(self, st, c):
        return st.assume(st.get(c, 'size') - len(st.get(c, 'ents')))

    def covered(self, st, c, lo, hi):
        """Is [lo, hi] known to contain no unlisted element?"""
        if lo is not None and hi is not None and st.entails(lo - hi - 1): return True
        if st.le(st.get(c, 'size'), const(len(st.get(c, 'ents')))) is True: return True
        for a, b in st.get(c, 'gaps'):
            if (a is None or (lo is not None and st.entails(lo - a))) and (b is None or (hi is not None and st.entails(b - hi))): return True
        return False

    def is_first(self, st, it):
        """Is the iterator at the beginning of its container?"""
        if it.e is None: return st.eq(st.get(it.c, 'size'), ZERO) is True
        k = st.get(it.e, 'key')
        return any(lo is None and (hi is None or st.entails(hi - k + 1)) for lo, hi in st.get(it.c, 'gaps'))

    def minimum(self, st, es):
        if not es: return [(st, None)]
        states = [(st, es[0])]
        for e in es[1:]:
            ns = []
            for s, m in states:
                for s2, b in self.I.cmp(s, '<', self.key_of(s, e), self.key_of(s, m)):
                    ns.append((s2, e if b else m))
            states = ns
        return states

    def maximum(self, st, es):
        if not es: return [(st, None)]
        states = [(st, es[0])]
        for e in es[1:]:
            ns = []
            for s, m in states:
                for s2, b in self.I.cmp(s, '<', self.key_of(s, m), self.key_of(s, e)):
                    ns.append((s2, e if b else m))
            states = ns
        return states

    def pred(self, st, c, hi):
        """Greatest element with key < hi (None: greatest element)."""
        top = None if hi is None else hi - 1
        out = []
        ents = st.get(c, 'ents')
        states = [(st, [])]
        for e in ents:
            ns = []
            for s, below in states:
                if top is None: ns.append((s, below + [e])); continue
                for s2, b in self.I.cmp(s, '<=', self.key_of(s, e), top):
                    ns.append((s2, below + [e] if b else below))
            states = ns
        for s, below in states:
            for s1, m in self.maximum(s, below):
                lo = None if m is None else self.key_of(s1, m) + 1
                if self.covered(s1, c, lo, top):
                    out.append((s1, m)); continue
                s2 = s1.copy()
                if s2.le(s2.get(c, 'size'), const(len(s2.get(c, 'ents')))) is not True:
                    k = self.fresh_key(s2, c)
                    ok = (lo is None or s2.assume(k - lo)) and (top is None or s2.assume(top - k))
                    if ok:
                        for s3 in self.outside_gaps(s2, c, k):
                            for s4, e in self.new_entry(s3, c, k):
                                self.add_gap(s4, c, k + 1, top)
                                out.append((s4, e))
                if m is None and top is None and not s1.get(c, 'ents'):
                    if not s1.assume_eq(s1.get(c, 'size'), ZERO): continue
                self.add_gap(s1, c, lo, top)
                if self.consistent_size(s1, c): out.append((s1, m))
        return out

    def insert_new(self, st, c, key, ast):
        """Adds an element known to be absent. Returns the entry."""
        ob = st.heap[c]
        e = st.alloc('ent', ob.t, {'key': key, 'cont': c, 'first': key, 'own': 1})
        st.update(c, ents=ob.f['ents'] + (e,), size=ob.f['size'] + 1)
        self.bump(st, c)
        return e

    def bump(self, st, c):
        pass

    def erase_entry(self, st, c, e, ast):
        ob = st.heap[c]
        key = self.key_of(st, e)
        self.I.client_event(st, 'erase', c, e, ast)
        st.update(c, ents=tuple(x for x in ob.f['ents'] if x != e), size=ob.f['size'] - 1)
        st.assume(st.get(c, 'size'))
        self.add_gap(st, c, key, key)
        self.kill(st, e)

    def kill(self, st, e):
        st.set(e, 'dead', 1)
        sec = st.get(e, 'second')
        if isinstance(sec, ObjRef) and not st.get(e, 'ptr') and sec.o in st.heap:
            st.set(sec.o, 'dead', 1)

    def erase_between(self, st, c, lo, hi, ast):
        """Erases every element with lo <= key <= hi (None: unbounded). Returns states."""
        self.I.client_event(st, 'erase_range', c, lo, hi, ast)
        states = [(st, [])]
        for e in st.get(c, 'ents'):
            ns = []
            for s, rm in states:
                k = self.key_of(s, e)
                cs = [(s, True)]
                if lo is not None: cs = [(s2, b) for s2, b in self.I.cmp(s, '<=', lo, k)]
                for s2, b in cs:
                    if b and hi is not None:
                        for s3, b3 in self.I.cmp(s2, '<=', k, hi): ns.append((s3, rm + [e] if b3 else rm))
                    else: ns.append((s2, rm + [e] if b else rm))
            states = ns
        out = []
        for s, rm in states:
            for e in rm:
                self.I.client_event(s, 'erase', c, e, ast)
                self.kill(s, e)
            full = self.covered(s, c, lo, hi)
            old = s.get(c, 'size')
            left = tuple(x for x in s.get(c, 'ents') if x not in rm)
            if full: new = old - len(rm)
            else:
                new = fresh('size', 0, BIG)
                s.assume(old - len(rm) - new)
                s.assume(new - len(left))
            s.update(c, ents=left, size=new)
            self.add_gap(s, c, lo, hi)
            out.append(s)
        return out

    def forget_entries(self, st, c, pinned):
        """At loop heads: entries that nothing refers to become unlisted again."""
        ob = st.heap[c]
        keep, drop = [], []
        for e in ob.f['ents']: (keep if e in pinned else drop).append(e)
        gaps = list(ob.f['gaps'])
        for e in drop:
            k = self.key_of(st, e)
            ng = []
            for a, b in gaps:
                inside_no = (a is not None and st.entails(a - k - 1)) or (b is not None and st.entails(k - b - 1))
                if inside_no: ng.append((a, b)); continue
                if a is None or not st.entails(a - k): ng.append((a, k - 1))
                if b is None or not st.entails(k - b): ng.append((k + 1, b))
            gaps = ng
        if drop and self.I.client: self.I.client.forgotten(self.I, st, c, drop)
        live = self.base_syms(st)
        def ok(l): return l is None or all(q in live for q, _ in l.t)
        foc = self.I.client.focus(self.I, st, c) if self.I.client else ()
        dead = [(a, b) for a, b in gaps if not (ok(a) and ok(b))]
        gaps = [(a, b) for a, b in gaps if ok(a) and ok(b)]
        for a, b in dead:
            # the part of the gap between its live end and the key of interest, or that key alone
            for k in foc:
                if not ((a is None or st.entails(k - a)) and (b is None or st.entails(b - k))): continue
                gaps.append((a if ok(a) else k, b if ok(b) else k))
                break
        # what is known about the keys of interest must survive joins of the ends of the gaps
        for k in foc:
            if any(a == k or b == k for a, b in gaps): continue
            if any((a is None or st.entails(k - a)) and (b is None or st.entails(b - k)) for a, b in gaps): gaps.insert(0, (k, k))
        gaps = tuple(gaps)
        size = ob.f['size']
        st.update(c, ents=tuple(keep), gaps=gaps[:6])

    def base_syms(self, st):
        """Symbols that occur elsewhere than in gaps or sizes of containers."""
        syms = set()
        def add(v):
            if isinstance(v, Lin):
                for q, _ in v.t: syms.add(q)
            elif isinstance(v, (Ptr, Elem)): add(v.off)
            elif isinstance(v, Alias): add(v.v)
            elif isinstance(v, Caps):
                for q in v.m.values(): add(q)
        _, seen = self.I.reach(st, False)
        for o in seen:
            ob = st.heap[o]
            for k, v in ob.f.items():
                if k in ('gaps', 'ents'): continue
                if ob.kind in CONT and k == 'size': continue
                add(v)
        for v in st.ghost.values(): add(v)
        if self.I.client:
            for v in self.I.client.live(self.I, st): add(v)
        return syms

    # ------------------------------------------------------------ iterators
    def deref(self, st, v, ast):
        if isinstance(v, Loc):
            x = self.I.load(st, v)
            if isinstance(x, (It, Ptr, ObjRef, SPtr, Opq, Null, Loc)): v = x
            else: return v
        if isinstance(v, Ptr): return Elem(v.b, v.off)
        if isinstance(v, SPtr): return v.loc
        if isinstance(v, ObjRef):
            ob = st.heap.get(v.o)
            if ob is not None and ob.kind in ('opt', 'vec') and ast is not None and 't' in ast and self.I.kind_of(ast['t']) == ob.kind:
                return v        # through a pointer
            if ob is not None and ob.kind == 'opt':
                x = ob.f['val']
                self.I.client_event(st, 'opt_deref', v.o, ast)
                return x if isinstance(x, ObjRef) else Loc(v.o, 'val')
            if ob is not None and ob.kind == 'vec':   # array decayed
                return Elem(self.buf_of(st, v), ZERO)
            return v
        if isinstance(v, It):
            return self.it_deref(st, v, ast)
        if isinstance(v, Null):
            self.I.client_event(st, 'null_deref', ast)
            return Opq(('null',))
        if isinstance(v, Opq):
            if self.I.is_class(ast['t']): return self.I.symbolic(st, ast['t'], 'opq')
            return Loc(st.alloc('cell', None, {'v': self.I.symbolic(st, ast['t'], 'deref')}), 'v')
        if isinstance(v, Ins): return v
        raise Unsupported('dereference of %r' % (v,))

    def it_deref(self, st, v, ast):
        if v.e is None:
            self.I.client_event(st, 'deref_end', v.c, ast)
            self.dead_end(st)
            o = st.alloc('ent', None, {'key': ZERO})
            return ObjRef(o)
        if v.e not in st.heap or st.get(v.e, 'dead'):
            self.I.client_event(st, 'use_after_erase', v.c, v.e, ast)
            self.dead_end(st)
            if v.e not in st.heap: return Opq(('dead',))
        k = st.heap[v.c].kind if v.c in st.heap else 'map'
        if k == 'map': return ObjRef(v.e)
        if k == 'list': return st.get(v.e, 'second')
        return Loc(v.e, 'val')

    def dead_end(self, st):
        """What follows an erroneous access is not analysed further."""
        if st.imprecise is None: st.imprecise = 'after an invalid access'

    def forward(self, st, v, ast):
        """++it"""
        if isinstance(v, Ptr): return [(st, Ptr(v.b, v.off + 1))]
        if isinstance(v, SPtr): return [(st, SPtr(v.loc, v.size, v.off + 1))]
        if isinstance(v, (Ins, Opq)): return [(st, v)]
        if isinstance(v, It):
            c = v.c
            if v.e is None:
                self.I.client_event(st, 'inc_end', c, ast)
                self.dead_end(st)
                return [(st, v)]
            if v.e not in st.heap or (st.get(v.e, 'dead') and not (v.rev and st.heap[c].kind == 'set')):
                self.I.client_event(st, 'use_after_erase', c, v.e, ast)
                self.dead_end(st)
                if v.e not in st.heap: return [(st, It(c, None, v.rev))]
            k = self.key_of(st, v.e)
            r = self.pred(st, c, k) if v.rev else self.succ(st, c, k)
            return [(s, It(c, e, v.rev)) for s, e in r]
        raise Unsupported('++ on %r' % (v,))

    def backward(self, st, v, ast):
        if isinstance(v, Ptr): return [(st, Ptr(v.b, v.off - 1))]
        if isinstance(v, It):
            c = v.c
            k = None if v.e is None else self.key_of(st, v.e)
            r = self.succ(st, c, k) if v.rev else self.pred(st, c, k)
            return [(s, It(c, e, v.rev)) for s, e in r]
        if isinstance(v, Opq): return [(st, v)]
        raise Unsupported('-- on %r' % (v,))

    def val(self, st, v):
        """Rvalue of an argument."""
        if isinstance(v, (Loc, Elem)): return self.I.load(st, v)
        return v

    def same_it(self, st, a, b):
        """Equality of iterators / pointers: [(state, bool)]"""
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b == b.b: return self.I.cmp(st, '==', a.off, b.off)
            self.I.client_event(st, 'foreign_iterators', a, b)
            return [(st, False), (st.copy(), True)]
        if isinstance(a, It) and isinstance(b, It):
            if a.e == b.e: return [(st, True)]
            if a.e is None or b.e is None: return [(st, False)]
            if a.c == b.c:
                return self.I.cmp(st, '==', self.key_of(st, a.e), self.key_of(st, b.e))
            return [(st, False)]
        if isinstance(a, (Null, ObjRef)) and isinstance(b, (Null, ObjRef)): return [(st, a == b)]
        return [(st, True), (st.copy(), False)]

    # ------------------------------------------------------------ construction
    def construct(self, st, d, dd, rid, kind, args, ast):
        I = self.I
        q = dd.get('q', '')
        ct = dd.get('ctor')
        if kind == 'val':
            u = I.rec_unit(rid)
            if u:
                if not args: return [(st, ZERO)]
                v = self.val(st, args[0])
                if isinstance(v, Lin): return [(st, v if ct in ('copy', 'move') or I.time_unit(dd['params'][0]['t']) else v.scale(u))]
            if ct in ('copy', 'move') or len(args) == 1:
                return [(st, self.val(st, args[0]))]
            if not args:
                return [(st, I.symbolic(st, ast['t'], 'val') if 'duration' not in q else Opq(('dur',)))]
            return [(st, Opq(('val', q)))]
        t = ast['t'] if ast is not None and 't' in ast else None
        if t is not None and I.kind_of(t) != kind: t = self.type_of_rec(rid)
        if kind in ('vec',) + CONT + ('opt', 'func', 'pair', 'closure', 'stream'):
            if ct in ('copy', 'move') and args and isinstance(self.val(st, args[0]), ObjRef):
                src = self.val(st, args[0])
                if src.o in st.heap and st.heap[src.o].kind in (kind, 'vec'):
                    if ct == 'copy': I.client_event(st, 'copy_obj', src.o, ast)
                    return [(st, ObjRef(I.move_obj(st, src.o) if ct == 'move' else I.clone(st, src.o)))]
        if kind == 'vec': return self.vec_ctor(st, t, args, ast, dd)
        if kind in CONT:
            c = ObjRef(I.new_cont(st, t, 'local', False))
            if self.I.client: self.I.client.on_new_container(self.I, st, c.o, ast)
            if not args: return [(st, c)]
            a0 = self.val(st, args[0])
            if isinstance(a0, ObjRef) and st.heap[a0.o].kind == 'vec':       # initializer list
                b = self.buf_of(st, a0)
                states = [st]
                for off, v in st.get(b, 'w'):
                    ns = []
                    for s in states:
                        for s2, _ in self.insert_value(s, c.o, v, ast): ns.append(s2)
                    states = ns
                return [(s, c) for s in states]
            if len(args) >= 2:
                return [(s, c) for s in self.insert_range(st, c.o, a0, self.val(st, args[1]), ast)]
            return [(st, c)]
        if kind == 'opt':
            if not args or 'none' in str(self.p.types[dd['params'][0]['t']]['s'] if dd['params'] else ''):
                return [(st, ObjRef(st.alloc('opt', t, {'has': ZERO, 'val': Opq(('novalue',))})))]
            v = self.val(st, args[0])
            if isinstance(v, ObjRef) and v.o in st.heap and st.heap[v.o].kind == 'opt':
                return [(st, ObjRef(I.clone(st, v.o)))]
            et = I.targ(t, 0)
            if et is not None: v = I.wrap(st, v, et) if isinstance(v, Lin) else v
            return [(st, ObjRef(st.alloc('opt', t, {'has': ONE, 'val': v})))]
        if kind == 'func':
            tgt = self.val(st, args[0]) if args else NULL
            return [(st, ObjRef(st.alloc('func', t, {'target': tgt})))]
        if kind == 'pair':
            return self.make_pair(st, rid, args, ast, dd)
        if kind == 'stream': return [(st, ObjRef(st.alloc('stream', t, {})))]
        if kind == 'closure':
            return [(st, self.val(st, args[0]) if args else Opq(('closure',)))]
        if q.startswith('std::') or q.startswith('gf') or q.startswith('boost::'):
            o = st.alloc('rec', rid, {})
            return [(st, ObjRef(o))]
        I.note_unsupported(st, 'constructor ' + q, ast)
        return [(st, ObjRef(st.alloc('rec', rid, {})))]

    def type_of_rec(self, rid):
        for i, t in enumerate(self.p.types):
            if t.get('k') == 'rec' and t.get('rec') == rid: return i
        return None

    def make_pair(self, st, rid, args, ast, dd=None):
        ta = self.p.records[rid]['targs']
        if not args:
            return [(st, ObjRef(st.alloc('pair', rid, {'first': self.I.default_value(st, ta[0], 'first'), 'second': self.I.default_value(st, ta[1], 'second')})))]
        if len(args) == 1:
            v = self.val(st, args[0])
            if isinstance(v, ObjRef):
                f = st.heap[v.o].f
                mv = dd is None or dd.get('ctor') != 'copy'
                args = [f.get('first'), f.get('second')]
            else: return [(st, v)]
        vs = []
        for i in (0, 1):
            v = args[i]
            rv = True
            if dd is not None and i < len(dd.get('params') or []):
                pt = self.p.types[dd['params'][i]['t']]
                rv = pt.get('k') != 'ref' or pt.get('rv')
            vs.append(self.take(st, v, ta[i], rv, ast))
        return [(st, ObjRef(st.alloc('pair', rid, {'first': vs[0], 'second': vs[1]})))]

    def take(self, st, v, t, rv, ast):
        """Value of type t initialised from argument v (moved when rv)."""
        v = self.val(st, v)
        if isinstance(v, Lin) and self.I.kind_of(t) == 'int':
            w = self.I.wrap(st, v, t, ast)
            if w != v: self.I.client_event(st, 'narrow', v, w, ast)
            return w
        if isinstance(v, ObjRef) and self.I.is_class(t) and v.o in st.heap and st.heap[v.o].kind != 'ent':
            return ObjRef(self.I.move_obj(st, v.o) if rv else self.I.clone(st, v.o))
        return v

    def vec_ctor(self, st, t, args, ast, dd):
        I = self.I
        args = [self.val(st, a) for a in args]
        args = [a for a in args if not (isinstance(a, ObjRef) and st.heap.get(a.o) is not None and st.heap[a.o].kind == 'rec'
                                         and 'alloc' in str(self.p.records[st.heap[a.o].t].get('q', '')))]
        args = [a for a in args if not isinstance(a, Opq) or a.tag[0] not in ('val',)]
        if not args: return [(st, ObjRef(I.new_vec(st, t, ZERO)))]
        a0 = args[0]
        if isinstance(a0, Lin):
            v = ObjRef(I.new_vec(st, t, a0))
            if len(args) > 1 and isinstance(args[1], Lin): st.set(self.buf_of(st, v), 'fill', args[1])
            I.client_event(st, 'vec_ctor', v.o, args, ast)
            return [(st, v)]
        if isinstance(a0, Ptr) and len(args) > 1 and isinstance(args[1], Ptr):
            n = args[1].off - a0.off
            v = ObjRef(I.new_vec(st, t, n))
            self.access(st, a0.b, a0.off, n, 'r', ast)
            st.set(self.buf_of(st, v), 'from', (a0.b, st.get(a0.b, 'gen'), a0.off, ZERO))
            st.emit('copy', a0, Ptr(self.buf_of(st, v), ZERO), n, self.p.loc(ast['l']))
            return [(st, v)]
        if isinstance(a0, ObjRef) and a0.o in st.heap and st.heap[a0.o].kind == 'vec':
            return [(st, ObjRef(I.clone(st, a0.o)))]
        v = ObjRef(I.new_vec(st, t, fresh('n', 0, BIG)))
        return [(st, v)]

    # ------------------------------------------------------------ insertion
    def insert_value(self, st, c, v, ast, how='insert'):
        """insert/emplace of a value in a set. [(state, (entry, inserted))]"""
        v = self.val(st, v)
        key = v
        if isinstance(v, It):
            if v.e is None:
                self.I.client_event(st, 'deref_end', v.c, ast); self.dead_end(st)
                key = fresh('k', 0, (1 << 32) - 1)
            else: key = self.key_of(st, v.e)
        if not isinstance(key, Lin):
            self.I.note_unsupported(st, 'set of unsupported keys', ast)
            return [(st, (None, True))]
        out = []
        for s, e in self.find(st, c, key):
            if e is not None: out.append((s, (e, False))); continue
            e = self.insert_new(s, c, key, ast)
            s.set(e, 'val', v)
            self.I.client_event(s, 'insert', c, e, ast)
            out.append((s, (e, True)))
        return out

    def insert_range(self, st, c, a, b, ast):
        """Range insertion in a set: contents become unknown except for what is listed."""
        self.I.client_event(st, 'insert_range', c, a, b, ast)
        st.update(c, gaps=(), size=fresh('size', 0, BIG))
        st.assume(st.get(c, 'size') - len(st.get(c, 'ents')))
        return [st]

    def map_emplace(self, st, c, key, args, dd, ast, how='emplace'):
        """[(state, (entry, inserted))]"""
        key = self.val(st, key)
        vt = self.I.targ(st.heap[c].t, 1)
        kt = self.I.targ(st.heap[c].t, 0)
        if not isinstance(key, Lin):
            self.I.note_unsupported(st, 'map key', ast)
            return [(st, (None, True))]
        key = self.I.wrap(st, key, kt, ast)
        out = []
        for s, e in self.find(st, c, key):
            if e is not None:
                if how == 'assign':
                    self.I.store(s, Loc(e, 'second') if not isinstance(s.get(e, 'second'), ObjRef) else s.get(e, 'second'), self.val(s, args[0]), ast)
                out.append((s, (e, False))); continue
            e = self.insert_new(s, c, key, ast)
            isptr = self.p.types[self.p.strip(vt)].get('k') == 'ptr'
            if isptr: s.set(e, 'ptr', True)
            if not args:
                s.set(e, 'second', self.I.default_value(s, vt, s.get(c, 'name') + '[]'))
                rs = [s]
            elif len(args) == 1:
                rv = True
                if dd is not None and len(dd.get('params') or []) >= 2:
                    pt = self.p.types[dd['params'][-1]['t']]
                    rv = pt.get('k') != 'ref' or pt.get('rv')
                v = self.val(s, args[0]) if not isptr else (self.val(s, args[0]) if not isinstance(args[0], ObjRef) else args[0])
                if self.I.is_class(vt) and isinstance(v, ObjRef):
                    if s.heap[v.o].kind != self.I.kind_of(vt) and s.heap[v.o].kind != 'vec':
                        rs = []
                        for s2, x in self.build(s, vt, args, ast):
                            s2.set(e, 'second', x); rs.append(s2)
                        for s2 in rs:
                            self.I.client_event(s2, 'insert', c, e, ast); out.append((s2, (e, True)))
                        continue
                    v = ObjRef(self.I.move_obj(s, v.o) if rv else self.I.clone(s, v.o))
                elif self.I.is_class(vt):
                    rs = []
                    for s2, x in self.build(s, vt, args, ast):
                        s2.set(e, 'second', x); rs.append(s2)
                    for s2 in rs:
                        self.I.client_event(s2, 'insert', c, e, ast); out.append((s2, (e, True)))
                    continue
                s.set(e, 'second', v)
                rs = [s]
            else:
                rs = []
                for s2, x in self.build(s, vt, args, ast):
                    s2.set(e, 'second', x); rs.append(s2)
            for s2 in rs:
                self.I.client_event(s2, 'insert', c, e, ast)
                out.append((s2, (e, True)))
        return out

    def build(self, st, t, args, ast):
        """Constructs an object of class type t from arguments. [(state, value)]"""
        rid = self.p.rec_of(t)
        best = None
        for d, dd in self.p.decls.items():
            if dd.get('rec') == rid and dd['k'] == 'func' and dd.get('ctor') and not dd.get('deleted') and len(dd['params']) == len(args):
                if len(args) == 1 and dd['ctor'] == 'copy' : best = best or d
                elif dd['ctor'] == 'copy': continue
                else: best = d
        kind = self.I.rec_kind(rid)
        if best is None or kind != 'rec':
            fake = {'q': self.p.records[rid]['q'] + '::<ctor>', 'ctor': 'other', 'params': [], 'n': '<ctor>'}
            if kind == 'pair': return self.make_pair(st, rid, args, ast)
            a = dict(ast or {}); a['t'] = t
            return self.construct(st, None, fake, rid, kind, args, a)
        return self.I.construct(st, None, best, args, ast)

    # ------------------------------------------------------------ calls
    def call(self, st, d, dd, this, args, ast):
        q = dd.get('q', '') or dd['n']
        n = dd['n']
        I = self.I
        try:
            if this is not None or ('rec' in dd and not dd.get('static')):
                r = self.method(st, d, dd, q, n, this, args, ast)
            else:
                r = self.free(st, d, dd, q, n, args, ast)
        except Unsupported as e:
            I.note_unsupported(st, str(e), ast)
            r = None
        if r is None:
            if not dd.get('repo'): self.havoc_args(st, args + ([this] if this is not None else []))
            I.note_unsupported(st, 'call of ' + q, ast)
            v = self.result(st, dd, n)
            return [(st, v)]
        return r

    def result(self, st, dd, n):
        t = dd['ret']
        ty = self.p.types[t]
        if ty.get('k') == 'void': return NULL
        v = self.I.symbolic(st, t, n)
        if ty.get('k') == 'ref' and not isinstance(v, ObjRef): v = Loc(st.alloc('cell', None, {'v': v}), 'v')
        return v

    def havoc_args(self, st, args):
        for a in args:
            if isinstance(a, ObjRef) and a.o in st.heap:
                ob = st.heap[a.o]
                if ob.kind == 'vec':
                    b = self.buf_of(st, a)
                    st.update(b, size=fresh('size', 0, BIG), gen=new_oid(), w=())
                elif ob.kind in CONT:
                    st.update(a.o, ents=(), gaps=(), size=fresh('size', 0, BIG))
            elif isinstance(a, Loc) and a.o in st.heap:
                v = st.get(a.o, a.k)
                if isinstance(v, Lin): st.set(a.o, a.k, fresh('havoc'))
            elif isinstance(a, Ptr) and a.b in st.heap: self.touch(st, a.b)

    def method(self, st, d, dd, q, n, this, args, ast):
        I = self.I
        # user handlers
        if q.startswith('vdrv::packet_sink'):
            if len(args) >= 2:
                st.emit('write', self.chunk(st, args[0], args[1], ast), self.p.loc(ast['l']))
                I.client_event(st, 'sink', 'write', args, ast)
            else:
                st.emit('end', self.p.loc(ast['l']))
                I.client_event(st, 'sink', 'end', args, ast)
            return self.maybe_throw(st, ast)
        if q.startswith('vdrv::data_sink'):
            c = self.chunk(st, args[0], args[1], ast)
            st.emit('data', c, self.p.loc(ast['l']))
            I.client_event(st, 'sink', 'data', args, ast)
            return self.maybe_throw(st, ast)
        if isinstance(this, Loc):
            tv = I.load(st, this)
        elif isinstance(this, Elem): tv = I.load(st, this)
        else: tv = this
        if isinstance(tv, ObjRef) and tv.o in st.heap:
            ob = st.heap[tv.o]
            if ob.f.get('dead') and ob.kind in ('vec',) + CONT:
                I.client_event(st, 'use_after_free', tv, ast); self.dead_end(st)
            k = ob.kind
            if k == 'vec': return self.m_vec(st, tv, n, args, ast, dd)
            if k in ('map', 'set', 'list'): return self.m_cont(st, tv.o, k, n, args, ast, dd)
            if k == 'opt': return self.m_opt(st, tv.o, n, args, ast, dd)
            if k == 'func': return self.m_func(st, tv.o, n, args, ast, dd)
            if k == 'closure' and n == 'operator()': return I.call_closure(st, tv, args, ast)
            if k == 'stream': return self.m_stream(st, tv.o, n, args, ast, dd)
            if k == 'pair' and n == 'operator=':
                v = self.val(st, args[0])
                if isinstance(v, ObjRef): I.assign_obj(st, tv.o, v.o, True)
                return [(st, tv)]
            if k == 'rec' and n == 'operator=' and isinstance(self.val(st, args[0]), ObjRef):
                I.assign_obj(st, tv.o, self.val(st, args[0]).o, False)
                return [(st, tv)]
        if 'exception' in q or 'error' in q:
            if n == 'what': return [(st, Opq(('str', 'what')))]
        if n == 'operator=' and isinstance(this, (Loc, Elem)):
            I.store(st, this, self.val(st, args[0]), ast)
            return [(st, this)]
        if isinstance(tv, (It, Ptr, Ins)) or (isinstance(tv, Opq) and 'iterator' in q):
            return self.m_iter(st, this, tv, n, args, ast, dd)
        if 'chrono' in q and isinstance(tv, Lin):
            u = I.rec_unit(dd['rec']) if dd.get('rec') is not None else None
            if n == 'count' and u:
                return [(st, self.ticks(st, tv, u))]
            if n == 'time_since_epoch': return [(st, tv)]
            if n in ('operator+=', 'operator-=') and isinstance(this, (Loc, Elem)) and isinstance(self.val(st, args[0]), Lin):
                x = self.val(st, args[0])
                I.store(st, this, tv + x if n == 'operator+=' else tv - x, ast)
                return [(st, this)]
        if isinstance(tv, Opq):
            if 'chrono' in q:
                if n == 'operator=' : return [(st, this)]
                return [(st, self.result(st, dd, n))]
            if tv.tag and tv.tag[0] in ('fn', 'handler'):
                return self.maybe_throw(st, ast)
            if n in ('operator bool', '<conv>'):
                return [(st, ONE), (st.copy(), ZERO)]
        if 'chrono' in q: return [(st, self.result(st, dd, n))]
        if 'allocator' in q: return [(st, this)]
        if dd.get('dtor') or n.startswith('~'): return [(st, NULL)]
        return None

    def chunk(self, st, p, n, ast):
        """Description of bytes handed to a handler."""
        p = self.val(st, p); n = self.val(st, n)
        if isinstance(p, SPtr):
            return ('scalar', self.I.load(st, p.loc), n, p.size, p.off)
        if isinstance(p, Ptr):
            self.access(st, p.b, p.off, n, 'r', ast)
            return ('bytes', p.b, st.get(p.b, 'gen'), p.off, n)
        return ('opaque', p, n)

    def maybe_throw(self, st, ast):
        if self.I.client and self.I.client.handlers_throw:
            s2 = st.copy()
            s2.exc = ('handler', None, ast['l'])
            return [(st, NULL), (s2, None)]
        return [(st, NULL)]

    # ------------------------------------------------------------ std::vector
    def m_vec(self, st, v, n, args, ast, dd):
        I = self.I
        b = self.buf_of(st, v)
        size = st.get(b, 'size')
        if n == 'size': return [(st, size)]
        if n == 'length': return [(st, size)]
        if n == 'empty': return [(s, ONE if r else ZERO) for s, r in I.cmp(st, '==', size, ZERO)]
        if n == 'data': return [(st, Ptr(b, ZERO))]
        if n == 'c_str': return [(st, Ptr(b, ZERO))]
        if n in ('begin', 'cbegin'): return [(st, Ptr(b, ZERO))]
        if n in ('end', 'cend'): return [(st, Ptr(b, size))]
        if n == 'capacity':
            k = memo(('cap', b, size), 'cap', 0, BIG)
            st.assume(k - size)
            return [(st, k)]
        if n in ('reserve', 'shrink_to_fit'):
            if n == 'reserve': I.client_event(st, 'alloc', v.o, ast)
            return [(st, NULL)]
        if n in ('operator[]', 'at'):
            i = self.val(st, args[0])
            if n == 'at':
                out = []
                for s, ok in I.cmp(st, '<', i, size):
                    if ok: out.append((s, Elem(b, i)))
                    else:
                        s.exc = ('std::out_of_range', None, ast['l']); out.append((s, None))
                return out
            return [(st, Elem(b, i))] if not self.elem_class(st, b) else [(st, self.load_elem(st, Elem(b, i), None, ast))]
        if n in ('front', 'back'):
            off = ZERO if n == 'front' else size - 1
            return [(st, Elem(b, off))] if not self.elem_class(st, b) else [(st, self.load_elem(st, Elem(b, off), None, ast))]
        if n == 'clear':
            st.update(b, size=ZERO, w=(), gen=new_oid())
            I.client_event(st, 'vec_clear', v.o, ast)
            st.emit('vclear', b, self.p.loc(ast['l']))
            return [(st, NULL)]
        if n == 'resize':
            m = self.val(st, args[0])
            I.client_event(st, 'resize', v.o, size, m, [self.val(st, a) for a in args[1:]], ast)
            st.update(b, size=m)
            g = st.get(b, 'gen')
            st.emit('resize', b, size, m, self.p.loc(ast['l']))
            return [(st, NULL)]
        if n in ('push_back', 'emplace_back'):
            et = st.get(b, 'et')
            if et is not None and self.I.is_class(et):
                out = []
                rid = self.p.rec_of(et)
                if self.I.rec_kind(rid) == 'pair': rs = self.make_pair(st, rid, args, ast)
                else: rs = self.build(st, et, args, ast)
                for s, x in rs:
                    if not s.exc: self.push(s, b, x, ast)
                    out.append((s, x if n == 'emplace_back' else NULL))
                return out
            x = self.val(st, args[0]) if args else ZERO
            if isinstance(x, Lin) and et is not None: x = self.take(st, x, et, True, ast)
            self.push(st, b, x, ast)
            return [(st, NULL)]
        if n == 'pop_back':
            st.update(b, size=size - 1)
            return [(st, NULL)]
        if n == 'assign':
            vs = [self.val(st, a) for a in args]
            if isinstance(vs[0], Lin):
                st.update(b, size=vs[0], gen=new_oid(), w=(), fill=vs[1] if len(vs) > 1 else None)
                I.client_event(st, 'vec_assign', v.o, vs, ast)
            elif isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
                m = vs[1].off - vs[0].off
                self.access(st, vs[0].b, vs[0].off, m, 'r', ast)
                st.update(b, size=m, gen=new_oid(), w=())
                st.emit('copy', vs[0], Ptr(b, ZERO), m, self.p.loc(ast['l']))
            else: return None
            return [(st, NULL)]
        if n == 'operator=':
            src = self.val(st, args[0])
            if isinstance(src, ObjRef) and st.heap[src.o].kind == 'vec':
                pt = self.p.types[dd['params'][0]['t']]
                I.assign_obj(st, v.o, src.o, bool(pt.get('rv')))
                return [(st, v)]
            return None
        if n == 'swap':
            o = self.val(st, args[0])
            x, y = st.get(v.o, 'buf'), st.get(o.o, 'buf')
            st.set(v.o, 'buf', y); st.set(o.o, 'buf', x)
            return [(st, NULL)]
        if n == 'insert' and len(args) == 3:
            pos, f, l = (self.val(st, a) for a in args)
            if isinstance(f, Ptr) and isinstance(l, Ptr):
                m = l.off - f.off
                self.access(st, f.b, f.off, m, 'r', ast)
                st.emit('copy', f, pos, m, self.p.loc(ast['l']))
                st.update(b, size=size + m, gen=new_oid(), w=())
                return [(st, pos)]
            return None
        if n == 'erase':
            if len(args) == 1:
                st.update(b, size=size - 1, gen=new_oid(), w=()); return [(st, self.val(st, args[0]))]
            f, l = (self.val(st, a) for a in args)
            if isinstance(f, Ptr) and isinstance(l, Ptr):
                st.update(b, size=size - (l.off - f.off), gen=new_oid(), w=()); return [(st, f)]
            return None
        return None

    def elem_class(self, st, b):
        et = st.get(b, 'et')
        return et is not None and self.I.is_class(et)

    def push(self, st, b, x, ast):
        size = st.get(b, 'size')
        w = st.get(b, 'w') or ()
        if len(w) > 12: w = ()
        st.update(b, size=size + 1, w=w + ((size, x),))
        st.emit('push', b, x, self.p.loc(ast['l']))
        self.I.client_event(st, 'push', b, x, ast)

    # ------------------------------------------------------------ maps, sets, lists
    def m_cont(self, st, c, k, n, args, ast, dd):
        I = self.I
        size = st.get(c, 'size')
        one = lambda rs: [(s, It(c, e)) for s, e in rs]
        if n == 'size': return [(st, size)]
        if n == 'empty':
            if st.get(c, 'ents'): return [(st, ZERO)]
            out = []
            for s, r in I.cmp(st, '==', size, ZERO):
                if r: self.add_gap(s, c, None, None)
                out.append((s, ONE if r else ZERO))
            return out
        if n in ('begin', 'cbegin'): return one(self.succ(st, c, None))
        if n in ('end', 'cend'): return [(st, It(c, None))]
        if n in ('rbegin', 'crbegin'): return [(s, It(c, e, True)) for s, e in self.pred(st, c, None)]
        if n in ('rend', 'crend'): return [(st, It(c, None, True))]
        if n == 'find':
            key = self.set_key(st, c, args[0])
            return one(self.find(st, c, key))
        if n in ('count', 'contains'):
            key = self.set_key(st, c, args[0])
            return [(s, ONE if e is not None else ZERO) for s, e in self.find(st, c, key)]
        if n == 'lower_bound': return one(self.succ(st, c, self.set_key(st, c, args[0]), strict=False))
        if n == 'upper_bound': return one(self.succ(st, c, self.set_key(st, c, args[0])))
        if n == 'clear':
            I.client_event(st, 'clear', c, ast)
            for e in st.get(c, 'ents'):
                I.client_event(st, 'erase', c, e, ast)
                self.kill(st, e)
            st.update(c, ents=(), gaps=((None, None),), size=ZERO)
            return [(st, NULL)]
        if n in ('reserve', 'shrink_to_fit'): return [(st, NULL)]
        if n == 'swap':
            o = self.val(st, args[0]).o
            x, y = st.heap[c], st.heap[o]
            st.heap[c] = Obj(x.kind, x.t, dict(y.f)); st.heap[o] = Obj(y.kind, y.t, dict(x.f))
            return [(st, NULL)]
        if n == 'operator=':
            src = self.val(st, args[0])
            if isinstance(src, ObjRef) and st.heap[src.o].kind == k:
                pt = self.p.types[dd['params'][0]['t']]
                keep = {x: st.get(c, x) for x in ('role', 'name', 'owner') if st.get(c, x) is not None}
                I.assign_obj(st, c, src.o, bool(pt.get('rv')))
                for x, y in keep.items(): st.set(c, x, y)
                return [(st, ObjRef(c))]
            return None
        if k == 'list': return self.m_list(st, c, n, args, ast, dd)
        if n == 'operator[]':
            rs = self.map_emplace(st, c, args[0], [], None, ast)
            return [(s, self.second(s, e)) for s, (e, ins) in rs]
        if n == 'at':
            out = []
            for s, e in self.find(st, c, self.set_key(st, c, args[0])):
                if e is None: s.exc = ('std::out_of_range', None, ast['l']); out.append((s, None))
                else: out.append((s, self.second(s, e)))
            return out
        if n in ('emplace', 'insert', 'emplace_hint', 'try_emplace', 'insert_or_assign'):
            a = list(args)
            hint = False
            if n == 'emplace_hint' or (n == 'insert' and len(a) == 2 and isinstance(self.val(st, a[0]), It) and self.val(st, a[0]).c == c):
                a = a[1:]; hint = True
            if k == 'set':
                if n == 'insert' and len(a) == 2 and not hint:
                    return [(s, NULL) for s in self.insert_range(st, c, self.val(st, a[0]), self.val(st, a[1]), ast)]
                v0 = self.val(st, a[0]) if a else None
                if n == 'insert' and isinstance(v0, ObjRef) and st.heap[v0.o].kind == 'vec': return None
                rs = self.insert_value(st, c, a[0], ast)
            else:
                if n == 'insert':
                    v0 = self.val(st, a[0])
                    if not (isinstance(v0, ObjRef) and st.heap[v0.o].kind == 'pair'): return None
                    f = st.heap[v0.o].f
                    rs = self.map_emplace(st, c, f['first'], [f['second']], None, ast)
                else:
                    rs = self.map_emplace(st, c, a[0], a[1:], dd, ast, 'assign' if n == 'insert_or_assign' else 'emplace')
            out = []
            for s, (e, ins) in rs:
                if s.exc: out.append((s, None)); continue
                it = It(c, e)
                if hint: out.append((s, it))
                else:
                    rt = dd['ret']
                    rid = self.p.rec_of(rt)
                    out.append((s, ObjRef(s.alloc('pair', rid, {'first': it, 'second': ONE if ins else ZERO}))))
            return out
        if n == 'erase':
            vs = [self.val(st, a) for a in args]
            if len(vs) == 2: return self.erase_range(st, c, vs[0], vs[1], ast)
            v = vs[0]
            if isinstance(v, It) and v.c == c:
                if v.e is None:
                    I.client_event(st, 'deref_end', c, ast); self.dead_end(st)
                    return [(st, v)]
                if v.e not in st.heap or st.get(v.e, 'dead'):
                    I.client_event(st, 'use_after_erase', c, v.e, ast); self.dead_end(st)
                    return [(st, It(c, None))]
                key = self.key_of(st, v.e)
                self.erase_entry(st, c, v.e, ast)
                # the successor is computed lazily when it is used
                if self.used(ast): return one(self.succ(st, c, key))
                return [(st, Opq(('it',)))]
            key = self.set_key(st, c, v)
            out = []
            for s, e in self.find(st, c, key):
                if e is not None: self.erase_entry(s, c, e, ast)
                out.append((s, ONE if e is not None else ZERO))
            return out
        if n in ('equal_range', 'merge', 'extract', 'nth', 'key_comp', 'value_comp'): return None
        return None

    def used(self, ast):
        """Is the value of the call used? Expression statements are marked by the interpreter."""
        return not ast.get('_discard')

    def set_key(self, st, c, v):
        v = self.val(st, v)
        if isinstance(v, It):
            if v.e is None: return fresh('k', 0, (1 << 32) - 1)
            return self.key_of(st, v.e)
        if not isinstance(v, Lin): raise Unsupported('key %r' % (v,))
        return v

    def second(self, st, e):
        v = st.get(e, 'second')
        if isinstance(v, ObjRef) and not st.get(e, 'ptr'): return v
        return Loc(e, 'second')

    def erase_range(self, st, c, a, b, ast):
        if not (isinstance(a, It) and isinstance(b, It)): return None
        if a.e is None and b.e is None: return [(st, b)]
        if a.e is None:
            # begin() of an empty container, otherwise an error
            return [(st, b)]
        lo = self.key_of(st, a.e)
        hi = None if b.e is None else self.key_of(st, b.e) - 1
        if hi is not None and st.entails(lo - hi - 1): return [(st, b)]
        return [(s, b) for s in self.erase_between(st, c, lo, hi, ast)]

    def m_list(self, st, c, n, args, ast, dd):
        I = self.I
        if n in ('emplace_back', 'push_back'):
            et = I.targ(st.heap[c].t, 0)
            out = []
            if n == 'push_back':
                v = self.val(st, args[0])
                pt = self.p.types[dd['params'][0]['t']]
                rs = [(st, ObjRef(I.move_obj(st, v.o) if pt.get('rv') else I.clone(st, v.o)))]
            else: rs = self.build(st, et, args, ast)
            for s, v in rs:
                if s.exc: out.append((s, None)); continue
                key = I.client.list_key(I, s, v) if I.client else fresh('pos')
                I.client_event(s, 'list_push', c, key, v, ast)
                e = self.insert_new(s, c, key, ast)
                s.set(e, 'second', v)
                I.client_event(s, 'insert', c, e, ast)
                out.append((s, v if n == 'emplace_back' else NULL))
            return out
        if n in ('front', 'back'):
            rs = self.succ(st, c, None) if n == 'front' else self.pred(st, c, None)
            out = []
            for s, e in rs:
                if e is None:
                    I.client_event(s, 'deref_end', c, ast); self.dead_end(s)
                    out.append((s, I.symbolic(s, I.targ(s.heap[c].t, 0), 'front')))
                else: out.append((s, s.get(e, 'second')))
            return out
        if n in ('pop_front', 'pop_back'):
            rs = self.succ(st, c, None) if n == 'pop_front' else self.pred(st, c, None)
            out = []
            for s, e in rs:
                if e is None:
                    I.client_event(s, 'deref_end', c, ast); self.dead_end(s)
                else: self.erase_entry(s, c, e, ast)
                out.append((s, NULL))
            return out
        if n == 'erase':
            vs = [self.val(st, a) for a in args]
            if len(vs) == 2: return self.erase_range(st, c, vs[0], vs[1], ast)
            v = vs[0]
            if not isinstance(v, It): return None
            if v.e is None:
                I.client_event(st, 'deref_end', c, ast); self.dead_end(st); return [(st, v)]
            if v.e not in st.heap or st.get(v.e, 'dead'):
                I.client_event(st, 'use_after_erase', c, v.e, ast); self.dead_end(st); return [(st, It(c, None))]
            key = self.key_of(st, v.e)
            self.erase_entry(st, c, v.e, ast)
            if self.used(ast): return [(s, It(c, e)) for s, e in self.succ(st, c, key)]
            return [(st, Opq(('it',)))]
        if n == 'remove_if':
            # every element may be tested: the predicate runs on an arbitrary element
            return None
        return None

    # ------------------------------------------------------------ optional, function, streams
    def m_opt(self, st, o, n, args, ast, dd):
        I = self.I
        if n in ('<conv>', 'operator bool', 'is_initialized', 'has_value'):
            return [(st, st.get(o, 'has'))]
        if n == 'operator!':
            return [(s, ONE if r else ZERO) for s, r in I.cmp(st, '==', st.get(o, 'has'), ZERO)]
        if n in ('operator*', 'get', 'value', 'operator->'):
            I.client_event(st, 'opt_deref', o, ast)
            x = st.get(o, 'val')
            return [(st, x if isinstance(x, ObjRef) else Loc(o, 'val'))]
        if n == 'operator=':
            v = self.val(st, args[0])
            if isinstance(v, ObjRef) and st.heap[v.o].kind == 'opt':
                st.update(o, has=st.get(v.o, 'has'), val=st.get(v.o, 'val'))
            elif isinstance(v, Opq) or (isinstance(v, ObjRef) and 'none' in str(self.p.types[dd['params'][0]['t']]['s'])):
                st.update(o, has=ZERO, val=Opq(('novalue',)))
            else: st.update(o, has=ONE, val=v)
            I.client_event(st, 'opt_set', o, ast)
            if I.client: I.client.on_store(I, st, Loc(o, 'val'), st.get(o, 'val'), ast)
            return [(st, ObjRef(o))]
        if n == 'reset':
            st.update(o, has=ZERO, val=Opq(('novalue',)))
            return [(st, NULL)]
        if n in ('get_value_or', 'value_or'):
            out = []
            for s, r in I.cmp(st, '==', st.get(o, 'has'), ZERO):
                out.append((s, self.val(s, args[0]) if r else s.get(o, 'val')))
            return out
        return None

    def m_func(self, st, o, n, args, ast, dd):
        I = self.I
        if n == 'operator()':
            t = st.get(o, 'target')
            if isinstance(t, ObjRef) and t.o in st.heap and st.heap[t.o].kind == 'closure':
                return I.call_closure(st, t, args, ast)
            if isinstance(t, Fn): return I.call(st, t.d, None, args, ast)
            st.emit('callback', tuple(args), self.p.loc(ast['l']))
            I.client_event(st, 'callback', args, ast)
            return self.maybe_throw(st, ast)
        if n in ('<conv>', 'operator bool'): return [(st, ONE)]
        if n == 'operator=':
            v = self.val(st, args[0])
            st.set(o, 'target', st.get(v.o, 'target') if isinstance(v, ObjRef) and st.heap[v.o].kind == 'func' else v)
            return [(st, ObjRef(o))]
        return None

    def m_stream(self, st, o, n, args, ast, dd):
        I = self.I
        if n == 'write':
            st.emit('owrite', self.chunk(st, args[0], args[1], ast), self.p.loc(ast['l']))
            return [(st, ObjRef(o))]
        if n == 'read':
            p, m = self.val(st, args[0]), self.val(st, args[1])
            if isinstance(p, SPtr):
                v = fresh('in', 0, (1 << (8 * (p.size or 8))) - 1)
                I.store(st, p.loc, v, ast)
                st.emit('iread', ('scalar', v, m, p.size), self.p.loc(ast['l']))
            elif isinstance(p, Ptr):
                self.access(st, p.b, p.off, m, 'w', ast)
                self.touch(st, p.b)
                st.emit('iread', ('bytes', p.b, p.off, m), self.p.loc(ast['l']))
            else: return None
            return [(st, ObjRef(o))]
        if n in ('get',):
            v = fresh('in', -1, 255)
            st.emit('iread', ('scalar', v, ONE, 1), self.p.loc(ast['l']))
            return [(st, v)]
        if n in ('put',):
            st.emit('owrite', ('scalar', self.val(st, args[0]), ONE, 1, ZERO), self.p.loc(ast['l']))
            return [(st, ObjRef(o))]
        if n in ('good', 'fail', 'eof', 'bad', '<conv>', 'operator!', 'operator bool'):
            return [(st, ONE), (st.copy(), ZERO)]
        return None

    # ------------------------------------------------------------ iterator objects
    def m_iter(self, st, this, v, n, args, ast, dd):
        I = self.I
        def upd(rs, post):
            out = []
            for s, x in rs:
                if isinstance(this, (Loc, Elem)): I.store(s, this, x, ast)
                out.append((s, v if post else (this if isinstance(this, (Loc, Elem)) else x)))
            return out
        if n == 'operator*': return [(st, self.deref(st, v, ast))]
        if n == 'operator->':
            x = self.deref(st, v, ast)
            if isinstance(x, Elem): x = self.load_elem(st, x, None, ast)
            return [(st, x)]
        if n == 'operator++': return upd(self.forward(st, v, ast), bool(args))
        if n == 'operator--': return upd(self.backward(st, v, ast), bool(args))
        if n in ('operator+', 'operator-', 'operator+=', 'operator-=') and args:
            k = self.val(st, args[0])
            if isinstance(v, Ptr) and isinstance(k, Ptr) and n == 'operator-':
                return [(st, v.off - k.off if v.b == k.b else fresh('diff'))]
            if isinstance(k, Lin):
                rs = self.advance(st, v, k if '+' in n else -k, ast)
                if rs is None: return None
                if n.endswith('='): return upd(rs, False)
                return rs
            return None
        if n == 'operator[]':
            k = self.val(st, args[0])
            if isinstance(v, Ptr): return [(st, Elem(v.b, v.off + k))]
            return None
        if n == 'base':
            if isinstance(v, It) and v.rev:
                if v.e is None: return [(s, It(v.c, e)) for s, e in self.succ(st, v.c, None)]
                return [(s, It(v.c, e)) for s, e in self.succ(st, v.c, self.key_of(st, v.e))]
            return [(st, v)]
        if n == 'operator=':
            if isinstance(v, Ins):
                return self.through(st, v, args[0], ast)
            if isinstance(this, (Loc, Elem)): I.store(st, this, self.val(st, args[0]), ast)
            return [(st, this)]
        if n in ('operator==', 'operator!='):
            return [(s, ONE if r == (n == 'operator==') else ZERO) for s, r in self.same_it(st, v, self.val(st, args[0]))]
        return None

    def through(self, st, ins, v, ast):
        """Assignment through an inserter."""
        v = self.val(st, v)
        if isinstance(ins.o, ObjRef) and st.heap[ins.o.o].kind == 'vec':
            self.push(st, self.buf_of(st, ins.o), v, ast)
            return [(st, ins)]
        if isinstance(ins.o, ObjRef) and st.heap[ins.o.o].kind == 'set':
            return [(s, ins) for s, _ in self.insert_value(st, ins.o.o, v, ast)]
        return None

    def advance(self, st, v, k, ast):
        if isinstance(v, Ptr): return [(st, Ptr(v.b, v.off + k))]
        if isinstance(v, SPtr): return [(st, SPtr(v.loc, v.size, v.off + k))]
        if isinstance(v, It):
            if k.is_const() and abs(k.c) <= 3:
                rs = [(st, v)]
                for _ in range(abs(k.c)):
                    rs = [y for s, x in rs for y in (self.forward(s, x, ast) if k.c > 0 else self.backward(s, x, ast))]
                return rs
            # arbitrary element: forks between any element and end
            I = self.I
            size = st.get(v.c, 'size')
            r = self.any_element(st, v.c, ast, k)
            return r
        return None

    def any_element(self, st, c, ast, idx=None):
        """An iterator on some element of c (advance by an unknown distance from the beginning).
        The distance must be less than the size, otherwise the iterator may be end()."""
        out = []
        size = st.get(c, 'size')
        inside = idx is not None and st.entails(size - 1 - idx) and st.entails(idx)
        for e in st.get(c, 'ents'):
            out.append((st.copy(), It(c, e)))
        s2 = st.copy()
        if s2.le(s2.get(c, 'size'), const(len(s2.get(c, 'ents')))) is not True:
            k = self.fresh_key(s2, c)
            ok = True
            for e in s2.get(c, 'ents'):
                ok = ok and s2.assume_neq(k, self.key_of(s2, e))
            if ok:
                for s3 in self.outside_gaps(s2, c, k):
                    out += [(s4, It(c, e)) for s4, e in self.new_entry(s3, c, k)]
        if not inside: out.append((st, It(c, None)))
        return out

    # ------------------------------------------------------------ time (in nanoseconds)
    def ticks(self, st, v, u):
        if v.c % u == 0 and all(k % u == 0 for _, k in v.t): return Lin(tuple((q, k // u) for q, k in v.t), v.c // u)
        q = memo(('ticks', v, u), 'ticks', -(1 << 62), 1 << 62)
        st.assume(v - q.scale(u) + (u - 1)); st.assume(q.scale(u) + (u - 1) - v)
        return q

    def chrono(self, st, dd, n, vs, ast):
        I = self.I
        ok = all(isinstance(v, Lin) for v in vs)
        if n in ('duration_cast', 'time_point_cast', 'floor') and ok and len(vs) == 1:
            u = I.time_unit(dd['ret'])
            if u: return [(st, self.ticks(st, vs[0], u).scale(u))]
        if n in ('operator+', 'operator-') and ok and len(vs) == 2:
            return [(st, vs[0] + vs[1] if n == 'operator+' else vs[0] - vs[1])]
        if n == 'operator*' and ok and len(vs) == 2 and (vs[0].is_const() or vs[1].is_const()):
            return [(st, vs[1].scale(vs[0].c) if vs[0].is_const() else vs[0].scale(vs[1].c))]
        return None

    # ------------------------------------------------------------ free functions
    def free(self, st, d, dd, q, n, args, ast):
        I = self.I
        V = lambda i: self.val(st, args[i])
        if 'chrono' in q:
            r = self.chrono(st, dd, n, [self.val(st, a) for a in args], ast)
            if r is not None: return r
        if n in ('move', 'forward', 'as_const', 'addressof', 'ref', 'cref') and len(args) == 1:
            return [(st, args[0])]
        if n in ('operator==', 'operator!=') and len(args) == 2:
            a, b = V(0), V(1)
            if isinstance(a, Lin) and isinstance(b, Lin):
                return [(s, ONE if r == (n == 'operator==') else ZERO) for s, r in I.cmp(st, '==', a, b)]
            if 'chrono' in q or isinstance(a, Opq) or isinstance(b, Opq):
                I.client_event(st, 'opaque_branch', q, ast)
                return [(st, ONE), (st.copy(), ZERO)]
            if isinstance(a, ObjRef) and isinstance(b, ObjRef) and st.heap[a.o].kind == 'opt':
                return [(st, ONE), (st.copy(), ZERO)]
            if isinstance(a, ObjRef) and st.heap[a.o].kind == 'opt' and isinstance(b, Lin):
                out = []
                for s, r in I.cmp(st, '==', st.get(a.o, 'has'), ONE):
                    if not r: out.append((s, ONE if n == 'operator!=' else ZERO)); continue
                    for s2, r2 in I.cmp(s, '==', s.get(a.o, 'val'), b): out.append((s2, ONE if r2 == (n == 'operator==') else ZERO))
                return out
            return [(s, ONE if r == (n == 'operator==') else ZERO) for s, r in self.same_it(st, a, b)]
        if n in ('operator<', 'operator<=', 'operator>', 'operator>=') and len(args) == 2:
            a, b = V(0), V(1)
            if isinstance(a, Lin) and isinstance(b, Lin):
                return [(s, ONE if r else ZERO) for s, r in I.cmp(st, n[8:], a, b)]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                return [(s, ONE if r else ZERO) for s, r in I.cmp(st, n[8:], a.off, b.off)]
            if isinstance(a, ObjRef) and st.heap[a.o].kind == 'opt' or isinstance(b, ObjRef) and st.heap[b.o].kind == 'opt':
                return self.opt_compare(st, n[8:], a, b)
            I.client_event(st, 'opaque_branch', q, ast)
            return [(st, ONE), (st.copy(), ZERO)]
        if n == 'operator-' and len(args) == 2:
            a, b = V(0), V(1)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b: return [(st, a.off - b.off)]
            return [(st, self.result(st, dd, n))]
        if n in ('operator+', 'operator*', 'operator/') and 'chrono' in q: return [(st, self.result(st, dd, n))]
        if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'data', 'empty'):
            v = V(0)
            if isinstance(v, ObjRef) and v.o in st.heap:
                k = st.heap[v.o].kind
                if k == 'vec': return self.m_vec(st, v, n, [], ast, dd)
                if k in CONT: return self.m_cont(st, v.o, k, n, [], ast, dd)
                if k == 'rec':
                    for m in self.p.methods(st.heap[v.o].t, n):
                        if not self.p.decls[m]['params']: return I.call(st, m, v, [], ast)
            return None
        if n in ('next', 'prev'):
            v = V(0)
            k = V(1) if len(args) > 1 else ONE
            return self.advance(st, v, k if n == 'next' else -k, ast)
        if n == 'advance':
            v, k = V(0), V(1)
            rs = self.advance(st, v, k, ast)
            if rs is None: return None
            out = []
            for s, x in rs:
                I.store(s, args[0], x, ast); out.append((s, NULL))
            return out
        if n == 'distance':
            a, b = V(0), V(1)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b: return [(st, b.off - a.off)]
            if isinstance(a, It) and isinstance(b, It):
                x = fresh('dist', 0, BIG)
                st.assume(st.get(a.c, 'size') - x)
                return [(st, x)]
            if isinstance(a, Opq): return [(st, fresh('dist', 0, BIG))]
            return None
        if n in ('min', 'max') and len(args) >= 2:
            a, b = V(0), V(1)
            if isinstance(a, Lin) and isinstance(b, Lin):
                out = []
                for s, r in I.cmp(st, '<=', a, b):
                    x = (a if r else b) if n == 'min' else (b if r else a)
                    out.append((s, Loc(s.alloc('cell', None, {'v': x}), 'v')))
                return out
            return None
        if n == 'swap' and len(args) == 2:
            a, b = args
            if isinstance(a, (Loc, Elem)) and isinstance(b, (Loc, Elem)):
                x, y = I.load(st, a), I.load(st, b)
                I.store(st, a, y, ast); I.store(st, b, x, ast)
                return [(st, NULL)]
            if isinstance(a, ObjRef) and isinstance(b, ObjRef):
                st.heap[a.o], st.heap[b.o] = st.heap[b.o], st.heap[a.o]
                return [(st, NULL)]
            return None
        if n == 'exchange' and len(args) == 2:
            old = I.load(st, args[0]) if isinstance(args[0], (Loc, Elem)) else None
            if old is None: return None
            I.store(st, args[0], V(1), ast)
            return [(st, old)]
        if n == 'make_pair':
            return self.make_pair(st, self.p.rec_of(dd['ret']), args, ast, dd)
        if n == 'back_inserter': return [(st, Ins(args[0], 'back'))]
        if n in ('inserter', 'front_inserter'): return [(st, Ins(args[0], 'ins'))]
        if n in ('native_to_big', 'big_to_native', 'native_to_little', 'little_to_native', 'endian_reverse', 'htons', 'htonl', 'ntohs', 'ntohl', '__bswap_16', '__bswap_32', '__builtin_bswap16', '__builtin_bswap32'):
            return self.endian(st, n, V(0), dd, ast)
        if n in ('copy', 'copy_n', 'memcpy', 'memmove', 'copy_backward', 'copy_if', '__builtin_memcpy', 'uninitialized_copy'): return self.copy(st, n, args, ast)
        if n in ('fill', 'fill_n', 'memset'): return self.fill(st, n, args, ast)
        if n in ('all_of', 'any_of', 'none_of', 'find_if', 'find_if_not', 'find', 'count_if', 'count', 'for_each', 'binary_search', 'lower_bound', 'upper_bound'):
            return self.algorithm(st, n, args, ast, dd)
        if n in ('adjacent_difference', 'partial_sum', 'transform', 'accumulate', 'set_difference', 'remove_if', 'sort', 'unique', 'remove', 'iota', 'equal'):
            return self.bulk(st, n, args, ast, dd)
        if n == 'ceil' or n == 'floor' or n == 'round':
            f = I.flo(V(0))
            g = math.ceil if n == 'ceil' else math.floor if n == 'floor' else round
            fin = lambda x: None if x is None or math.isnan(x) else x if math.isinf(x) else float(g(x))
            return [(st, Flo(fin(f.lo), fin(f.hi)))]
        if q.startswith('std::numeric_limits'):
            lo, hi = I.range_of(dd['ret'])
            if n == 'max': return [(st, const(hi))]
            if n in ('min', 'lowest'): return [(st, const(lo))]
            return None
        if n == 'strlen':
            return [(st, fresh('strlen', 0, 1 << 31))]
        if n == 'now': return [(st, Opq(('now', new_oid())))]
        if n in ('gf_init_easy',): return [(st, fresh('gfinit', 0, 1))]
        if n in ('gf_free',): return [(st, NULL)]
        if n in ('__builtin_unreachable', 'abort', 'terminate', 'exit', '__assert_fail'):
            I.client_event(st, 'abort', n, ast)
            return []
        if n in ('__builtin_expect',): return [(st, V(0))]
        if n == 'make_optional': return None
        if n == 'construct': return [(st, NULL)]
        if n == 'uncaught_exception' or n == 'uncaught_exceptions': return [(st, ZERO)]
        if n == 'tie' or n == 'ignore': return None
        if n == 'abs' and isinstance(V(0), Lin):
            return [(s, V(0) if r else -V(0)) for s, r in I.cmp(st, '<=', ZERO, V(0))]
        return None

    def opt_compare(self, st, op, a, b):
        """boost::optional relational operators: none is less than any value."""
        out = []
        def split(s, x):
            if isinstance(x, ObjRef) and s.heap[x.o].kind == 'opt':
                return [(s2, None if r else s2.get(x.o, 'val')) for s2, r in self.I.cmp(s, '==', s.get(x.o, 'has'), ZERO)]
            return [(s, x)]
        for s, x in split(st, a):
            for s2, y in split(s, b):
                if x is None or y is None:
                    r = {'<': x is None and y is not None, '<=': x is None, '>': y is None and x is not None, '>=': y is None}[op]
                    out.append((s2, ONE if r else ZERO))
                else: out += [(s3, ONE if r else ZERO) for s3, r in self.I.cmp(s2, op, x, y)]
        return out

    def endian(self, st, n, v, dd, ast):
        if not isinstance(v, Lin): return None
        bits = self.p.types[self.p.strip(dd['ret'])].get('bits', 32)
        if bits == 8: return [(st, v)]
        if 'little' in n and n != 'endian_reverse': return [(st, v)]
        s = v.sym()
        if s is not None and isinstance(SYMS[s].tag, tuple) and SYMS[s].tag[0] == 'bswap' and SYMS[s].tag[1] == bits:
            return [(st, SYMS[s].tag[2])]
        return [(st, memo(('bswap', bits, v), 'be', 0, (1 << bits) - 1))]

    def copy(self, st, n, args, ast):
        I = self.I
        vs = [self.val(st, a) for a in args]
        if n in ('memcpy', 'memmove', '__builtin_memcpy'): dst, src, cnt = vs[0], vs[1], vs[2]
        elif n == 'copy_n': src, cnt, dst = vs[0], vs[1], vs[2]
        elif n in ('copy', 'uninitialized_copy'):
            src, last, dst = vs[0], vs[1], vs[2]
            if isinstance(src, Ptr) and isinstance(last, Ptr) and src.b == last.b: cnt = last.off - src.off
            elif isinstance(src, It) and isinstance(last, It):
                if isinstance(dst, Ins):
                    st.emit('copy_range', src, last, dst, self.p.loc(ast['l']))
                    if isinstance(dst.o, ObjRef) and st.heap[dst.o.o].kind == 'set': self.insert_range(st, dst.o.o, src, last, ast)
                    return [(st, dst)]
                return None
            elif isinstance(src, SPtr) and isinstance(last, SPtr): cnt = last.off - src.off
            elif isinstance(src, Opq): cnt = fresh('n', 0, BIG)
            else: return None
        else: return None
        if not isinstance(cnt, Lin): return None
        loc = self.p.loc(ast['l'])
        if isinstance(src, Ptr) and isinstance(dst, SPtr):
            self.access(st, src.b, src.off, cnt, 'r', ast)
            sz = dst.size
            if cnt.is_const() and sz is not None:
                if cnt.c > sz: I.client_event(st, 'scalar_overflow', cnt, sz, ast)
                if cnt.c == sz and dst.off == ZERO:
                    I.store(st, dst.loc, self.read_bytes(st, src.b, src.off, cnt.c), ast)
                else: I.store(st, dst.loc, fresh('partial', 0, (1 << (8 * sz)) - 1), ast)
            else: I.store(st, dst.loc, fresh('partial', 0, (1 << 64) - 1), ast)
            st.emit('read', src.b, src.off, cnt, loc)
            return [(st, Opq(('it',)) if n == 'copy_n' else dst)]
        if isinstance(src, SPtr) and isinstance(dst, Ptr):
            self.access(st, dst.b, dst.off, cnt, 'w', ast)
            self.touch(st, dst.b)
            return [(st, Ptr(dst.b, dst.off + cnt))]
        if isinstance(src, Ptr) and isinstance(dst, Ptr):
            self.access(st, src.b, src.off, cnt, 'r', ast)
            self.access(st, dst.b, dst.off, cnt, 'w', ast)
            self.touch(st, dst.b)
            st.emit('copy', src, dst, cnt, loc)
            I.client_event(st, 'bulk_copy', src, dst, cnt, ast)
            return [(st, Ptr(dst.b, dst.off + cnt))]
        if isinstance(dst, Ptr):
            self.access(st, dst.b, dst.off, cnt, 'w', ast)
            self.touch(st, dst.b)
            st.emit('copy', src, dst, cnt, loc)
            return [(st, Ptr(dst.b, dst.off + cnt))]
        if isinstance(src, Ptr) and isinstance(dst, Opq):
            self.access(st, src.b, src.off, cnt, 'r', ast)
            st.emit('owrite', ('bytes', src.b, st.get(src.b, 'gen'), src.off, cnt), loc)
            return [(st, dst)]
        if isinstance(src, Ptr) and isinstance(dst, Ins) and isinstance(dst.o, ObjRef):
            self.access(st, src.b, src.off, cnt, 'r', ast)
            if st.heap[dst.o.o].kind == 'vec':
                b = self.buf_of(st, dst.o)
                st.emit('copy', src, Ptr(b, st.get(b, 'size')), cnt, loc)
                st.update(b, size=st.get(b, 'size') + cnt, gen=new_oid(), w=())
                return [(st, dst)]
            if st.heap[dst.o.o].kind == 'set':
                self.insert_range(st, dst.o.o, src, None, ast)
                return [(st, dst)]
        return None

    def read_bytes(self, st, b, off, n):
        """Scalar made of n bytes (native order) at off."""
        ws = st.get(b, 'w') or ()
        if n == 1 and ws:
            return self.load_elem(st, Elem(b, off), None, {'l': None})
        if st.get(b, 'segs') is not None:
            v = self.segment(st, b, off, n)
            if v is not None: return v
        return memo(('cell', st.get(b, 'gen'), off, n), 'in', 0, (1 << (8 * n)) - 1)

    def segment(self, st, b, off, n):
        """Value of n bytes of a storage whose contents are known piecewise: ((off, len, value), ...)."""
        for o, ln, v in st.get(b, 'segs'):
            if st.eq(o, off) is True and st.eq(ln, const(n)) is True and isinstance(v, Lin): return v
        for o, ln, v in st.get(b, 'segs'):
            inside = st.entails(off - o) and st.entails(o + ln - off - n)
            if inside and (not isinstance(v, Lin) or n == 1):
                # bytes of a longer piece: not followed
                if st.imprecise is None: st.imprecise = 'piecewise access of a field'
        return None

    def fill(self, st, n, args, ast):
        vs = [self.val(st, a) for a in args]
        if n == 'fill':
            a, b, x = vs[:3]
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b): return None
            dst, cnt = a, b.off - a.off
        elif n == 'fill_n': dst, cnt, x = vs[:3]
        else: dst, x, cnt = vs[:3]
        if not isinstance(dst, Ptr) or not isinstance(cnt, Lin): return None
        self.access(st, dst.b, dst.off, cnt, 'w', ast)
        self.touch(st, dst.b)
        st.emit('fill', dst, cnt, x, self.p.loc(ast['l']))
        self.I.client_event(st, 'bulk_fill', dst, cnt, x, ast)
        return [(st, NULL if n == 'fill' else dst)]

    def apply(self, st, f, args, ast):
        """Call of a predicate object."""
        f = self.val(st, f)
        if isinstance(f, ObjRef) and f.o in st.heap:
            k = st.heap[f.o].kind
            if k == 'closure': return self.I.call_closure(st, f, args, ast)
            if k == 'func': return self.m_func(st, f.o, 'operator()', args, ast, {})
            if k == 'rec':
                for m in self.p.methods(st.heap[f.o].t, 'operator()'): return self.I.call(st, m, f, args, ast)
        if isinstance(f, Fn): return self.I.call(st, f.d, None, args, ast)
        raise Unsupported('predicate')

    def truths(self, st, v):
        v = self.val(st, v)
        return self.I.truth(st, v)

    def loop_over(self, st, a, b, ast, body):
        """Abstract loop of an algorithm over [a, b): body(state, element) -> [(state, 'next'|('stop', x))].
        The element is arbitrary; one generic iteration is analysed from a state in which earlier
        iterations may have happened (bodies of algorithms used here have no effects on the state)."""
        raise Unsupported('algorithm')

    def algorithm(self, st, n, args, ast, dd):
        I = self.I
        a, b = self.val(st, args[0]), self.val(st, args[1])
        if isinstance(a, It) and isinstance(b, It) and not a.rev and b.e is None:
            c = a.c
            if n == 'find':
                key = self.set_key(st, c, args[2]) if not isinstance(self.val(st, args[2]), ObjRef) else None
                if key is None: return None
                return [(s, It(c, e)) for s, e in self.find(st, c, key)]
            if n in ('binary_search', 'count') and st.heap[c].kind == 'set':
                return [(s, ONE if e is not None else ZERO) for s, e in self.find(st, c, self.set_key(st, c, args[2]))]
            if n in ('all_of', 'any_of', 'none_of', 'find_if', 'find_if_not'):
                want = n in ('any_of', 'none_of', 'find_if')
                out = []
                # (1) some element satisfies (resp. violates): pick an arbitrary one
                for s, it in self.any_element(st.copy(), c, ast):
                    if it.e is None: continue
                    for s2, v in self.apply(s, args[2], [self.it_deref(s, it, ast)], ast):
                        if s2.exc: out.append((s2, None)); continue
                        for s3, r in self.truths(s2, v):
                            if r == want:
                                res = {'all_of': ZERO, 'any_of': ONE, 'none_of': ZERO}.get(n, it)
                                out.append((s3, res))
                # (2) none does: holds for every listed element; quantified fact for the client
                states = [st]
                for e in st.get(c, 'ents'):
                    ns = []
                    for s in states:
                        for s2, v in self.apply(s, args[2], [self.it_deref(s, It(c, e), ast)], ast):
                            if s2.exc: continue
                            for s3, r in self.truths(s2, v):
                                if r != want: ns.append(s3)
                    states = ns
                for s in states:
                    res = {'all_of': ONE, 'any_of': ZERO, 'none_of': ONE}.get(n, It(c, None))
                    for s4 in I.client.forall(I, s, c, n, self.val(s, args[2]), not want, ast) if I.client else [s]:
                        out.append((s4, res))
                return out
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and n in ('find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound'):
            k = fresh('idx', 0, BIG)
            out = []
            s2 = st.copy()
            if s2.assume(k - a.off) and s2.assume(b.off - 1 - k):
                if n == 'find':
                    v = self.load_elem(s2, Elem(a.b, k), None, ast)
                    x = self.val(s2, args[2])
                    if isinstance(v, Lin) and isinstance(x, Lin):
                        if s2.assume_eq(v, x): out.append((s2, Ptr(a.b, k)))
                    else: out.append((s2, Ptr(a.b, k)))
                elif n in ('lower_bound', 'upper_bound'): out.append((s2, Ptr(a.b, k)))
                else:
                    for s3, v in self.apply(s2, args[2], [Elem(a.b, k)], ast):
                        for s4, r in self.truths(s3, v):
                            if r == (n == 'find_if'): out.append((s4, Ptr(a.b, k)))
            out.append((st, Ptr(a.b, b.off)))
            return out
        return None

    def bulk(self, st, n, args, ast, dd):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        st.emit('algo', n, a, b, tuple(self.val(st, x) for x in args[2:]), self.p.loc(ast['l']))
        if n in ('adjacent_difference', 'partial_sum'):
            dst = self.val(st, args[2])
            src_n = None
            if isinstance(a, It): src_n = st.get(a.c, 'size')
            elif isinstance(a, Ptr) and isinstance(b, Ptr): src_n = b.off - a.off
            self.I.client_event(st, 'bulk', n, a, b, dst, ast)
            if isinstance(dst, Ins) and isinstance(dst.o, ObjRef) and src_n is not None:
                k = st.heap[dst.o.o].kind
                if k == 'vec':
                    buf = self.buf_of(st, dst.o)
                    st.update(buf, size=st.get(buf, 'size') + src_n, gen=new_oid(), w=())
                    return [(st, dst)]
                if k == 'set':
                    c = dst.o.o
                    st.update(c, gaps=(), size=fresh('size', 0, BIG))
                    s = st.get(c, 'size')
                    st.assume(s - len(st.get(c, 'ents')))
                    if isinstance(src_n, Lin):
                        st.assume(src_n - s)
                        if st.entails(src_n - 1): st.assume(s - 1)
                    return [(st, dst)]
            return None
        return None

    # ------------------------------------------------------------ function pointers
    def indirect(self, st, ast, f, args):
        """GF-complete operations called through the table of the field."""
        I = self.I
        fn = ast['fn']
        while fn['k'] == 'Cast': fn = fn['e']
        path = []
        x = fn
        while x.get('k') == 'Member':
            path.append(x['m'])
            x = x['b']
            while x.get('k') == 'Cast': x = x['e']
        vs = [self.val(st, a) for a in args]
        if 'multiply_region' in path:
            src, dst, coeff, ln, add = vs[1], vs[2], vs[3], vs[4], vs[5]
            for p_, m in ((src, 'r'), (dst, 'w')):
                if isinstance(p_, Ptr): self.access(st, p_.b, p_.off, ln, 'gf-' + m, ast)
                elif isinstance(p_, SPtr) and p_.size is not None and isinstance(ln, Lin):
                    I.client_event(st, 'bounds', None, p_.off, ln, 'gf-' + m, st.entails(const(p_.size) - p_.off - ln), ast)
                elif isinstance(p_, Null): I.client_event(st, 'null_deref', ast)
            st.emit('gf', self.describe(st, src), self.describe(st, dst), coeff, ln, add, self.p.loc(ast['l']))
            I.client_event(st, 'gf', src, dst, coeff, ln, add, ast)
            if isinstance(dst, Ptr): self.touch(st, dst.b)
            elif isinstance(dst, SPtr):
                sv = I.load(st, src.loc) if isinstance(src, SPtr) else None
                v = memo(('gfmul', sv, coeff), 'gfmul', 0, (1 << (8 * (dst.size or 2))) - 1) if isinstance(sv, Lin) and add == ZERO else fresh('gfmul', 0, (1 << 16) - 1)
                I.store(st, dst.loc, v, ast)
            return [(st, NULL)]
        if 'multiply' in path:
            a, b = vs[1], vs[2]
            st.emit('gfmul', a, b, self.p.loc(ast['l']))
            x, y = sorted((a, b), key=repr)
            return [(st, memo(('gfmul', x, y), 'gfmul', 0, (1 << 32) - 1))]
        if 'divide' in path:
            st.emit('gfdiv', vs[1], vs[2], self.p.loc(ast['l']))
            I.client_event(st, 'gfdiv', vs[1], vs[2], ast)
            return [(st, memo(('gfdiv', vs[1], vs[2]), 'gfdiv', 0, (1 << 32) - 1))]
        if 'inverse' in path:
            I.client_event(st, 'gfdiv', ONE, vs[1], ast)
            return [(st, memo(('gfdiv', ONE, vs[1]), 'gfdiv', 0, (1 << 32) - 1))]
        st.emit('fnptr', tuple(path), tuple(vs), self.p.loc(ast['l']))
        I.client_event(st, 'fnptr', path, vs, ast)
        t = ast['t']
        if self.p.types[t].get('k') == 'void': return [(st, NULL)]
        return [(st, I.symbolic(st, t, 'ret'))]

    def describe(self, st, p):
        if isinstance(p, Ptr): return ('bytes', p.b, p.off)
        if isinstance(p, SPtr): return ('scalar', self.I.load(st, p.loc))
        return ('opaque', p)
