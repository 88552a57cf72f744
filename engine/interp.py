"""Relational abstract interpreter over the exported AST.

Abstract state: a heap of abstract objects whose scalars are affine terms, a conjunction of linear
constraints, an exception flag, and the trace of observable effects.  States are kept apart by
their discrete shape (trace partitioning) and joined at loop heads; repo functions are analysed in
the context of their callers (inlining), recursive ones through tabulated summaries."""
import re
import sys
from lin import Lin, ZERO, ONE, const, fresh, memo, feasible, component, bounds, SYMS
import lin as L

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass

class Budget(Exception):
    pass

# ---------------------------------------------------------------- values
class V:
    __slots__ = ()

class ObjRef(V):
    __slots__ = ('o',)
    def __init__(self, o): self.o = o
    def __eq__(self, x): return isinstance(x, ObjRef) and x.o == self.o
    def __hash__(self): return hash(('o', self.o))
    def __repr__(self): return 'obj%d' % self.o

class Loc(V):
    __slots__ = ('o', 'k')
    def __init__(self, o, k): self.o = o; self.k = k
    def __eq__(self, x): return isinstance(x, Loc) and x.o == self.o and x.k == self.k
    def __hash__(self): return hash(('l', self.o, self.k))
    def __repr__(self): return 'loc(%d,%s)' % (self.o, self.k)

class Ptr(V):
    """Pointer / random access iterator into a storage object, in elements."""
    __slots__ = ('b', 'off')
    def __init__(self, b, off): self.b = b; self.off = off
    def __eq__(self, x): return isinstance(x, Ptr) and x.b == self.b and x.off == self.off
    def __hash__(self): return hash(('p', self.b, self.off))
    def __repr__(self): return 'ptr(%d,%r)' % (self.b, self.off)

class Elem(V):
    """Glvalue of an element of a storage object."""
    __slots__ = ('b', 'off')
    def __init__(self, b, off): self.b = b; self.off = off
    def __repr__(self): return 'elem(%d,%r)' % (self.b, self.off)

class SPtr(V):
    """Byte pointer to the representation of a scalar cell."""
    __slots__ = ('loc', 'size', 'off')
    def __init__(self, loc, size, off=ZERO): self.loc = loc; self.size = size; self.off = off
    def __eq__(self, x): return isinstance(x, SPtr) and (x.loc, x.off) == (self.loc, self.off)
    def __hash__(self): return hash(('sp', self.loc))
    def __repr__(self): return 'bytes(%r)' % (self.loc,)

class It(V):
    """Iterator of a node container: container object and entry object (None: end)."""
    __slots__ = ('c', 'e', 'rev')
    def __init__(self, c, e, rev=False): self.c = c; self.e = e; self.rev = rev
    def __eq__(self, x): return isinstance(x, It) and (x.c, x.e, x.rev) == (self.c, self.e, self.rev)
    def __hash__(self): return hash(('it', self.c, self.e, self.rev))
    def __repr__(self): return 'it(%s,%s%s)' % (self.c, self.e, ',r' if self.rev else '')

class Null(V):
    def __eq__(self, x): return isinstance(x, Null)
    def __hash__(self): return 7
    def __repr__(self): return 'null'
NULL = Null()

class Fn(V):
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
    def __eq__(self, x): return isinstance(x, Fn) and x.d == self.d
    def __hash__(self): return hash(('fn', self.d))

class Flo(V):
    """Floating point value: interval, and the integer term it equals if known."""
    __slots__ = ('lo', 'hi', 'lin', 'rat')
    def __init__(self, lo, hi, lin=None, rat=None): self.lo = lo; self.hi = hi; self.lin = lin; self.rat = rat
    def __eq__(self, x): return isinstance(x, Flo) and (x.lo, x.hi, x.lin) == (self.lo, self.hi, self.lin)
    def __hash__(self): return hash(('f', self.lo, self.hi))
    def __repr__(self): return 'flo[%s,%s]' % (self.lo, self.hi)

class Opq(V):
    """Value the analysis does not interpret."""
    __slots__ = ('tag',)
    def __init__(self, tag): self.tag = tag
    def __eq__(self, x): return isinstance(x, Opq) and x.tag == self.tag
    def __hash__(self): return hash(('q', self.tag))
    def __repr__(self): return 'opaque(%s)' % (self.tag,)

class Ins(V):
    """Output iterator inserting in a container."""
    __slots__ = ('o', 'how')
    def __init__(self, o, how): self.o = o; self.how = how
    def __repr__(self): return 'ins(%r)' % (self.o,)

class Obj:
    __slots__ = ('kind', 't', 'f')
    def __init__(self, kind, t=None, f=None):
        self.kind = kind; self.t = t; self.f = f if f is not None else {}
    def __repr__(self): return '%s%r' % (self.kind, self.f)

_oid = [0]
def new_oid():
    _oid[0] += 1
    return _oid[0]

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('heap', 'facts', 'neqs', 'trace', 'exc', 'ghost', 'imprecise', 'dead')
    def __init__(self):
        self.heap = {}
        self.facts = ()
        self.neqs = ()
        self.trace = None          # linked list (prev, event)
        self.exc = None
        self.ghost = {}
        self.imprecise = None
        self.dead = False
    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap); s.facts = self.facts; s.neqs = self.neqs; s.trace = self.trace
        s.exc = self.exc; s.ghost = dict(self.ghost); s.imprecise = self.imprecise; s.dead = self.dead
        return s
    def alloc(self, kind, t=None, f=None):
        o = new_oid()
        self.heap[o] = Obj(kind, t, f or {})
        return o
    def get(self, o, k):
        return self.heap[o].f.get(k)
    def set(self, o, k, v):
        ob = self.heap[o]
        f = dict(ob.f); f[k] = v
        self.heap[o] = Obj(ob.kind, ob.t, f)
    def update(self, o, **kw):
        ob = self.heap[o]
        f = dict(ob.f); f.update(kw)
        self.heap[o] = Obj(ob.kind, ob.t, f)
    def emit(self, *ev):
        self.trace = (self.trace, ev)
    def events(self):
        r = []
        t = self.trace
        while t is not None:
            r.append(t[1]); t = t[0]
        r.reverse()
        return r
    # numeric part
    def entails(self, l):
        """l >= 0 ?"""
        if not l.t: return l.c >= 0
        lo, hi = bounds(l)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        if l in self.facts: return True
        n = -l - 1
        comp = component(self.facts, [n])
        return not feasible(comp + [n])
    def assume(self, l):
        """Adds l >= 0. False when the state becomes infeasible."""
        if not l.t: return l.c >= 0
        lo, hi = bounds(l)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        if l in self.facts: return True
        if not feasible(component(self.facts, [l]) + [l]): return False
        # keep the set small: drop facts subsumed syntactically
        self.facts = tuple(f for f in self.facts if not (f.t == l.t and f.c >= l.c)) + (l,)
        if self.neqs:
            return self._neqs()
        return True
    def _neqs(self):
        nn = self.neqs
        self.neqs = ()
        keep = []
        for n in nn:
            if self.entails(n):
                if not self.assume(n - 1): return False
            elif self.entails(-n):
                if not self.assume(-n - 1): return False
            else: keep.append(n)
        self.neqs = tuple(keep) + self.neqs
        return True
    def assume_eq(self, a, b):
        d = a - b
        if not d.t: return d.c == 0
        return self.assume(d) and self.assume(-d)
    def assume_neq(self, a, b):
        d = a - b
        if not d.t: return d.c != 0
        if self.entails(d): return self.assume(d - 1)
        if self.entails(-d): return self.assume(-d - 1)
        for n in self.neqs:
            if n == d or n == -d: return True
        self.neqs = self.neqs + (d,)
        return True
    def eq(self, a, b):
        """True / False / None"""
        d = a - b
        if not d.t: return d.c == 0
        if self.entails(d):
            if self.entails(-d): return True
            if self.entails(d - 1): return False
            return None
        if self.entails(-d - 1): return False
        if d in self.neqs or -d in self.neqs: return False
        return None
    def le(self, a, b):
        d = b - a
        if not d.t: return d.c >= 0
        if self.entails(d): return True
        if self.entails(-d - 1): return False
        return None
    def add(self, *facts):
        for f in facts:
            if not self.assume(f): return False
        return True

class LoopRec:
    """One analysed loop: its head shapes and the effects of one iteration."""
    __slots__ = ('loc', 'bodies', 'ast', 'entry')
    def __init__(self, loc, ast): self.loc = loc; self.bodies = []; self.ast = ast; self.entry = None
    def __repr__(self): return 'LOOP@%s' % self.loc

VALUE_RECORDS = ('iterator', 'Iterator', 'std::chrono::', 'allocator', 'reference_wrapper', 'nothrow_t', 'char_traits',
                 'std::less', 'piecewise', 'integral_constant', 'ordered_unique_range')

class Interp:
    def __init__(self, prog, client=None):
        self.p = prog
        self.client = client
        self.stack = []          # decl ids being analysed
        self.steps = 0
        self.max_steps = 3000000
        self.analysed = set()
        self.unsupported = {}
        self.loops = []
        self.summaries = {}
        self.globals_cache = {}
        self.unroll = 0          # >0: loops are unrolled that many times instead of summarised
        import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ types
    def ty(self, t): return self.p.types[t]

    def kind_of(self, t):
        """Abstract kind of a type id (without references)."""
        ty = self.ty(self.p.strip(t))
        k = ty.get('k')
        if k in ('int', 'bool', 'enum'): return 'int'
        if k == 'float': return 'float'
        if k in ('ptr', 'nullptr', 'func'): return 'ptr'
        if k == 'rec':
            r = self.p.records[ty['rec']]
            return self.rec_kind(ty['rec'])
        if k == 'array': return 'array'
        return k

    def rec_kind(self, rid):
        r = self.p.records[rid]
        q = r.get('q', '')
        if r.get('lambda'): return 'closure'
        if r.get('repo'):
            return 'rec'
        if q == 'std::vector' or q == 'std::initializer_list' or q in ('std::basic_string', 'std::array', 'std::deque',
                                                                          'boost::container::vector', 'boost::container::small_vector', 'boost::container::static_vector'): return 'vec'
        if q == 'std::list' or q == 'std::forward_list' or q == 'boost::container::list': return 'list'
        if q in ('boost::container::map', 'std::map', 'boost::container::flat_map', 'std::unordered_map'): return 'map'
        if q in ('boost::container::flat_set', 'std::set', 'boost::container::set', 'std::unordered_set'): return 'set'
        if q in ('boost::optional', 'std::optional'): return 'opt'
        if q == 'std::function': return 'func'
        if q == 'std::pair': return 'pair'
        if q == 'std::tuple': return 'rec'
        for v in VALUE_RECORDS:
            if v in q: return 'val'
        if q.startswith('std::basic_') or q.startswith('std::ios'): return 'stream'
        if q in ('gf', 'gf_func_a_b') or q.startswith('gf'): return 'rec'
        if r.get('bases') and len(r['bases']) >= 1:
            for b in r['bases']:
                k = self.rec_kind(b)
                if k in ('map', 'set', 'vec', 'list'): return k
        return 'rec'

    def time_unit(self, t):
        """Nanoseconds of one tick of a std::chrono duration or time point with an integral count."""
        r = self.p.rec_of(t) if t is not None else None
        return self.rec_unit(r) if r is not None else None

    def rec_unit(self, r):
        f = self.p.records[r].get('full', '')
        if not f.startswith('std::chrono::'): return None
        m = re.search(r'duration<(?:unsigned )?(?:long long|long|int|short)(?:, std::ratio<(\d+)(?:, (\d+))?>)?', f)
        if not m: return None
        n = 10 ** 9 * int(m.group(1) or 1)
        d = int(m.group(2) or 1)
        return n // d if n % d == 0 else None

    def is_class(self, t):
        return self.kind_of(t) not in ('int', 'float', 'ptr', 'val', 'void', 'other', 'nullptr')

    def range_of(self, t):
        ty = self.ty(self.p.strip(t))
        if ty.get('k') == 'bool': return 0, 1
        b = ty.get('bits')
        if b is None: return None, None
        if ty.get('sg'): return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    # ------------------------------------------------------------ symbolic objects
    def symbolic(self, st, t, name):
        """A fresh unconstrained value of type t."""
        t = self.p.strip(t)
        ty = self.ty(t)
        k = self.kind_of(t)
        if k == 'int':
            lo, hi = self.range_of(t)
            if ty.get('k') == 'enum' and ty.get('vals'):
                vs = [v for _, v in ty['vals']]
                lo, hi = min(vs), max(vs)
            return fresh(name, lo, hi)
        if k == 'float': return Flo(None, None)
        if k == 'ptr':
            pt = ty.get('p')
            if pt is not None and self.is_class(pt) and self.p.rec_of(pt) is not None and self.p.records[self.p.rec_of(pt)].get('repo'):
                return self.symbolic(st, pt, name + '*')
            return Opq(('ptr', name, new_oid()))
        if k == 'val':
            u = self.time_unit(t)
            if u: return fresh(name, -(1 << 62) // u, (1 << 62) // u).scale(u)
            return Opq((name, new_oid()))
        if k in ('rec', 'pair'):
            return ObjRef(self.symbolic_rec(st, ty['rec'], name))
        if k == 'closure': return Opq((name, new_oid()))
        if k == 'vec':
            return ObjRef(self.new_vec(st, t, fresh(name + '.size', 0, 1 << 40)))
        if k in ('map', 'set', 'list'):
            return ObjRef(self.new_cont(st, t, name, unknown=True))
        if k == 'opt':
            o = st.alloc('opt', t, {'has': fresh(name + '.has', 0, 1), 'val': self.symbolic(st, self.targ(t, 0), name + '.val')})
            return ObjRef(o)
        if k == 'func':
            return ObjRef(st.alloc('func', t, {'target': Opq(('fn', name))}))
        if k == 'stream':
            return ObjRef(st.alloc('stream', t, {}))
        if k == 'array':
            return ObjRef(st.alloc('array', t, {}))
        return Opq((name, new_oid()))

    def symbolic_rec(self, st, rid, name):
        r = self.p.records[rid]
        o = st.alloc('pair' if r['q'] == 'std::pair' else 'rec', rid, {})
        if r['q'] == 'std::pair':
            ta = r['targs']
            st.set(o, 'first', self.symbolic(st, ta[0], name + '.first'))
            st.set(o, 'second', self.symbolic(st, ta[1], name + '.second'))
            return o
        for b in r.get('bases') or []:
            if self.p.records[b].get('repo'):
                sub = self.symbolic_rec(st, b, name)
                for k, v in st.heap[sub].f.items(): st.set(o, k, v)
        for f in r.get('fields') or []:
            st.set(o, f['n'], self.symbolic(st, f['t'], name + '.' + f['n']))
        return o

    def targ(self, t, i):
        t = self.p.strip(t)
        ty = self.ty(t)
        r = self.p.records[ty['rec']]
        ta = r.get('targs') or []
        if i < len(ta) and isinstance(ta[i], int): return ta[i]
        for b in r.get('bases') or []:
            tb = self.p.records[b].get('targs') or []
            if i < len(tb) and isinstance(tb[i], int): return tb[i]
        return None

    def new_vec(self, st, t, size):
        b = st.alloc('buf', t, {'size': size, 'et': self.targ(t, 0), 'gen': new_oid(), 'w': ()})
        return st.alloc('vec', t, {'buf': ObjRef(b)})

    def new_cont(self, st, t, name, unknown):
        k = self.kind_of(t)
        f = {'ents': (), 'gaps': () if unknown else ((None, None),), 'size': fresh(name + '.size', 0, 1 << 40) if unknown else ZERO,
             'name': name}
        return st.alloc(k, self.p.strip(t), f)

    # ------------------------------------------------------------ memory
    def load(self, st, v, t=None, ast=None):
        if isinstance(v, Loc):
            ob = st.heap.get(v.o)
            if ob is None:
                return Opq(('dead', v.o))
            x = ob.f.get(v.k)
            if x is None:
                x = self.symbolic(st, t, str(v.k)) if t is not None else Opq(('undef', v.k))
                st.set(v.o, v.k, x)
            return x
        if isinstance(v, Elem):
            return self.lib.load_elem(st, v, t, ast)
        if isinstance(v, SPtr):
            return self.load(st, v.loc, t, ast)
        return v

    def store(self, st, l, v, ast=None):
        if isinstance(l, Loc):
            if l.o in st.heap:
                st.set(l.o, l.k, v)
                if self.client: self.client.on_store(self, st, l, v, ast)
        elif isinstance(l, Elem):
            self.lib.store_elem(st, l, v, ast)
        elif isinstance(l, ObjRef) and isinstance(v, ObjRef):
            self.assign_obj(st, l.o, v.o, True)
        elif isinstance(l, SPtr):
            self.store(st, l.loc, v, ast)

    def clone(self, st, o, seen=None):
        """Deep copy of an object, returns the new oid."""
        ob = st.heap[o]
        if ob.kind == 'vec' and ob.t is not None and isinstance(ob.f.get('buf'), ObjRef):
            ty = self.ty(self.p.strip(ob.t))
            if ty.get('k') == 'rec' and self.p.records[ty['rec']].get('q') == 'std::initializer_list':
                return st.alloc(ob.kind, ob.t, dict(ob.f))      # a view: its elements are shared
        f = {}
        ents = None
        for k, v in ob.f.items():
            if isinstance(v, ObjRef) and self.owned(st, ob, k):
                f[k] = ObjRef(self.clone(st, v.o))
            elif k == 'ents':
                f[k] = tuple(self.clone(st, e) for e in v)
            else:
                f[k] = v
        n = st.alloc(ob.kind, ob.t, f)
        if ob.kind == 'buf': st.set(n, 'copyof', o)
        return n

    def owned(self, st, ob, k):
        """Is field k of ob an owned sub-object (as opposed to a pointer or reference)?"""
        if ob.kind in ('rec',):
            if ob.t is None: return False
            for f in self.fields_of(ob.t):
                if f['n'] == k:
                    return self.ty(f['t']).get('k') not in ('ptr', 'ref')
            return False
        if ob.kind == 'pair':
            r = self.p.records[ob.t]
            i = 0 if k == 'first' else 1
            ta = r.get('targs') or []
            return not (len(ta) > i and isinstance(ta[i], int) and self.ty(ta[i]).get('k') in ('ptr', 'ref'))
        if ob.kind == 'ent': return k == 'second' and not ob.f.get('ptr')
        if ob.kind in ('vec', 'opt', 'func'): return True
        return False

    def fields_of(self, rid):
        r = self.p.records[rid]
        out = list(r.get('fields') or [])
        for b in r.get('bases') or []:
            if self.p.records[b].get('repo'): out += self.fields_of(b)
        return out

    def move_obj(self, st, o):
        """New object taking the contents of o, which becomes moved-from."""
        ob = st.heap[o]
        f = {}
        if ob.kind == 'vec':
            n = st.alloc('vec', ob.t, dict(ob.f))
            b = st.heap[ob.f['buf'].o]
            nb = st.alloc('buf', b.t, {'size': ZERO, 'et': b.f.get('et'), 'gen': new_oid(), 'w': ()})
            st.set(o, 'buf', ObjRef(nb))
            return n
        if ob.kind in ('map', 'set', 'list'):
            n = st.alloc(ob.kind, ob.t, dict(ob.f))
            st.update(o, ents=(), gaps=((None, None),), size=ZERO)
            self.client_event(st, 'cont_move', o, n)
            return n
        for k, v in ob.f.items():
            if isinstance(v, ObjRef) and self.owned(st, ob, k):
                f[k] = ObjRef(self.move_obj(st, v.o))
            else:
                f[k] = v
        return st.alloc(ob.kind, ob.t, f)

    def client_event(self, st, *a):
        if self.client: self.client.on_event(self, st, *a)

    def assign_obj(self, st, dst, src, move):
        """dst = src (class types)."""
        if dst == src: return
        n = self.move_obj(st, src) if move else self.clone(st, src)
        st.heap[dst] = st.heap[n]
        del st.heap[n]

    # ------------------------------------------------------------ calls
    def note_unsupported(self, st, what, ast=None):
        loc = self.p.loc(ast['l']) if ast else '?'
        self.unsupported[(what, loc)] = self.unsupported.get((what, loc), 0) + 1
        if st.imprecise is None: st.imprecise = what + '@' + loc

    def call(self, st, d, this, args, ast=None):
        """Call of the function with decl id d. Returns [(state, value)]."""
        self.steps += 1
        if self.steps > self.max_steps: raise Budget('analysis budget exceeded')
        dd = self.p.decls[d]
        if self.client:
            r = self.client.on_call(self, st, d, dd, this, args, ast)
            if r is not None: return r
        f = self.p.funcs.get(d)
        if f is not None and dd.get('repo', False) is False and not dd.get('lambda'):
            f = f if 'body' in f and (dd.get('lambda')) else f
        if f is not None and dd.get('defaulted') and dd.get('ctor') in ('copy', 'move'):
            src = args[0]
            if isinstance(src, ObjRef):
                return [(st, ObjRef(self.move_obj(st, src.o) if dd['ctor'] == 'move' else self.clone(st, src.o)))]
            return [(st, src)]
        if f is not None and dd.get('defaulted') and dd.get('assign'):
            src = args[0]
            if isinstance(src, ObjRef) and isinstance(this, ObjRef):
                self.assign_obj(st, this.o, src.o, dd['assign'] == 'move')
            return [(st, this)]
        if f is not None and 'body' in f:
            if d in self.stack and self.client is not None:
                r = self.client.on_recursion(self, st, d, dd, this, args, ast)
                if r is not None: return r
            if self.stack.count(d) >= 2 or len(self.stack) > 60:
                self.note_unsupported(st, 'recursion of ' + dd['q'], ast)
                return [(st, self.symbolic(st, dd['ret'], 'rec'))]
            return self.inline(st, d, this, args, ast)
        return self.lib.call(st, d, dd, this, args, ast)

    def inline(self, st, d, this, args, ast=None, captured=None):
        dd = self.p.decls[d]
        f = self.p.funcs[d]
        self.analysed.add(dd['q'])
        self.stack.append(d)
        fr = st.alloc('frame', None, {'this': this, 'fn': None})
        for i, pr in enumerate(dd['params']):
            if i < len(args): self.bind(st, fr, pr['d'], pr['t'], args[i], ast)
        if captured:
            for k, v in captured.items(): st.set(fr, k, v)
        prev = st.ghost.get('frame')
        st.ghost['frame'] = fr
        outs = []
        try:
            states = [st]
            if 'inits' in f:
                states = self.run_inits(st, f, this)
            for s in states:
                if s.exc: outs.append((s, None)); continue
                for s2, ctl in self.exec(f['body'], s):
                    val = None
                    if isinstance(ctl, tuple) and ctl[0] == 'ret': val = ctl[1]
                    outs.append((s2, val))
        finally:
            self.stack.pop()
        rett = self.ty(dd['ret'])
        res = []
        for s, v in outs:
            s.ghost['frame'] = prev
            if v is not None and not s.exc and isinstance(v, (Loc,)) and rett.get('k') != 'ref':
                v = self.load(s, v)
            # the frame dies; keep it when a reference to one of its cells escapes
            keep = isinstance(v, (Loc, SPtr)) and (v.o if isinstance(v, Loc) else getattr(v.loc, 'o', None)) == fr
            if not keep: s.heap.pop(fr, None)
            res.append((s, v))
        if self.client: res = self.client.on_return(self, d, dd, this, args, res)
        return res

    def run_inits(self, st, f, this):
        states = [st]
        for i in f['inits']:
            ns = []
            for s in states:
                if s.exc: ns.append(s); continue
                if 'm' in i:
                    ft = i['t']
                    for s2, v in self.ev(i['e'], s):
                        if not s2.exc:
                            v = self.init_value(s2, ft, v, i['e'])
                            if isinstance(this, ObjRef): s2.set(this.o, i['m'], v)
                        ns.append(s2)
                elif 'base' in i:
                    for s2, v in self.ev(i['e'], s):
                        if not s2.exc and isinstance(v, ObjRef) and isinstance(this, ObjRef) and v.o in s2.heap and s2.heap[v.o].kind == 'rec':
                            for k, x in s2.heap[v.o].f.items(): s2.set(this.o, k, x)
                        ns.append(s2)
                elif 'deleg' in i:
                    for s2, v in self.ev(i['e'], s):
                        if not s2.exc and isinstance(v, ObjRef) and isinstance(this, ObjRef):
                            for k, x in s2.heap[v.o].f.items(): s2.set(this.o, k, x)
                        ns.append(s2)
                else:
                    ns.append(s)
            states = ns
        return states

    def init_value(self, st, t, v, ast):
        """Value to store when initialising a variable of type t with v."""
        ty = self.ty(t)
        if ty.get('k') == 'ref': return v
        if isinstance(v, (Loc, Elem)) :
            v = self.load(st, v, t, ast)
        return v

    def bind(self, st, fr, d, t, v, ast):
        ty = self.ty(t)
        if ty.get('k') != 'ref' and isinstance(v, (Loc, Elem)):
            v = self.load(st, v, t, ast)
        elif ty.get('k') == 'ref' and not isinstance(v, (Loc, Elem, ObjRef)) and not self.is_class(t):
            # reference bound to a value: materialise a cell
            o = st.alloc('cell', None, {'v': v})
            v = Loc(o, 'v')
        st.set(fr, d, v)

    def construct(self, st, e, d, args, ast):
        """Constructor call producing a prvalue."""
        dd = self.p.decls[d]
        rid = dd.get('rec')
        k = self.rec_kind(rid) if rid is not None else 'rec'
        if self.client:
            r = self.client.on_call(self, st, d, dd, None, args, ast)
            if r is not None: return r
        if k in ('rec', 'closure') and (self.p.records[rid].get('repo') or k == 'closure'):
            f = self.p.funcs.get(d)
            if dd.get('ctor') in ('copy', 'move') and (dd.get('defaulted') or f is None or 'body' not in f or k == 'closure'):
                src = args[0]
                if isinstance(src, ObjRef) and src.o in st.heap:
                    return [(st, ObjRef(self.move_obj(st, src.o) if dd['ctor'] == 'move' else self.clone(st, src.o)))]
                return [(st, src)]
            o = st.alloc('rec', rid, {})
            if f is not None and ('body' in f):
                if self.stack.count(d) < 3:
                    res = []
                    for s, _ in self.inline(st, d, ObjRef(o), args, ast):
                        res.append((s, ObjRef(o)))
                    return res
            for fl in self.fields_of(rid):
                if e is not None and e.get('zeroinit') or self.is_class(fl['t']):
                    st.set(o, fl['n'], self.default_value(st, fl['t'], fl['n']))
            return [(st, ObjRef(o))]
        return self.lib.construct(st, d, dd, rid, k, args, ast)

    def default_value(self, st, t, name):
        k = self.kind_of(t)
        if k == 'int': return ZERO
        if k == 'float': return Flo(0.0, 0.0, ZERO)
        if k == 'ptr': return NULL
        if k == 'vec': return ObjRef(self.new_vec(st, t, ZERO))
        if k in ('map', 'set', 'list'): return ObjRef(self.new_cont(st, t, name, False))
        if k == 'opt': return ObjRef(st.alloc('opt', t, {'has': ZERO, 'val': Opq(('novalue', name))}))
        if k == 'rec':
            rid = self.ty(self.p.strip(t))['rec']
            o = st.alloc('rec', rid, {})
            for f in self.fields_of(rid): st.set(o, f['n'], self.default_value(st, f['t'], f['n']))
            return ObjRef(o)
        if k == 'pair':
            rid = self.ty(self.p.strip(t))['rec']
            ta = self.p.records[rid]['targs']
            return ObjRef(st.alloc('pair', rid, {'first': self.default_value(st, ta[0], 'first'), 'second': self.default_value(st, ta[1], 'second')}))
        return self.symbolic(st, t, name)

    # ------------------------------------------------------------ expressions
    def ev_list(self, es, st):
        states = [(st, ())]
        for e in es:
            ns = []
            for s, vs in states:
                if s.exc: ns.append((s, vs)); continue
                for s2, v in self.ev(e, s): ns.append((s2, vs + (v,)))
            states = ns
        return states

    def fork(self, st, cond_states):
        return cond_states

    def cmp(self, st, op, a, b):
        """Comparison of two terms: [(state, bool)] with infeasible cases removed."""
        if op == '>': return self.cmp(st, '<', b, a)
        if op == '>=': return self.cmp(st, '<=', b, a)
        if op == '<=':
            d = b - a
            if not d.t: return [(st, d.c >= 0)]
            r = []
            if st.entails(d): return [(st, True)]
            s2 = st.copy()
            if s2.assume(-d - 1): r.append((s2, False))
            if r:
                if st.assume(d): r.append((st, True))
            else:
                if st.assume(d): r.append((st, True))
            return r
        if op == '<':
            return [(s, not b2) for s, b2 in self.cmp(st, '<=', b, a)]
        if op == '==' or op == '!=':
            e = st.eq(a, b)
            if e is not None: return [(st, e == (op == '=='))]
            r = []
            s2 = st.copy()
            if s2.assume_eq(a, b): r.append((s2, op == '=='))
            if st.assume_neq(a, b): r.append((st, op == '!='))
            return r
        raise Unsupported('comparison ' + op)

    def truth(self, st, v):
        if isinstance(v, Lin): return [(s, not z) for s, z in self.cmp(st, '==', v, ZERO)]
        if isinstance(v, Null): return [(st, False)]
        if isinstance(v, (ObjRef, Ptr, SPtr, Loc, Fn)): return [(st, True)]
        s2 = st.copy()
        return [(st, True), (s2, False)]

    def cond(self, e, st):
        """Evaluates a condition: [(state, bool)] ; states with exc carry True."""
        if st.exc: return [(st, True)]
        k = e['k']
        if k == 'Bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], st):
                if s.exc: out.append((s, True)); continue
                if (e['op'] == '&&') == b: out += self.cond(e['b'], s)
                else: out.append((s, b))
            return out
        if k == 'Un' and e['op'] == '!':
            return [(s, (b if s.exc else not b)) for s, b in self.cond(e['e'], st)]
        if k == 'Cast' and e['ck'] in ('IntegralToBoolean', 'PointerToBoolean') and 'cv' not in e:
            return self.cond(e['e'], st)
        out = []
        for s, v in self.ev(e, st):
            if s.exc: out.append((s, True)); continue
            if isinstance(v, (Loc, Elem)): v = self.load(s, v, e['t'], e)
            out += self.truth(s, v)
        return out

    def wrap(self, st, v, t, ast=None, assume=False):
        """Value v converted to integer type t."""
        if not isinstance(v, Lin): return v
        ty = self.ty(self.p.strip(t))
        if ty.get('k') not in ('int', 'bool', 'enum'): return v
        lo, hi = self.range_of(t)
        if lo is None: return v
        blo, bhi = bounds(v)
        if blo is not None and bhi is not None and blo >= lo and bhi <= hi: return v
        if v.is_const():
            n = hi - lo + 1
            x = v.c % n
            if x > hi: x -= n
            return const(x)
        okhi = st.entails(const(hi) - v)
        oklo = st.entails(v - lo)
        if okhi and oklo: return v
        if assume:
            if not okhi: st.assume(const(hi) - v)
            if not oklo: st.assume(v - lo)
            return v
        return memo(('wrap', v, lo, hi), 'wrap', lo, hi)

    def arith(self, st, op, a, b, t, ast):
        if isinstance(a, Flo) or isinstance(b, Flo): return self.farith(st, op, a, b)
        # pointers
        if isinstance(a, Ptr) and isinstance(b, Lin) and op in '+-':
            return Ptr(a.b, a.off + b if op == '+' else a.off - b)
        if isinstance(b, Ptr) and isinstance(a, Lin) and op == '+': return Ptr(b.b, b.off + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-':
            if a.b == b.b: return a.off - b.off
            return fresh('ptrdiff')
        if isinstance(a, SPtr) and isinstance(b, Lin) and op in '+-':
            return SPtr(a.loc, a.size, a.off + b if op == '+' else a.off - b)
        if isinstance(a, Opq) and a.tag and a.tag[0] == 'raw':
            # pointer of unknown provenance plus offset
            return Opq(('raw', a.tag[1], (a.tag[2] if len(a.tag) > 2 else ZERO) + (b if op == '+' else -b))) if isinstance(b, Lin) else Opq(('arith',))
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            if isinstance(a, Opq) or isinstance(b, Opq):
                if self.kind_of(t) == 'int':
                    lo, hi = self.range_of(t)
                    return memo(('opq', op, a, b), 'opq', lo, hi)
                return Opq(('arith', op))
            raise Unsupported('arithmetic %s on %r and %r' % (op, a, b))
        lo, hi = self.range_of(t)
        bits = self.ty(self.p.strip(t)).get('bits', 32)
        if op == '+':
            r = a + b
            return self.wrap(st, r, t, ast, assume=(bits >= 64) or (bits >= 32 and (a.is_const() or b.is_const()) and self.nowrap32(a, b)))
        if op == '-':
            r = a - b
            return self.wrap(st, r, t, ast)
        if op == '*':
            if a.is_const(): return self.wrap(st, b.scale(a.c), t, ast)
            if b.is_const(): return self.wrap(st, a.scale(b.c), t, ast)
            x, y = sorted((a, b), key=lambda z: repr(z))
            r = memo(('mul', x, y, lo, hi), 'mul', lo, hi)
            return r
        if op == '/':
            if a.is_const() and b.is_const() and b.c: return const(int(a.c / b.c) if (a.c < 0) != (b.c < 0) else a.c // b.c)
            if b.is_const() and b.c > 0:
                r = memo(('div', a, b.c), 'div', lo if lo is not None and lo < 0 else 0, hi)
                if st.entails(a):
                    st.add(a - r.scale(b.c), r.scale(b.c) + (b.c - 1) - a)
                return r
            self.client_event(st, 'div', a, b, ast)
            return memo(('div', a, b), 'div', lo, hi)
        if op == '%':
            if a.is_const() and b.is_const() and b.c and a.c >= 0 and b.c > 0: return const(a.c % b.c)
            self.client_event(st, 'div', a, b, ast)
            if b.is_const() and b.c > 0:
                return memo(('mod', a, b.c), 'mod', 0 if st.entails(a) else -(b.c - 1), b.c - 1)
            r = memo(('mod', a, b), 'mod', 0, hi)
            if st.entails(b - 1): st.add(b - 1 - r)
            return r
        if op == '^':
            if a.is_const() and b.is_const(): return const(a.c ^ b.c)
            if a == ZERO: return b
            if b == ZERO: return a
            xs = self.xor_parts(a) ^ self.xor_parts(b)
            if not xs: return ZERO
            if len(xs) == 1: return next(iter(xs))
            ub = 0
            for x in xs:
                _, h = bounds(x)
                ub = None if ub is None or h is None else max(ub, (1 << h.bit_length()) - 1)
            return memo(('xor', frozenset(xs)), 'xor', 0, hi if ub is None or (hi is not None and hi < ub) else ub)
        if op == '<<':
            if b.is_const() and a.is_const(): return self.wrap(st, const(a.c << b.c), t, ast)
            if b.is_const() and 0 <= b.c < 64: return self.wrap(st, a.scale(1 << b.c), t, ast)
            if a.is_const(): return memo(('shl', a, b), 'shl', 0, hi)
            return memo(('shl', a, b), 'shl', lo, hi)
        if op == '>>':
            if b.is_const() and 0 <= b.c < 64:
                return self.arith(st, '/', a, const(1 << b.c), t, ast)
            return memo(('shr', a, b), 'shr', lo, hi)
        if op == '&':
            if a.is_const() and b.is_const(): return const(a.c & b.c)
            for x, y in ((a, b), (b, a)):
                if y.is_const() and y.c >= 0:
                    _, h = bounds(x)
                    if (y.c & (y.c + 1)) == 0:
                        if h is not None and h <= y.c and st.entails(x): return x
                        return memo(('mod', x, y.c + 1), 'and', 0, y.c)
                    return memo(('and', x, y), 'and', 0, y.c)
            return memo(('and', a, b), 'and', lo, hi)
        if op == '|':
            if a.is_const() and b.is_const(): return const(a.c | b.c)
            if a == ZERO: return b
            if b == ZERO: return a
            for x, y in ((a, b), (b, a)):
                lx, hx = bounds(x)
                if lx is not None and lx >= 0 and hx is not None:
                    g = 1 << hx.bit_length()
                    if all(k % g == 0 for _, k in y.t) and y.c % g == 0: return x + y
            return memo(('or', a, b), 'or', lo, hi)
        raise Unsupported('operator ' + op)

    def nowrap32(self, a, b):
        """Unit increments of 32-bit counters and identifiers are assumed not to wrap."""
        return not (self.stack and self.p.decls[self.stack[-1]]['n'] == 'coefficient')

    def xor_parts(self, x):
        s = x.sym()
        if s is not None:
            tg = SYMS[s].tag
            if isinstance(tg, tuple) and tg and tg[0] == 'xor': return set(tg[1])
        return {x}

    def flo(self, v):
        if isinstance(v, Flo): return v
        if isinstance(v, Lin):
            lo, hi = bounds(v)
            return Flo(lo, hi, v)
        return Flo(None, None)

    def farith(self, st, op, a, b):
        a, b = self.flo(a), self.flo(b)
        if op == '/':
            if b.lo is not None and b.lo > 0 or (b.lin is not None and st.entails(b.lin - 1)):
                lo = hi = None
                blo = b.lo if (b.lo is not None and b.lo > 0) else 1.0
                if a.lo is not None and a.hi is not None:
                    c = [a.lo / blo, a.hi / blo]
                    if b.hi is not None: c += [a.lo / b.hi, a.hi / b.hi]
                    else: c += [0.0]
                    lo, hi = min(c), max(c)
                if a.lin is not None and st.eq(a.lin, ZERO) is True: return Flo(0.0, 0.0)
                if a.lin is not None and b.lin is not None:
                    if st.eq(a.lin, b.lin) is True: return Flo(1.0, 1.0)
                    if st.entails(-a.lin): hi = 0.0 if hi is None else min(hi, 0.0)
                    if st.entails(b.lin - a.lin): hi = 1.0 if hi is None else min(hi, 1.0)
                    if st.entails(a.lin): lo = 0.0 if lo is None else max(lo, 0.0)
                    for k in (2, 4, 8, 16, 32, 64):
                        if st.entails(b.lin - a.lin.scale(k)): hi = min(hi, 1.0 / k) if hi is not None else 1.0 / k
                        elif st.entails(a.lin.scale(k) - b.lin): lo = max(lo, 1.0 / k) if lo is not None else 1.0 / k; break
                    return Flo(lo, hi, None, (a.lin, b.lin))
                return Flo(lo, hi)
            if b.lo == 0 and a.lo is not None and a.lo > 0:
                # a positive number divided by zero is infinite
                return Flo(float('inf') if b.hi == 0 else 0.0 if b.hi is None else a.lo / b.hi, float('inf'))
            return Flo(None, None)
        if op in ('+', '-'):
            # c +- n/d and n/d +- c are ratios again
            for x, y in ((a, b), (b, a)):
                if x.lin is None or not x.lin.is_const() or y.rat is None: continue
                n, d = y.rat
                c = d.scale(x.lin.c)
                n = n + c if op == '+' else c - n if x is a else n - c
                return self.farith(st, '/', n, d)
        if op == '*':
            if None in (a.lo, a.hi, b.lo, b.hi): return Flo(None, None)
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return Flo(min(c), max(c))
        if op == '+':
            return Flo(None if None in (a.lo, b.lo) else a.lo + b.lo, None if None in (a.hi, b.hi) else a.hi + b.hi,
                       a.lin + b.lin if a.lin is not None and b.lin is not None else None)
        if op == '-':
            lo = None if a.lo is None or b.hi is None else a.lo - b.hi
            hi = None if a.hi is None or b.lo is None else a.hi - b.lo
            return Flo(lo, hi, a.lin - b.lin if a.lin is not None and b.lin is not None else None)
        return Flo(None, None)

    def fcmp(self, st, op, ea, eb, a, b):
        """Comparison of floats; refines the compared variable when it is one."""
        a, b = self.flo(a), self.flo(b)
        out = []
        def refine(s, e, lo, hi):
            # e: AST of the operand; refine its cell
            while e['k'] == 'Cast': e = e['e']
            if e['k'] == 'Ref':
                for s2, l in self.ev(e, s):
                    if isinstance(l, Loc):
                        v = s2.heap[l.o].f.get(l.k)
                        if isinstance(v, Flo):
                            nlo = v.lo if lo is None else (lo if v.lo is None else max(v.lo, lo))
                            nhi = v.hi if hi is None else (hi if v.hi is None else min(v.hi, hi))
                            s2.set(l.o, l.k, Flo(nlo, nhi, v.lin, v.rat))
        for res in (True, False):
            o = op if res else {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
            if o in ('<', '<='):
                if a.lo is not None and b.hi is not None and (a.lo > b.hi or (o == '<' and a.lo >= b.hi)): continue
                s = st.copy(); refine(s, ea, None, b.hi); refine(s, eb, a.lo, None)
            elif o in ('>', '>='):
                if a.hi is not None and b.lo is not None and (a.hi < b.lo or (o == '>' and a.hi <= b.lo)): continue
                s = st.copy(); refine(s, ea, b.lo, None); refine(s, eb, None, a.hi)
            else:
                s = st.copy()
            out.append((s, res))
        return out

    def cmp_split(self, st, a, b):
        """States in which a is smaller than b, equal to it, and greater."""
        return [s2 for s, l in self.cmp(st, '<', a, b) for s2 in ([s] if l else [x for x, _ in self.cmp(s, '==', a, b)])]

    def ev(self, e, st):
        """Evaluates an expression: [(state, value)]. Glvalues evaluate to locations."""
        if st.exc: return [(st, None)]
        self.steps += 1
        if self.steps > self.max_steps: raise Budget('analysis budget exceeded')
        if 'cv' in e:
            return [(st, const(int(e['cv'])))]
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.note_unsupported(st, 'expression ' + k + ' ' + str(e.get('cls', '')), e)
            return [(st, self.symbolic(st, e['t'], 'unk'))]
        return m(e, st)

    def e_Int(self, e, st): return [(st, const(int(e['v'])))]
    def e_Bool(self, e, st): return [(st, ONE if e['v'] else ZERO)]
    def e_Float(self, e, st): return [(st, Flo(e['v'], e['v'], const(int(e['v'])) if float(e['v']).is_integer() else None))]
    def e_Null(self, e, st): return [(st, NULL)]
    def e_Str(self, e, st): return [(st, Opq(('str', e.get('v', ''))))]
    def e_Const(self, e, st): return [(st, Opq(('const',)))]
    def e_SizeOf(self, e, st): return [(st, fresh('sizeof', 0, 1 << 20))]
    def e_ZeroInit(self, e, st): return [(st, self.default_value(st, e['t'], 'zero'))]
    def e_PseudoDtor(self, e, st): return [(st, NULL)]
    def e_Typeid(self, e, st): return [(st, Opq(('typeid',)))]

    def e_This(self, e, st):
        return [(st, st.heap[st.ghost['frame']].f['this'])]

    def e_Ref(self, e, st):
        d = e['d']
        dd = self.p.decls[d]
        if dd['k'] == 'enumc': return [(st, const(dd['v']))]
        if dd['k'] == 'func': return [(st, Fn(d))]
        fr = st.ghost['frame']
        if d in st.heap[fr].f:
            v = st.heap[fr].f[d]
            t = self.ty(dd['t'])
            if isinstance(v, Alias): return [(st, v.v)]
            if t.get('k') == 'ref': return [(st, v)]
            if isinstance(v, ObjRef) and t.get('k') != 'ptr': return [(st, v)]
            return [(st, Loc(fr, d))]
        # globals
        return self.global_ref(e, d, dd, st)

    def global_ref(self, e, d, dd, st):
        g = self.p.globals.get(d)
        key = ('global', d)
        go = st.ghost.get('globals')
        if go is None:
            go = st.alloc('globals', None, {}); st.ghost['globals'] = go
        if d in st.heap[go].f:
            v = st.heap[go].f[d]
            return [(st, v if isinstance(v, ObjRef) else Loc(go, d))]
        const_ = self.ty(dd['t']).get('const') or dd.get('constexpr')
        if g is not None and 'init' in g and const_:
            out = []
            for s, v in self.ev(g['init'], st):
                if isinstance(v, (Loc, Elem)): v = self.load(s, v, dd['t'], e)
                s.set(go, d, v)
                out.append((s, v if isinstance(v, ObjRef) else Loc(go, d)))
            return out
        v = self.symbolic(st, dd['t'], dd['n'])
        st.set(go, d, v)
        return [(st, v if isinstance(v, ObjRef) else Loc(go, d))]

    def e_Member(self, e, st):
        out = []
        md = self.p.decls[e['d']]
        if md['k'] == 'var':   # static member
            return self.global_ref(e, e['d'], md, st)
        if md['k'] == 'enumc': return [(st, const(md['v']))]
        for s, b in self.ev(e['b'], st):
            if s.exc: out.append((s, None)); continue
            if e['arrow'] and isinstance(b, Loc): b = self.load(s, b, e['b']['t'], e)
            if isinstance(b, Loc):
                b = self.load(s, b, e['b']['t'], e)
            if isinstance(b, Elem): b = self.load(s, b, e['b']['t'], e)
            out.append((s, self.member(s, b, e['m'], e, md)))
        return out

    def member(self, s, b, m, e, md):
        if isinstance(b, ObjRef):
            ob = s.heap.get(b.o)
            if ob is None or 'dead' in ob.f:
                self.client_event(s, 'use_after_free', b, e)
                return self.symbolic(s, e['t'], m) if self.is_class(e['t']) else Loc(s.alloc('cell', None, {'v': self.symbolic(s, e['t'], m)}), 'v')
            v = ob.f.get(m)
            if v is None:
                v = self.symbolic(s, md['t'] if 't' in md else e['t'], m)
                s.set(b.o, m, v)
                ob = s.heap[b.o]
            ft = md.get('t')
            if ft is not None and self.ty(ft).get('k') == 'ref': return v
            if isinstance(v, ObjRef) and (ft is None or self.ty(ft).get('k') != 'ptr'): return v
            if self.client: self.client.on_field(self, s, b.o, m, e)
            return Loc(b.o, m)
        if isinstance(b, Opq):
            if self.is_class(e['t']): return Opq(('mem', b.tag, m))
            return Loc(s.alloc('cell', None, {'v': self.symbolic(s, e['t'], m)}), 'v')
        if isinstance(b, It):
            return self.member(s, self.lib.deref(s, b, e), m, e, md)
        if isinstance(b, Null):
            self.client_event(s, 'null_deref', e)
            return Opq(('null', m))
        raise Unsupported('member %s of %r' % (m, b))

    def e_Cast(self, e, st):
        ck = e['ck']
        if ck == 'LValueToRValue':
            return [(s, v if s.exc else self.load(s, v, e['t'], e)) for s, v in self.ev(e['e'], st)]
        if ck == 'ToVoid':
            return [(s, NULL) for s, v in self.ev(e['e'], st)]
        out = []
        for s, v in self.ev(e['e'], st):
            if s.exc: out.append((s, None)); continue
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion',
                      'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'Dependent', 'AtomicToNonAtomic'):
                if ck == 'ArrayToPointerDecay' and isinstance(v, Loc): v = v
                out.append((s, v))
            elif ck in ('IntegralCast', 'BooleanToSignedIntegral'):
                if isinstance(v, (Loc, Elem)): v = self.load(s, v, e['e']['t'], e)
                if e.get('expl') is False or True:
                    w = self.wrap(s, v, e['t'], e)
                    if w is not v and isinstance(v, Lin) and w != v: self.client_event(s, 'narrow', v, w, e)
                    out.append((s, w))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
                if isinstance(v, (Loc, Elem)) and ck == 'IntegralToBoolean': v = self.load(s, v, e['e']['t'], e)
                for s2, b in self.truth(s, v): out.append((s2, ONE if b else ZERO))
            elif ck == 'NullToPointer': out.append((s, NULL))
            elif ck == 'PointerToIntegral':
                if isinstance(v, Ptr): out.append((s, memo(('addr', v.b), 'addr', 1 << 48, 1 << 56) + v.off))
                else: out.append((s, fresh('addr', 0, (1 << 64) - 1)))
            elif ck == 'IntegralToPointer': out.append((s, Opq(('raw', v))))
            elif ck in ('BitCast', 'LValueBitCast'):
                out.append((s, self.bitcast(s, v, e)))
            elif ck in ('IntegralToFloating',):
                if isinstance(v, (Loc, Elem)): v = self.load(s, v, e['e']['t'], e)
                out.append((s, self.flo(v)))
            elif ck == 'FloatingCast': out.append((s, v))
            elif ck == 'FloatingToIntegral':
                lo, hi = self.range_of(e['t'])
                f = self.flo(v)
                if f.lin is not None: out.append((s, self.wrap(s, f.lin, e['t'], e)))
                else:
                    import math
                    a = None if f.lo is None or f.lo == float('inf') else math.trunc(f.lo)
                    b = None if f.hi is None or f.hi == float('inf') else math.trunc(f.hi)
                    if a is None or b is None or a < lo or b > hi:
                        self.client_event(s, 'float_conv', f, e)
                        if a is None and f.lo is None or f.hi is None: self.note_unsupported(s, 'unknown number', e)
                        out.append((s, fresh('fti', lo, hi)))
                    else: out.append((s, fresh('fti', a, b)))
            else:
                self.note_unsupported(s, 'cast ' + ck, e)
                out.append((s, v))
        return out

    def bitcast(self, s, v, e):
        t = self.ty(e['t'])
        pt = self.ty(t['p']) if t.get('k') == 'ptr' else None
        if isinstance(v, Loc) and pt is not None and (pt.get('k') == 'int' and pt.get('bits') == 8 or pt.get('k') == 'void'):
            st_ = e['e']['t']
            src = self.ty(st_)
            sz = None
            if src.get('k') == 'ptr':
                ps = self.ty(src['p'])
                sz = (ps.get('bits') or 0) // 8 or None
                if ps.get('k') == 'int' and ps.get('bits') == 8: return SPtr(v, 1)
            return SPtr(v, sz)
        return v

    def e_Mat(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if s.exc: out.append((s, None)); continue
            if isinstance(v, (ObjRef, Loc, Elem)) and (isinstance(v, ObjRef) and self.is_class(e['t']) or isinstance(v, (Loc, Elem)) and e['e'].get('lv')):
                out.append((s, v))
            else:
                o = s.alloc('cell', None, {'v': v})
                out.append((s, Loc(o, 'v')))
        return out

    def e_Un(self, e, st):
        op = e['op']
        if op == '!':
            return [(s, (None if s.exc else (ZERO if b else ONE))) for s, b in self.cond(e['e'], st)]
        out = []
        for s, v in self.ev(e['e'], st):
            if s.exc: out.append((s, None)); continue
            if op == '&':
                if isinstance(v, Elem): v = Ptr(v.b, v.off)
                out.append((s, v))
            elif op == '*':
                out.append((s, self.lib.deref(s, v, e)))
            elif op in ('++', '--'):
                old = self.load(s, v, e['t'], e)
                new = self.incdec(s, old, op, e['t'], e)
                self.store(s, v, new, e)
                out.append((s, old if e['post'] else v))
            elif op == '-':
                if isinstance(v, Flo): out.append((s, Flo(None if v.hi is None else -v.hi, None if v.lo is None else -v.lo)))
                else: out.append((s, self.wrap(s, -v, e['t'], e)))
            elif op == '+': out.append((s, v))
            elif op == '~':
                lo, hi = self.range_of(e['t'])
                out.append((s, const(hi) - v if lo == 0 else -v - 1))
            else:
                self.note_unsupported(s, 'unary ' + op, e)
                out.append((s, self.symbolic(s, e['t'], 'un')))
        return out

    def incdec(self, s, old, op, t, e):
        d = 1 if op == '++' else -1
        if isinstance(old, Lin):
            bits = self.ty(self.p.strip(t)).get('bits', 32)
            r = old + d
            w = self.wrap(s, r, t, e, assume=(op == '++' and bits >= 32))
            if w != r: self.client_event(s, 'inc_wrap', old, w, e)
            return w
        if isinstance(old, Ptr): return Ptr(old.b, old.off + d)
        if isinstance(old, SPtr): return SPtr(old.loc, old.size, old.off + d)
        if isinstance(old, Opq): return Opq(('inc', old.tag))
        if isinstance(old, Flo): return self.farith(s, '+', old, Flo(d, d, const(d)))
        raise Unsupported('increment of %r' % (old,))

    def e_Bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, None if s.exc else (ONE if b else ZERO)) for s, b in self.cond(e, st)]
        if op == ',':
            out = []
            for s, _ in self.ev(e['a'], st): out += self.ev(e['b'], s)
            return out
        if op == '=':
            out = []
            for s, b in self.ev(e['b'], st):
                if s.exc: out.append((s, None)); continue
                for s2, a in self.ev(e['a'], s):
                    if s2.exc: out.append((s2, None)); continue
                    v = self.load(s2, b, e['t'], e) if isinstance(b, (Loc, Elem)) and not self.is_ref_like(e['b']) else b
                    self.store(s2, a, v, e)
                    out.append((s2, a))
            return out
        out = []
        for s, (vs) in self.ev_list([e['a'], e['b']], st):
            if s.exc: out.append((s, None)); continue
            a, b = vs
            if isinstance(a, (Loc, Elem)) and not self.is_ptr_t(e['a']): a = self.load(s, a, e['a']['t'], e)
            if isinstance(b, (Loc, Elem)) and not self.is_ptr_t(e['b']): b = self.load(s, b, e['b']['t'], e)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                for s2, r in self.compare(s, op, a, b, e): out.append((s2, ONE if r else ZERO))
            else:
                out.append((s, self.arith(s, op, a, b, e['t'], e)))
        return out

    def is_ptr_t(self, e): return self.ty(self.p.strip(e['t'])).get('k') == 'ptr'
    def is_ref_like(self, e): return self.is_ptr_t(e)

    def compare(self, s, op, a, b, e):
        if isinstance(a, Lin) and isinstance(b, Lin): return self.cmp(s, op, a, b)
        if isinstance(a, Flo) or isinstance(b, Flo): return self.fcmp(s, op, e['a'], e['b'], a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b: return self.cmp(s, op, a.off, b.off)
        if op in ('==', '!='):
            known = (ObjRef, Ptr, SPtr, Loc, Null, Fn)
            if isinstance(a, known) and isinstance(b, known):
                if isinstance(a, Null) or isinstance(b, Null) or type(a) == type(b):
                    same = (a == b)
                    return [(s, same == (op == '=='))]
        s2 = s.copy()
        return [(s, True), (s2, False)]

    def e_CAssign(self, e, st):
        op = e['op'][:-1]
        out = []
        for s, b in self.ev(e['b'], st):
            if s.exc: out.append((s, None)); continue
            for s2, a in self.ev(e['a'], s):
                if s2.exc: out.append((s2, None)); continue
                old = self.load(s2, a, e['a']['t'], e)
                if isinstance(b, (Loc, Elem)): b2 = self.load(s2, b, e['b']['t'], e)
                else: b2 = b
                if isinstance(old, Lin) and isinstance(b2, Lin):
                    bits = self.ty(self.p.strip(e['a']['t'])).get('bits', 32)
                    r = self.arith(s2, op, old, b2, e['ct'], e)
                    if op == '+' and bits >= 32: v = self.wrap(s2, r, e['a']['t'], e, assume=True)
                    else: v = self.wrap(s2, r, e['a']['t'], e)
                else:
                    v = self.arith(s2, op, old, b2, e['a']['t'], e)
                self.store(s2, a, v, e)
                out.append((s2, a))
        return out

    def e_Cond(self, e, st):
        out = []
        for s, b in self.cond(e['c'], st):
            if s.exc: out.append((s, None)); continue
            out += self.ev(e['a'] if b else e['b'], s)
        return out

    def e_Index(self, e, st):
        out = []
        for s, vs in self.ev_list([e['a'], e['b']], st):
            if s.exc: out.append((s, None)); continue
            a, i = vs
            if isinstance(a, Lin): a, i = i, a
            if isinstance(i, (Loc, Elem)): i = self.load(s, i, None, e)
            if isinstance(a, Loc) : a = self.load(s, a, None, e)
            if isinstance(a, Ptr): out.append((s, Elem(a.b, a.off + i)))
            else:
                if not isinstance(a, Opq): self.note_unsupported(s, 'index', e)
                out.append((s, Loc(s.alloc('cell', None, {'v': self.symbolic(s, e['t'], 'idx')}), 'v')))
        return out

    def e_InitList(self, e, st):
        k = self.kind_of(e['t'])
        if not self.is_class(e['t']):
            if not e['a']: return [(st, self.default_value(st, e['t'], 'init'))]
            return [(s, v if s.exc else (self.load(s, v, e['t'], e) if isinstance(v, (Loc, Elem)) and not e['a'][0].get('lv') is None and False else v)) for s, v in self.ev(e['a'][0], st)]
        out = []
        for s, vs in self.ev_list(e['a'], st):
            if s.exc: out.append((s, None)); continue
            if k == 'array' or k == 'vec':
                n = len(vs)
                b = s.alloc('buf', e['t'], {'size': const(n), 'et': None, 'gen': new_oid(), 'w': tuple((const(i), self.load(s, v)) for i, v in enumerate(vs))})
                out.append((s, ObjRef(s.alloc('vec', e['t'], {'buf': ObjRef(b)}))))
                continue
            rid = self.p.rec_of(e['t'])
            o = s.alloc('rec', rid, {})
            fs = self.fields_of(rid) if rid is not None else []
            for i, v in enumerate(vs):
                if i < len(fs): s.set(o, fs[i]['n'], self.init_value(s, fs[i]['t'], v, e))
            out.append((s, ObjRef(o)))
        return out

    def e_StdInitList(self, e, st): return self.ev(e['e'], st)
    def e_ArrayInitLoop(self, e, st): return [(st, Opq(('arr',)))]

    def e_Lambda(self, e, st):
        caps = {}
        states = [(st, {})]
        for c in e['caps']:
            ns = []
            for s, m in states:
                if c.get('this'):
                    m2 = dict(m); m2['this'] = s.heap[s.ghost['frame']].f['this']; ns.append((s, m2)); continue
                for s2, v in self.ev(c['init'], s):
                    m2 = dict(m)
                    if c.get('byref'): m2[c['d']] = Alias(v)
                    else:
                        m2[c['d']] = self.load(s2, v) if isinstance(v, (Loc, Elem)) else v
                    ns.append((s2, m2))
            states = ns
        out = []
        for s, m in states:
            o = s.alloc('closure', None, {'op': e['op'], 'caps': Caps(m)})
            out.append((s, ObjRef(o)))
        return out

    def call_closure(self, st, clo, args, ast):
        ob = st.heap[clo.o]
        caps = ob.f['caps'].m
        this = caps.get('this')
        return self.inline(st, ob.f['op'], this, args, ast, captured={k: v for k, v in caps.items() if k != 'this'})

    def e_New(self, e, st):
        out = []
        init = e.get('init')
        if e.get('array'):
            for s, n in (self.ev(e['size'], st) if 'size' in e else [(st, ZERO)]):
                if s.exc: out.append((s, None)); continue
                if isinstance(n, (Loc, Elem)): n = self.load(s, n)
                b = s.alloc('buf', e['t'], {'size': n, 'et': e['at'], 'gen': new_oid(), 'w': (), 'heap': 1})
                self.client_event(s, 'new_array', b, n, e)
                out.append((s, Ptr(b, ZERO)))
            res = []
            for s, v in out:
                res.append((s, v))
                if e.get('place') and not s.exc:
                    s2 = s.copy(); res.append((s2, NULL))
            return res
        for s, v in (self.ev(init, st) if init else [(st, None)]):
            if s.exc: out.append((s, None)); continue
            if v is None: v = self.default_value(s, e['at'], 'new')
            if not isinstance(v, ObjRef):
                v = Loc(s.alloc('cell', None, {'v': v}), 'v')
            self.client_event(s, 'new', v, e)
            out.append((s, v))
            if e.get('place'):
                s2 = s.copy(); out.append((s2, NULL))
        return out

    def e_Delete(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if not s.exc:
                if isinstance(v, Loc): v = self.load(s, v)
                self.client_event(s, 'delete', v, e.get('array'), e)
            out.append((s, NULL))
        return out

    def e_Throw(self, e, st):
        out = []
        if 'e' not in e:
            st.exc = ('rethrow', None, e['l'])
            return [(st, None)]
        t = e['e']['t']
        for s, v in self.ev(e['e'], st):
            if not s.exc:
                s.exc = (self.p.strip(t), v, e['l'])
                self.client_event(s, 'throw', self.p.strip(t), e)
            out.append((s, None))
        return out

    def e_StmtExpr(self, e, st):
        return [(s, NULL) for s, c in self.exec(e['s'], st)]

    def e_Ctor(self, e, st):
        out = []
        dd = self.p.decls[e['callee']]
        rid = dd.get('rec')
        # value records: copies of iterators and the like
        for s, vs in self.ev_list(e['a'], st):
            if s.exc: out.append((s, None)); continue
            out += self.construct(s, e, e['callee'], vs, e)
        return out

    def e_Call(self, e, st):
        if 'callee' in e:
            out = []
            for s, vs in self.ev_list(e['a'], st):
                if s.exc: out.append((s, None)); continue
                out += self.call(s, e['callee'], None, list(vs), e)
            return out
        out = []
        for s, f in self.ev(e['fn'], st):
            if s.exc: out.append((s, None)); continue
            if isinstance(f, Loc): 
                floc = f
                f = self.load(s, f, e['fn']['t'], e)
            for s2, vs in self.ev_list(e['a'], s):
                if s2.exc: out.append((s2, None)); continue
                if isinstance(f, Fn): out += self.call(s2, f.d, None, list(vs), e)
                else: out += self.lib.indirect(s2, e, f, list(vs))
        return out

    def e_MCall(self, e, st):
        out = []
        for s, o in self.ev(e['obj'], st):
            if s.exc: out.append((s, None)); continue
            if isinstance(o, Loc) and (e.get('arrow') or self.is_class(e['obj']['t'])): o = self.load(s, o, e['obj']['t'], e)
            for s2, vs in self.ev_list(e['a'], s):
                if s2.exc: out.append((s2, None)); continue
                if 'callee' in e: out += self.call(s2, e['callee'], o, list(vs), e)
                else:
                    self.note_unsupported(s2, 'pointer to member call', e)
                    out.append((s2, self.symbolic(s2, e['t'], 'pm')))
        return out

    def e_OpCall(self, e, st):
        out = []
        for s, vs in self.ev_list(e['a'], st):
            if s.exc: out.append((s, None)); continue
            if 'callee' not in e:
                self.note_unsupported(s, 'operator call', e)
                out.append((s, self.symbolic(s, e['t'], 'op'))); continue
            dd = self.p.decls[e['callee']]
            if 'rec' in dd and not dd.get('static'):
                this, args = vs[0], list(vs[1:])
                if isinstance(this, Loc) and self.is_class(e['a'][0]['t']): this = self.load(s, this, e['a'][0]['t'], e)
                if isinstance(this, Elem) and self.is_class(e['a'][0]['t']): this = self.load(s, this, e['a'][0]['t'], e)
                if isinstance(this, ObjRef) and this.o in s.heap and s.heap[this.o].kind == 'closure' and e['op'] == '()':
                    out += self.call_closure(s, this, args, e)
                    continue
                out += self.call(s, e['callee'], this, args, e)
            else:
                out += self.call(s, e['callee'], None, list(vs), e)
        return out

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        states = [(st, None)]
        for x in stmts:
            ns = []
            for s, c in states:
                if c is not None or s.exc: ns.append((s, c)); continue
                ns += self.exec(x, s)
            states = ns
            if len(states) > 3000: raise Budget('too many states at ' + self.p.loc(x['l']))
        self.leave(stmts, states)
        return states

    def leave(self, stmts, states):
        """Variables of a block end with it."""
        ds = [v['d'] for x in stmts if x is not None and x['k'] == 'Decl' for v in x['v'] if not v.get('static')]
        if not ds: return
        for s, c in states:
            if s.exc or c is not None and isinstance(c, tuple): continue
            fr = s.ghost['frame']
            ob = s.heap[fr]
            if any(d in ob.f for d in ds):
                s.heap[fr] = Obj(ob.kind, ob.t, {k: v for k, v in ob.f.items() if k not in ds})

    def exec(self, x, st):
        """[(state, control)], control in None, 'break', 'continue', ('ret', v)"""
        if x is None: return [(st, None)]
        if st.exc: return [(st, None)]
        k = x['k']
        if k == 'Block': return self.exec_block(x['s'], st)
        if k == 'Expr':
            y = x['e']
            while y.get('k') in ('Mat', 'Cast', 'Ctor') and (y.get('e') or (y.get('a') and len(y['a']) == 1)):
                y = y.get('e') or y['a'][0]
            if y.get('k') == 'MCall': y['_discard'] = True
            return [(s, None) for s, v in self.ev(x['e'], st)]
        if k == 'Decl': return self.exec_decl(x, st)
        if k == 'If':
            states = [(st, None)]
            if 'init' in x: states = self.exec(x['init'], st)
            out = []
            for s, _ in states:
                if s.exc: out.append((s, None)); continue
                ss = self.exec(x['cvar'], s) if 'cvar' in x else [(s, None)]
                for s1, _ in ss:
                    for s2, b in self.cond(x['c'], s1):
                        if s2.exc: out.append((s2, None))
                        elif b: out += self.exec(x['a'], s2)
                        elif 'b' in x: out += self.exec(x['b'], s2)
                        else: out.append((s2, None))
            return out
        if k == 'Return':
            if 'e' not in x: return [(st, ('ret', None))]
            out = []
            for s, v in self.ev(x['e'], st):
                out.append((s, None if s.exc else ('ret', v)))
            return out
        if k in ('While', 'For', 'Do', 'ForRange'): return self.exec_loop(x, st)
        if k == 'Break': return [(st, 'break')]
        if k == 'Continue': return [(st, 'continue')]
        if k == 'Null': return [(st, None)]
        if k == 'Switch': return self.exec_switch(x, st)
        if k in ('Case', 'Default', 'Label'): return self.exec(x['s'], st)
        if k == 'Try': return self.exec_try(x, st)
        self.note_unsupported(st, 'statement ' + k, x)
        return [(st, None)]

    def exec_decl(self, x, st):
        states = [st]
        for v in x['v']:
            ns = []
            for s in states:
                if s.exc: ns.append(s); continue
                fr = s.ghost['frame']
                if 'init' in v:
                    for s2, val in self.ev(v['init'], s):
                        if not s2.exc:
                            ty = self.ty(v['t'])
                            if ty.get('k') == 'ref':
                                if not isinstance(val, (Loc, Elem, ObjRef)): val = Loc(s2.alloc('cell', None, {'v': val}), 'v')
                                s2.set(fr, v['d'], val)
                            else:
                                if isinstance(val, (Loc, Elem)) and not self.is_ptr_t({'t': v['t']}): val = self.load(s2, val, v['t'], x)
                                if isinstance(val, ObjRef) and ty.get('k') == 'rec' and v['init'].get('lv'):
                                    val = ObjRef(self.clone(s2, val.o))
                                s2.set(fr, v['d'], val)
                        ns.append(s2)
                else:
                    if self.is_class(v['t']): s.set(fr, v['d'], self.default_value(s, v['t'], v['n']))
                    else: s.set(fr, v['d'], self.symbolic(s, v['t'], v['n']))
                    ns.append(s)
            states = ns
        return [(s, None) for s in states]

    def exec_switch(self, x, st):
        out = []
        body = x['s']
        stmts = body['s'] if body['k'] == 'Block' else [body]
        flat = []     # (labels, stmt)
        for b in stmts:
            labels = []
            while b['k'] in ('Case', 'Default'):
                labels.append(b.get('v') if b['k'] == 'Case' else None)
                b = b['s']
            flat.append((labels, b))
        pre = [(st, None)]
        if 'init' in x: pre = self.exec(x['init'], st)
        if 'cvar' in x: pre = [y for s, _ in pre for y in self.exec(x['cvar'], s)]
        for s0, _ in pre:
            for s, v in self.ev(x['c'], s0):
                if s.exc: out.append((s, None)); continue
                if isinstance(v, (Loc, Elem)): v = self.load(s, v)
                rest = s
                default_i = None
                for i, (labels, _) in enumerate(flat):
                    for lb in labels:
                        if lb is None: default_i = i; continue
                        if rest is None: continue
                        cv = const(int(lb['cv'])) if 'cv' in lb else self.ev(lb, rest)[0][1]
                        nxt = None
                        for s2, b in (self.cmp(rest, '==', v, cv) if isinstance(v, Lin) else [(rest.copy(), True), (rest, False)]):
                            if b: out += self.run_from(flat, i, s2)
                            else: nxt = s2
                        rest = nxt
                if rest is not None:
                    if default_i is not None: out += self.run_from(flat, default_i, rest)
                    else: out.append((rest, None))
        return [(s, None if c == 'break' else c) for s, c in out]

    def run_from(self, flat, i, st):
        return self.exec_block([b for _, b in flat[i:]], st)

    def exc_matches(self, t, ht):
        """Does a handler for record type ht catch an exception of type t (type ids)?"""
        a, b = self.p.rec_of(t), self.p.rec_of(ht)
        if a is None or b is None: return self.ty(t)['s'] == self.ty(ht)['s']
        seen = [a]
        while seen:
            r = seen.pop()
            if r == b: return True
            seen += self.p.records[r].get('bases') or []
        return False

    def exec_try(self, x, st):
        out = []
        for s, c in self.exec(x['s'], st):
            if not s.exc: out.append((s, c)); continue
            exc = s.exc
            handled = False
            for h in x['h']:
                if 't' not in h or (isinstance(exc[0], int) and self.exc_matches(exc[0], h['t'])):
                    s.exc = None
                    if 'd' in h and exc[1] is not None:
                        s.set(s.ghost['frame'], h['d'], exc[1])
                    self.client_event(s, 'catch', exc, h)
                    for s2, c2 in self.exec(h['s'], s):
                        if s2.exc and s2.exc[0] == 'rethrow': s2.exc = exc
                        out.append((s2, c2))
                    handled = True
                    break
            if not handled: out.append((s, c))
        return out

    # ------------------------------------------------------------ loops
    def exec_loop(self, x, st):
        k = x['k']
        pre = [(st, None)]
        if k == 'For' and 'init' in x: pre = self.exec(x['init'], st)
        if k == 'ForRange':
            for part in ('range', 'begin', 'end'):
                np = []
                for s, _ in pre:
                    if s.exc: np.append((s, None))
                    else: np += self.exec(x[part], s)
                pre = np
        out = []
        for s, _ in pre:
            if s.exc: out.append((s, None)); continue
            out += self.loop(x, s)
        return out

    def loop(self, x, st0):
        k = x['k']
        rec = LoopRec(self.p.loc(x['l']), x)
        rec.entry = st0.copy()
        self.loops.append(rec)
        entry_trace = st0.trace
        def test(s):
            if k == 'Do' or ('c' not in x): return [(s, True)]
            if 'cvar' in x:
                r = []
                for s1, _ in self.exec(x['cvar'], s): r += self.cond(x['c'], s1)
                return r
            return self.cond(x['c'], s)
        def iterate(head, collect):
            """Runs one iteration from a head state. Returns (back edges, exits)."""
            back, exits = [], []
            s = head.copy()
            base = s.trace
            for s1, b in test(s):
                if s1.exc: exits.append((s1, None)); continue
                if not b: exits.append((s1, None)); continue
                states = [(s1, None)]
                if k == 'ForRange': states = self.exec(x['var'], s1)
                for s2, _ in states:
                    if s2.exc: exits.append((s2, None)); continue
                    for s3, c in self.exec(x['s'], s2):
                        if s3.exc or isinstance(c, tuple): exits.append((s3, c)); continue
                        if k == 'ForRange': self.leave([x['var']], [(s3, None)])
                        if c == 'break': exits.append((s3, None)); continue
                        nxt = [(s3, None)]
                        if 'inc' in x: nxt = [(s4, None) for s4, _ in self.ev(x['inc'], s3)]
                        for s4, _ in nxt:
                            if s4.exc: exits.append((s4, None)); continue
                            if k == 'Do':
                                for s5, b5 in self.cond(x['c'], s4):
                                    if s5.exc: exits.append((s5, None))
                                    elif b5: back.append((s5, base))
                                    else: exits.append((s5, None))
                            else: back.append((s4, base))
            return back, exits
        if self.unroll:
            outs, states = [], [st0]
            for i in range(self.unroll + 1):
                nstates = []
                for s in states:
                    b0 = s.trace
                    back, exits = iterate(s, False)
                    outs += exits
                    for s2, base in back:
                        evs = []
                        t = s2.trace
                        while t is not None and t is not base:
                            evs.append(t[1]); t = t[0]
                        evs.reverse()
                        rec.bodies.append((s, evs, s2))
                        nstates.append(s2)
                states = nstates
                if not states: break
                if len(states) > 200: raise Budget('unrolling of ' + rec.loc)
            return outs
        heads = {}
        order = []
        work = []
        def arrive(s, base):
            if base is not None:
                evs = []
                t = s.trace
                while t is not None and t is not base:
                    evs.append(t[1]); t = t[0]
                evs.reverse()
                s.ghost['_body'] = evs
            s = s.copy()
            s.ghost.pop('_body', None)
            s.trace = (entry_trace, ('loop', rec))
            for s1 in (self.client.split_head(self, s) if self.client else [s]): arrive1(s1)
        def arrive1(s):
            self.abstract(s)
            key, lins, names = self.canon(s)
            h = heads.get(key)
            if h is None:
                heads[key] = [s, lins, set(), 0, names]
                work.append(key)
                return
            if self.subsumed(h, s, lins): return
            h2 = self.join(h, s, lins, names)
            heads[key] = h2
            if key not in work: work.append(key)
        arrive(st0, None)
        final = {}
        rounds = 0
        while work:
            rounds += 1
            if rounds > 400: raise Budget('loop does not stabilise at ' + rec.loc)
            key = work.pop(0)
            head = heads[key][0]
            back, exits = iterate(head, False)
            final[key] = (back, exits)
            for s, base in back:
                arrive(s, base)
        rec.bodies = []
        outs = []
        for key in heads:
            back, exits = final[key]
            for s, base in back:
                evs = []
                t = s.trace
                while t is not None and t is not base:
                    evs.append(t[1]); t = t[0]
                evs.reverse()
                rec.bodies.append((heads[key][0], evs, s))
            outs += exits
        return outs

    # canonical shape of a state -------------------------------------------------
    def roots(self, s):
        r = []
        for o, ob in s.heap.items():
            if ob.kind in ('frame', 'globals', 'root'): r.append(o)
        return sorted(r)

    def reach(self, s, keep_entries):
        """Reachable oids in deterministic order; container entries only if pinned."""
        seen = {}
        order = []
        def visit(v):
            if isinstance(v, ObjRef): go(v.o)
            elif isinstance(v, Loc): go(v.o)
            elif isinstance(v, (Ptr, Elem)): go(v.b)
            elif isinstance(v, SPtr): visit(v.loc)
            elif isinstance(v, It):
                go(v.c)
                if v.e is not None: go(v.e)
            elif isinstance(v, Alias): visit(v.v)
            elif isinstance(v, Ins): visit(v.o)
            elif isinstance(v, Caps):
                for q in sorted(v.m, key=str): visit(v.m[q])
        def go(o):
            if o in seen or o not in s.heap: return
            seen[o] = len(order)
            order.append(o)
            ob = s.heap[o]
            for k in sorted(ob.f, key=str):
                if k == 'ents':
                    if keep_entries:
                        for e in ob.f[k]: go(e)
                    continue
                if k == 'gaps' or k == 'w': continue
                visit(ob.f[k])
        for o in self.roots(s): go(o)
        for k in sorted(s.ghost, key=str): visit(s.ghost[k])
        return order, seen

    def abstract(self, s):
        """Forgets what is not needed at a loop head: unreachable objects, unpinned entries."""
        order, pinned = self.reach(s, False)
        # entries to keep: pinned by iterators / pointers to their contents, or witnesses
        for o in list(pinned):
            pass
        changed = True
        while changed:
            changed = False
            for o, ob in list(s.heap.items()):
                if ob.kind in ('map', 'set', 'list') and o in pinned:
                    for e in ob.f['ents']:
                        if e in pinned: continue
                        eo = s.heap[e]
                        keep = False
                        sec = eo.f.get('second')
                        if isinstance(sec, ObjRef) and not eo.f.get('ptr') and sec.o in pinned: keep = True
                        if self.client and self.client.keep_entry(self, s, o, e): keep = True
                        if keep:
                            pinned[e] = 1; changed = True
                            for v in eo.f.values():
                                if isinstance(v, ObjRef) and v.o not in pinned:
                                    pinned[v.o] = 1
                                    self._pin(s, v.o, pinned)
                                elif isinstance(v, It): self._pin_it(s, v, pinned)
        for o, ob in list(s.heap.items()):
            if o not in pinned: continue
            if ob.kind in ('map', 'set', 'list'):
                self.lib.forget_entries(s, o, pinned)
            elif ob.kind == 'buf' and (ob.f.get('w') or ob.f.get('objs')):
                s.update(o, w=(), gen=new_oid() if ob.f.get('w') else ob.f.get('gen'), objs=None)
        for o in list(s.heap):
            if o not in pinned: del s.heap[o]
        # drop facts about symbols that no longer occur
        self.prune_facts(s)

    def _pin(self, s, o, pinned):
        stack = [o]
        while stack:
            x = stack.pop()
            ob = s.heap.get(x)
            if ob is None: continue
            pinned[x] = 1
            for k, v in ob.f.items():
                if isinstance(v, ObjRef) and v.o not in pinned: stack.append(v.o)
                elif isinstance(v, It): self._pin_it(s, v, pinned)

    def _pin_it(self, s, v, pinned):
        for o in (v.c, v.e):
            if o is not None and o in s.heap and o not in pinned:
                self._pin(s, o, pinned)

    def live_syms(self, s):
        syms = set()
        def add(v):
            if isinstance(v, Lin):
                for q, _ in v.t: syms.add(q)
            elif isinstance(v, (Ptr, Elem)): add(v.off)
            elif isinstance(v, SPtr): add(v.off)
            elif isinstance(v, Flo) and v.lin is not None: add(v.lin)
            elif isinstance(v, Flo) and v.rat is not None: add(v.rat[0]); add(v.rat[1])
            elif isinstance(v, Alias): add(v.v)
            elif isinstance(v, Caps):
                for q in v.m.values(): add(q)
        for ob in s.heap.values():
            for k, v in ob.f.items():
                if k == 'gaps':
                    for a, b in v:
                        if a is not None: add(a)
                        if b is not None: add(b)
                else: add(v)
        for k, v in s.ghost.items(): add(v)
        if self.client:
            for v in self.client.live(self, s): add(v)
        return syms

    def prune_facts(self, s):
        live = self.live_syms(s)
        # facts over live symbols, closed under connection (a fact linking two live symbols through
        # a dead one is kept)
        keep = []
        pend = []
        for f in s.facts:
            if all(q in live for q, _ in f.t): keep.append(f)
            else: pend.append(f)
        # dead symbols that occur in at least two pending facts may still carry information
        cnt = {}
        for f in pend:
            for q, _ in f.t:
                if q not in live: cnt[q] = cnt.get(q, 0) + 1
        pend2 = [f for f in pend if all(q in live or cnt[q] >= 2 for q, _ in f.t)]
        # project dead symbols out of the pending facts when small
        proj = self.project(pend2, live)
        s.facts = tuple(dict.fromkeys(keep + proj))
        s.neqs = tuple(n for n in s.neqs if all(q in live for q, _ in n.t))

    def project(self, facts, live):
        facts = list(dict.fromkeys(facts))
        # equalities first: exact substitution of dead symbols
        again = True
        while again:
            again = False
            fs = set(facts)
            for f in facts:
                if -f not in fs: continue
                dead = [(q, k) for q, k in f.t if q not in live and k in (1, -1)]
                if not dead: continue
                q, k = dead[0]
                e = (Lin(((q, k),), 0) - f).scale(k)     # q == e
                new = []
                for g in facts:
                    if g is f or g == f or g == -f: continue
                    h = g.subst({q: e})
                    if h.t: new.append(h)
                y = SYMS[q]
                if y.lo is not None: new.append(e - y.lo)
                if y.hi is not None: new.append(const(y.hi) - e)
                facts = [g for g in dict.fromkeys(new) if g.t]
                again = True
                break
        facts = [g for g in facts if not self.trivial(g)]
        dead = set(q for f in facts for q, _ in f.t if q not in live)
        for d in dead:
            P, N, R = [], [], []
            for f in facts:
                k = dict(f.t).get(d, 0)
                (P if k > 0 else N if k < 0 else R).append((f, k))
            if len(P) * len(N) > 40: return [f for f in facts if all(q in live for q, _ in f.t)]
            facts = [f for f, _ in R]
            y = SYMS[d]
            P = [(f, k) for f, k in P] + ([(Lin(((d, 1),), -y.lo), 1)] if y.lo is not None else [])
            N = [(f, k) for f, k in N] + ([(Lin(((d, -1),), y.hi), -1)] if y.hi is not None else [])
            for f1, k1 in P:
                for f2, k2 in N:
                    l = f1.scale(-k2) + f2.scale(k1)
                    if l.t: facts.append(l)
            if len(facts) > 60: return [f for f in facts if all(q in live for q, _ in f.t)]
        return facts

    def trivial(self, l):
        lo, hi = bounds(l)
        return lo is not None and lo >= 0

    def canon(self, s):
        """(shape key, list of terms, oid order)"""
        order, num = self.reach(s, True)
        lins = []
        def c(v):
            if isinstance(v, Lin):
                lins.append(v); return 'n'
            if isinstance(v, ObjRef): return ('o', num.get(v.o, -1))
            if isinstance(v, Loc): return ('l', num.get(v.o, -1), v.k)
            if isinstance(v, Ptr): lins.append(v.off); return ('p', num.get(v.b, -1))
            if isinstance(v, Elem): lins.append(v.off); return ('e', num.get(v.b, -1))
            if isinstance(v, SPtr): return ('s', c(v.loc))
            if isinstance(v, It): return ('i', num.get(v.c, -1), num.get(v.e, -1) if v.e is not None else None, v.rev)
            if isinstance(v, Alias): return ('a', c(v.v))
            if isinstance(v, Caps): return ('c', tuple((str(q), c(v.m[q])) for q in sorted(v.m, key=str)))
            if isinstance(v, Flo): return ('f', v.lo, v.hi)
            if isinstance(v, Opq): return 'q'
            if isinstance(v, (Null, Fn)): return ('k', repr(v) if isinstance(v, Null) else v.d)
            if isinstance(v, tuple): return tuple(c(z) for z in v)
            if isinstance(v, Ins): return ('ins', c(v.o), v.how)
            return v
        shape = []
        for o in order:
            ob = s.heap[o]
            row = [ob.kind, ob.t]
            for k in sorted(ob.f, key=str):
                v = ob.f[k]
                if k in ('gen', 'name', 'copyof'): continue
                if k == 'ents': row.append((k, tuple(num[e] for e in v)))
                elif k == 'gaps':
                    row.append((k, tuple((None if a is None else c(a), None if b is None else c(b)) for a, b in v)))
                elif k == 'w': row.append((k, len(v)))
                else: row.append((str(k), c(v)))
            shape.append(tuple(row))
        gh = tuple((k, c(s.ghost[k]) if not isinstance(s.ghost[k], (int, str, bool, type(None))) or k in ('frame', 'globals') else s.ghost[k])
                   for k in sorted(s.ghost, key=str) if k not in ('frame', 'globals', '_body'))
        extra = self.client.shape(self, s, num) if self.client else ()
        return (tuple(shape), gh, extra, s.imprecise is not None), lins, order

    def subsumed(self, h, s, lins):
        head, hl, hs, n, _ = h
        sub = {}
        for a, b in zip(hl, lins):
            q = a.sym()
            if q is not None and q in hs:
                if q in sub:
                    if sub[q] != b and s.eq(sub[q], b) is not True: return False
                else: sub[q] = b
        for a, b in zip(hl, lins):
            if a == b: continue
            a2 = a.subst(sub)
            if a2 == b: continue
            if s.eq(a2, b) is not True: return False
        for q, b in sub.items():
            lo, hi = SYMS[q].lo, SYMS[q].hi
            if lo is not None and not s.entails(b - lo): return False
            if hi is not None and not s.entails(const(hi) - b): return False
        for f in head.facts:
            if not s.entails(f.subst(sub)): return False
        for nq in head.neqs:
            x = nq.subst(sub)
            if s.eq(x, ZERO) is not False: return False
        return True

    def join(self, h, s, lins, names):
        """Join of a head with an arriving state of the same shape."""
        head, hl, hs, n, hnames = h
        n += 1
        newsyms = {}
        subh, subs = {}, {}      # new symbol -> value in head / in s
        pos = []
        hs2 = set()
        olds = {}
        for a, b in zip(hl, lins):
            q = a.sym()
            if q is not None and q in hs and q not in olds: olds[q] = b
        # a head symbol whose declared range the arriving value leaves gets a wider one
        ren = {}
        for q, b in list(olds.items()):
            lo, hi = SYMS[q].lo, SYMS[q].hi
            if (lo is None or s.entails(b - lo)) and (hi is None or s.entails(const(hi) - b)): continue
            a = Lin(((q, 1),), 0)
            nlo, nhi = self.hull(head, a, s, b, n)
            x = fresh('j', nlo, nhi)
            ren[q] = x
            olds[x.sym()] = olds.pop(q)
        if ren:
            head = head.copy()
            extra = []
            for q in ren:
                if SYMS[q].lo is not None: extra.append(ren[q] - SYMS[q].lo)
                if SYMS[q].hi is not None: extra.append(const(SYMS[q].hi) - ren[q])
            head.facts = tuple(f.subst(ren) for f in head.facts) + tuple(extra)
            head.neqs = tuple(f.subst(ren) for f in head.neqs)
            hl = [a.subst(ren) for a in hl]
            hs = set(q for q in hs if q not in ren) | set(x.sym() for x in ren.values())
        out = []
        for a, b in zip(hl, lins):
            if a == b and not any(q in hs for q, _ in a.t):
                out.append(a); continue
            q = a.sym()
            if q is not None and q in hs and (olds.get(q) == b or s.eq(olds[q], b) is True):
                out.append(a); hs2.add(q); continue
            if a == b:
                # expression over head symbols that happens to be equal: only valid if its symbols are unchanged
                if all(q not in hs or (q in olds and olds[q].sym() == q) for q, _ in a.t):
                    out.append(a)
                    for q, _ in a.t:
                        if q in hs: hs2.add(q)
                    continue
            x = newsyms.get((a, b))
            if x is None:
                lo, hi = self.hull(head, a, s, b, n)
                x = fresh('j', lo, hi)
                newsyms[(a, b)] = x
                q2 = x.sym()
                subh[q2] = a; subs[q2] = b
                hs2.add(q2)
            out.append(x)
        # substitution for s: old head symbols
        sub_s = dict(olds); sub_s.update(subs)
        facts = []
        for f in head.facts:
            if not all(q not in hs or q in hs2 for q, _ in f.t): continue
            g = f.subst(sub_s)
            if s.entails(g): facts.append(f)
            elif n <= 4 and len(f.t) == 2:
                for c in (1, 2):
                    if s.entails(g + c): facts.append(f + c); break
        # vocabulary
        vocab = {}
        for l in out:
            if l not in vocab and (l.sym() is not None or l.is_const()): vocab[l] = 1
        extra = self.client.vocabulary(self, head) if self.client else []
        def tiny(l):
            q = l.sym()
            return q is not None and SYMS[q].lo is not None and SYMS[q].hi is not None and SYMS[q].hi - SYMS[q].lo <= 3
        terms = [l for l in vocab if not tiny(l)] + [l for l in extra if l not in vocab]
        news = list(newsyms.values())
        def vals(x): return x.subst(subh), x.subst(sub_s)
        eq_h, eq_s = self.eq_filter(head), self.eq_filter(s)
        for i, x in enumerate(news):
            ax, bx = vals(x)
            dx = bx - ax
            for y in terms:
                if y == x: continue
                ay, by = vals(y)
                isnew = y in news
                if isnew and repr(y) < repr(x) and False: continue
                # equalities
                if isnew:
                    if (ax - ay) == (bx - by): facts += [x - y - (ax - ay), (ax - ay) - x + y]
                    elif (ax + ay) == (bx + by): facts += [x + y - (ax + ay), (ax + ay) - x - y]
                    elif self.rigid(ax - ay, hs) and s.eq(bx - by, ax - ay) is True: facts += [x - y - (ax - ay), (ax - ay) - x + y]
                    elif self.rigid(bx - by, hs) and head.eq(bx - by, ax - ay) is True: facts += [x - y - (bx - by), (bx - by) - x + y]
                    else:
                        dy = by - ay
                        if dx.is_const() and dy.is_const() and dx.c and dy.c and abs(dx.c) < 64 and abs(dy.c) < 64:
                            inv = ax.scale(dy.c) - ay.scale(dx.c)
                            l = x.scale(dy.c) - y.scale(dx.c) - inv
                            facts += [l, -l]
                        elif repr(y) < repr(x) and len(news) <= 6:
                            # x = y + z + c with a term z known on both sides
                            for z in terms:
                                if z.is_const() or z == x or z == y: continue
                                az, bz = vals(z)
                                if not (eq_h(ax - ay - az) and eq_s(bx - by - bz) or eq_h(ay - ax - az) and eq_s(by - bx - bz)): continue
                                c = next((c for c in (0, 1, -1) if head.eq(ax - ay - az, const(c)) is True), None)
                                if c is not None and s.eq(bx - by - bz, const(c)) is True:
                                    facts += [x - y - z - c, y + z - x + c]
                                    break
                                c = next((c for c in (0, 1, -1) if head.eq(ay - ax - az, const(c)) is True), None)
                                if c is not None and s.eq(by - bx - bz, const(c)) is True:
                                    facts += [y - x - z - c, x + z - y + c]
                                    break
                # difference bounds in both directions
                for sg in (1, -1):
                    dh = (ax - ay).scale(sg); ds = (bx - by).scale(sg)
                    c = self.tight(head, dh, s, ds, n)
                    if c is not None:
                        facts.append((x - y).scale(sg) - c)
        # constant bounds of new symbols
        for x in news:
            ax, bx = vals(x)
            for sg in (1, -1):
                c = self.tight(head, ax.scale(sg), s, bx.scale(sg), n)
                if c is not None: facts.append(x.scale(sg) - c)
        # facts true in both (loop invariants over unchanged symbols), and templates from s's path
        ns = head.copy()
        ns.facts = ()
        ns.neqs = tuple(q for q in head.neqs if s.eq(q.subst(sub_s), ZERO) is False)
        for f in dict.fromkeys(facts):
            if f.t and not ns.entails(f): ns.facts = ns.facts + (f,)
        self.rewrite(ns, hnames, out)
        self.prune_facts(ns)
        if s.imprecise and not ns.imprecise: ns.imprecise = s.imprecise
        return [ns, out, hs2, n, hnames]

    def eq_filter(self, st):
        """Predicate: may an expression be constant because of equalities among the facts?"""
        fs = set(st.facts)
        ks = set(q for f in fs if -f in fs for q, _ in f.t)
        return lambda l: all(q in ks for q, _ in l.t)

    def hull(self, head, a, s, b, n):
        """Range of a joined term (widened to thresholds after a few joins)."""
        la, ha = bounds(a); lb, hb = bounds(b)
        if n <= 2:
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            if hi is not None and hi <= 65535: return lo, hi
        elif la is not None and la == lb: lo = la
        else: lo = next((x for x in (1, 0) if head.entails(a - x) and s.entails(b - x)), None)
        if ha is not None and ha == hb:
            hi = ha
            if hi > 65535:
                hi = next((x for x in (65535, (1 << 32) - 1) if x < hi and head.entails(const(x) - a) and s.entails(const(x) - b)), hi)
        else: hi = next((x for x in THRESHOLDS if head.entails(const(x) - a) and s.entails(const(x) - b)), None)
        return lo, hi

    def rigid(self, l, hs):
        return len(l.t) <= 3 and not any(q in hs for q, _ in l.t)

    def tight(self, sa, da, sb, db, n):
        """Largest small c with da >= c in sa and db >= c in sb."""
        for c in ((2, 1, 0, -1) if n <= 3 else (1, 0)):
            if sa.entails(da - c):
                if sb.entails(db - c): return c
        return None

    def rewrite(self, s, order, lins):
        """Replaces the terms of a state, in canonical order, by `lins`."""
        it = iter(lins)
        def c(v):
            if isinstance(v, Lin): return next(it)
            if isinstance(v, Ptr): return Ptr(v.b, next(it))
            if isinstance(v, Elem): return Elem(v.b, next(it))
            if isinstance(v, SPtr): return SPtr(c(v.loc), v.size, v.off)
            if isinstance(v, Alias): return Alias(c(v.v))
            if isinstance(v, Caps): return Caps({q: c(v.m[q]) for q in sorted(v.m, key=str)})
            if isinstance(v, tuple): return tuple(c(z) for z in v)
            if isinstance(v, Ins): return Ins(c(v.o), v.how)
            return v
        for o in order:
            ob = s.heap[o]
            f = {}
            for k in sorted(ob.f, key=str):
                v = ob.f[k]
                if k in ('gen', 'name', 'copyof', 'ents', 'w'): f[k] = v
                elif k == 'gaps':
                    f[k] = tuple((None if a is None else c(a), None if b is None else c(b)) for a, b in v)
                else: f[k] = c(v)
            s.heap[o] = Obj(ob.kind, ob.t, f)
        for k in sorted(s.ghost, key=str):
            if k in ('frame', 'globals', '_body'): continue
            v = s.ghost[k]
            if not isinstance(v, (int, str, bool, type(None))): s.ghost[k] = c(v)

THRESHOLDS = (1, 50, 255, 65535, (1 << 32) - 1, 1 << 40, (1 << 64) - 1)

class Alias(V):
    """Captured reference."""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class Caps(V):
    __slots__ = ('m',)
    def __init__(self, m): self.m = m

class Client:
    """Default policy; checks override what they need."""
    def on_call(self, I, st, d, dd, this, args, ast): return None
    def on_recursion(self, I, st, d, dd, this, args, ast): return None
    def on_return(self, I, d, dd, this, args, res): return res
    def on_event(self, I, st, *a): pass
    def on_store(self, I, st, l, v, ast): pass
    def on_field(self, I, st, o, m, e): pass
    def keep_entry(self, I, st, cont, ent): return False
    def materialize(self, I, st, cont, ent): return [st]
    def live(self, I, st): return ()
    def focus(self, I, st, cont): return ()
    def shape(self, I, st, num): return ()
    def split_head(self, I, st): return [st]
    def vocabulary(self, I, st): return []
    handlers_throw = False
    def absent(self, I, st, cont, key): return [st]
    def forgotten(self, I, st, cont, ents): pass
    def forall(self, I, st, cont, algo, pred, truth, ast): return [st]
    def on_new_container(self, I, st, o, ast): pass
    def list_key(self, I, st, v): return fresh('pos')
