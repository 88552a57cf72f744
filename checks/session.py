"""Objects and entry points of the library for the abstract interpreter."""
import os, signal, time, traceback
import interp as IP
from interp import Interp, State, Client, ObjRef, Loc, Ptr, SPtr, Elem, It, Ins, Opq, NULL, Null, Flo, Budget, Unsupported
from lin import Lin, ZERO, ONE, const, fresh, memo, bounds, SYMS

class Missing(Exception):
    """An anchor of the analysis is not in the program."""

def rec(p, q, full=None):
    r = [i for i in p.find_rec(q, full) if p.records[i].get('fields') is not None]
    if not r: raise Missing('class %s' % q)
    return r[0]

def enc_rec(p): return rec(p, 'ntc::encoder', 'vdrv')
def dec_rec(p): return rec(p, 'ntc::decoder', 'vdrv')
def pkz_rec(p): return rec(p, 'ntc::detail::packetizer', 'vdrv')
def packet_rec(p): return rec(p, 'ntc::packet')

def type_of(p, rid):
    for i, t in enumerate(p.types):
        if t.get('k') == 'rec' and t.get('rec') == rid and not t.get('const'): return i
    for i, t in enumerate(p.types):
        if t.get('k') == 'rec' and t.get('rec') == rid: return i
    raise Missing('type of ' + p.records[rid]['q'])

def methods(p, rid, name, nparams=None, pred=None):
    r = [d for d in p.methods(rid, name) if (nparams is None or len(p.decls[d]['params']) == nparams) and (pred is None or pred(p.decls[d]))]
    return r

def method(p, rid, name, nparams=None, pred=None):
    r = methods(p, rid, name, nparams, pred)
    if not r: raise Missing('%s::%s' % (p.records[rid]['q'], name))
    return r[0]

def param_is(p, i, rid, rv=None):
    """Predicate: parameter i is a reference to class rid (an rvalue one if rv)."""
    def f(dd):
        if i >= len(dd['params']): return False
        t = p.types[dd['params'][i]['t']]
        if p.rec_of(dd['params'][i]['t']) != rid: return False
        return rv is None or (t.get('k') == 'ref' and bool(t.get('rv')) == rv)
    return f

def entry(p, rid, arg_rid):
    """operator() of rid taking an rvalue of class arg_rid."""
    r = methods(p, rid, 'operator()', 1, param_is(p, 0, arg_rid, True))
    if not r: r = methods(p, rid, 'operator()', 1, param_is(p, 0, arg_rid))
    if not r: raise Missing('%s::operator()' % p.records[rid]['q'])
    return r[0]

def ctor(p, rid, nparams=None):
    r = [d for d in p.funcs if p.decls[d].get('rec') == rid and p.decls[d].get('ctor') and p.decls[d]['ctor'] not in ('copy', 'move')
         and (nparams is None or len(p.decls[d]['params']) == nparams)]
    if not r: raise Missing('constructor of ' + p.records[rid]['q'])
    return r[0]

def construct(I, st, rid, args=None):
    """Runs a constructor with unknown arguments: [(state, object)]."""
    p = I.p
    d = ctor(p, rid)
    dd = p.decls[d]
    vs = []
    for pr in dd['params']:
        vs.append(I.symbolic(st, pr['t'], pr['n'] or 'arg'))
    if args:
        for i, v in args.items(): vs[i] = v
    if 'frame' not in st.ghost:
        st.ghost['frame'] = st.alloc('frame', None, {'this': NULL})
    res = [(s, v) for s, v in I.construct(st, None, d, vs, {'l': dd['l'], 't': type_of(p, rid), 'k': 'Ctor'}) if not s.exc]
    if not res: raise Missing('constructor of %s never returns' % p.records[rid]['q'])
    return res

def generalise(I, st, o, seen=None):
    """Replaces the mutable state of an object by an arbitrary one of the same shape: what a
    history of operations may have left.  References, handlers and constants stay."""
    seen = seen if seen is not None else set()
    if o in seen or o not in st.heap: return
    seen.add(o)
    ob = st.heap[o]
    if ob.kind != 'rec' or ob.t is None: return
    for f in I.fields_of(ob.t):
        t = I.ty(f['t'])
        v = st.get(o, f['n'])
        if t.get('k') == 'ref': continue
        k = I.kind_of(f['t'])
        name = f['n']
        if k == 'int':
            if t.get('const') and v is not None: continue
            st.set(o, name, I.symbolic(st, f['t'], name))
        elif k == 'float': st.set(o, name, Flo(None, None))
        elif k == 'func': continue
        elif k in ('vec', 'map', 'set', 'list', 'opt'):
            n = I.symbolic(st, f['t'], name)
            if isinstance(v, ObjRef) and v.o in st.heap:
                st.heap[v.o] = st.heap[n.o]; del st.heap[n.o]
            else: st.set(o, name, n)
        elif k == 'rec':
            if isinstance(v, ObjRef) and v.o in st.heap:
                if I.p.records[st.heap[v.o].t].get('repo'): generalise(I, st, v.o, seen)
            elif v is None: st.set(o, name, I.symbolic(st, f['t'], name))
        elif k == 'val': st.set(o, name, I.symbolic(st, f['t'], name))

def instance(I, st, rid, args=None):
    """An instance of class rid after an arbitrary history: [(state, ObjRef)]"""
    out = []
    for s, v in construct(I, st, rid, args):
        generalise(I, s, v.o)
        s.trace = None
        out.append((s, v))
    return out

def vec_field(I, st, o):
    """Storage object of the (only) vector member of an object."""
    ob = st.heap[o]
    for f in I.fields_of(ob.t):
        if I.kind_of(f['t']) == 'vec': return I.lib.buf_of(st, st.get(o, f['n']))
    raise Missing('storage of ' + I.p.records[ob.t]['q'])

_shift = {}
def packet_shift(p):
    """Size of the storage of an empty packet: bytes in front of a packet's contents."""
    if id(p) not in _shift:
        I = Interp(p, Client())
        st = State()
        rid = packet_rec(p)
        d = [d for d in p.funcs if p.decls[d].get('rec') == rid and p.decls[d].get('ctor') and not p.decls[d]['params']]
        if not d: raise Missing('packet()')
        st.ghost['frame'] = st.alloc('frame', None, {'this': NULL})
        s, v = I.construct(st, None, d[0], [], {'l': p.decls[d[0]]['l'], 't': type_of(p, rid), 'k': 'Ctor'})[0]
        n = s.get(vec_field(I, s, v.o), 'size')
        if not n.is_const(): raise Missing('size of an empty packet')
        _shift[id(p)] = n.c
    return _shift[id(p)]

def a_packet(I, st, name='p'):
    """An arbitrary packet: (ObjRef, storage oid, shift)."""
    p = I.p
    v = I.symbolic(st, type_of(p, packet_rec(p)), name)
    b = vec_field(I, st, v.o)
    sh = packet_shift(p)
    st.assume(st.get(b, 'size') - sh)
    st.set(b, 'packet', 1)
    return v, b, sh

def frame(st):
    if 'frame' not in st.ghost: st.ghost['frame'] = st.alloc('frame', None, {'this': NULL})

def accessor(I, st, o, name, nparams=0):
    """Value of a const accessor on an object, evaluated in (a copy of) the state."""
    p = I.p
    rid = st.heap[o].t
    ms = methods(p, rid, name, nparams)
    if not ms: raise Missing('%s::%s' % (p.records[rid]['q'], name))
    ms.sort(key=lambda d: not p.decls[d].get('const'))
    s = st
    frame(s)
    res = I.call(s, ms[0], ObjRef(o), [], {'l': p.decls[ms[0]]['l'], 't': p.decls[ms[0]]['ret'], 'k': 'MCall'})
    if len(res) != 1: raise Missing('%s::%s is not a plain accessor' % (p.records[rid]['q'], name))
    v = res[0][1]
    if isinstance(v, (Loc, Elem)): v = I.load(res[0][0], v)
    return v

def exc_name(p, s):
    if s.exc is None: return None
    t = s.exc[0]
    return p.types[t]['s'] if isinstance(t, int) else str(t)

# ---------------------------------------------------------------- deciding obligations
class Checker(Client):
    """Client that collects obligations; `strict` rules need no confirmation without joins."""
    def __init__(self):
        self.res = {}
        self.order = []
        self.notes = []
    def ob(self, st, rule, what, where, ok, detail=(), strict=False):
        if ok is False and st is not None and st.imprecise is not None:
            ok = None
            detail = list(detail) + ['imprecise: ' + str(st.imprecise)]
        k = (rule, what, where)
        o = self.res.get(k)
        if o is None:
            self.res[k] = [ok, detail, strict]
            self.order.append(k)
        elif ok is False and o[0] is not False or (ok is None and o[0] is True):
            o[0] = ok; o[1] = detail; o[2] = strict
        elif ok is False and strict and not o[2]: o[1] = detail; o[2] = True
        return ok

START = time.time()
TOTAL = 780.0      # a check gives an answer within this time

class Timer:
    """Raises Budget in the main thread after a while."""
    def __init__(self, most): self.most = most
    def __enter__(self):
        left = max(1.0, min(self.most, TOTAL - (time.time() - START)))
        def ring(*a): raise Budget('time')
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, left)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False

def decide(rep, p, make, scenario, tag='', unroll=(1, 2, 3), max_steps=None):
    """Runs scenario(I, checker) with loops summarised; what is not discharged is an alarm only if
    it also fails with loops unrolled (no join, no widening), otherwise it is undecided."""
    c = make()
    I = Interp(p, c)
    if max_steps: I.max_steps = max_steps
    err = None
    try:
        with Timer(300): scenario(I, c)
    except Exception as e:
        if isinstance(e, Missing) or os.environ.get('VERIF_DEV') and not isinstance(e, (Budget, Unsupported)): raise
        err = '%s: %s' % (type(e).__name__, e)
        rep.notes.append(tag + traceback.format_exc()[-600:])
    bad = [k for k in c.order if c.res[k][0] is False and not c.res[k][2]]
    conf = {}
    if bad:
        for n in unroll:
            c2 = make()
            I2 = Interp(p, c2)
            I2.unroll = n
            I2.max_steps = 400000
            try:
                with Timer(90): scenario(I2, c2)
            except Exception as e:
                if os.environ.get('VERIF_DEV') and not isinstance(e, (Budget, Unsupported)): raise
                rep.notes.append('%sunrolling %d: %s' % (tag, n, e))
            for k in c2.order:
                if c2.res[k][0] is False: conf[k] = c2.res[k]
            if all(k in conf for k in bad): break
    for k in c.order:
        ok, det, strict = c.res[k]
        if ok is False and not strict and k not in conf: ok = None
        if ok is False and k in conf: det = conf[k][1]
        rep.ob(k[0], tag + k[1], k[2], ok, det)
    for k, v in conf.items():
        if k not in c.res: rep.ob(k[0], tag + k[1], k[2], False, v[1])
    if err: rep.ob('analysis-completes', tag + 'analysis of the scenario', err, None)
    for (w, l), n in sorted(I.unsupported.items()): rep.notes.append('%snot interpreted: %s at %s' % (tag, w, l))
    rep.notes += c.notes
    rep.analysed['functions'] = len(I.analysed | rep.__dict__.setdefault('_fns', set()))
    rep._fns |= I.analysed
    rep.analysed['functions'] = len(rep._fns)
    rep.analysed['call steps'] = rep.analysed.get('call steps', 0) + I.steps
    rep.analysed['loops'] = rep.analysed.get('loops', 0) + len(set(l.loc for l in I.loops))
    return I, c
