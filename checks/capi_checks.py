"""The C interface: each function stands for one operation of the C++ one, and failures become error codes."""
from common import *
from session import *
from wire_checks import where_of

# C function -> (class, operation, index of the parameter that is passed on or None)
OPS = {
    'ntc_encoder_add_data': ('ntc::encoder', 'operator()', 1), 'ntc_encoder_add_packet': ('ntc::encoder', 'operator()', 1),
    'ntc_encoder_generate_repair': ('ntc::encoder', 'generate_repair', None), 'ntc_encoder_window': ('ntc::encoder', 'window', None),
    'ntc_encoder_set_code_type': ('ntc::encoder', 'set_code_type', 1), 'ntc_encoder_set_rate': ('ntc::encoder', 'set_rate', 1),
    'ntc_encoder_set_window_size': ('ntc::encoder', 'set_window_size', 1), 'ntc_encoder_set_adaptive': ('ntc::encoder', 'set_adaptive', 1),
    'ntc_decoder_add_packet': ('ntc::decoder', 'operator()', 1), 'ntc_decoder_generate_ack': ('ntc::decoder', 'generate_ack', None),
    'ntc_decoder_set_ack_period': ('ntc::decoder', 'set_ack_period', 1), 'ntc_decoder_set_ack_nb_packets': ('ntc::decoder', 'set_ack_nb_packets', 1),
}
RETURNS = ('ntc_encoder_add_packet', 'ntc_encoder_window', 'ntc_decoder_add_packet')
CODES = {'ntc::packet_type_error': 'ntc_packet_type_error', 'ntc::overflow_error': 'ntc_overflow_error', 'std::bad_alloc': 'ntc_no_memory', 'std::runtime_error': 'ntc_unknown_error', 'foreign': 'ntc_unknown_error'}

def enumerator(p, name):
    for t in p.types:
        for n, v in t.get('vals') or []:
            if n == name: return v
    raise Missing('enumerator ' + name)

class CApi(Checker):
    """Operations of the C++ interface are black boxes that return or throw anything they may."""
    ctors = ()
    def on_call(self, I, st, d, dd, this, args, ast):
        p = I.p
        r = dd.get('rec')
        q = p.records[r]['q'] if r is not None else None
        if dd.get('ctor') and dd['ctor'] not in ('copy', 'move') and q in ('ntc::encoder', 'ntc::decoder') and self.stubs:
            st.emit('ctor', q, tuple(I.lib.val(st, a) for a in args))
            o = st.alloc('rec', r, {})
            out = [(st, ObjRef(o))]
            for e in ('std::bad_alloc', 'foreign'): out.append((self.throw(I, st.copy(), e, ast), None))
            return out
        if self.stubs and dd['n'] == 'resize' and not dd.get('ctor') and (q in ('ntc::packet',) or q is not None and I.rec_kind(r) == 'vec'):
            # memory may run out
            if not st.ghost.get('failed'):
                st.ghost['failed'] = 1
                s2 = self.throw(I, st.copy(), 'std::bad_alloc', ast)
                s2.ghost['outcome'] = 'std::bad_alloc'
                return I.call(st, d, this, args, ast) + [(s2, None)]
            return None
        if self.stubs and q in ('ntc::encoder', 'ntc::decoder') and not dd.get('ctor') and not dd.get('dtor') and this is not None:
            tv = I.lib.val(st, this)
            st.emit('op', q, dd['n'], tv, tuple(I.lib.val(st, a) for a in args), where_of(I, ast))
            out = []
            if self.throws:
                for e in CODES:
                    s2 = self.throw(I, st.copy(), e, ast)
                    s2.ghost['outcome'] = e
                    out.append((s2, None))
            ret = p.types[dd['ret']]
            v = NULL if ret.get('k') == 'void' else tv if p.rec_of(dd['ret']) == r else I.symbolic(st, dd['ret'], 'result')
            st.ghost['outcome'] = ''
            if isinstance(v, Lin): st.ghost['result'] = v
            return [(st, v)] + out
        if dd['n'] == 'strlen':
            v = I.lib.val(st, args[0])
            n = memo(('strlen', repr(v)), 'strlen', 0, 1 << 20)
            st.ghost['len'] = n
            return [(st, n)]
        return None
    stubs = True
    throws = True       # has the function a way to report errors?
    def throw(self, I, st, e, ast):
        p = I.p
        t = None
        for i, x in enumerate(p.types):
            if x.get('k') == 'rec' and not x.get('const') and p.records[x['rec']]['q'] == e: t = i
        v = None
        if t is not None: v = ObjRef(st.alloc('rec', p.types[t]['rec'], {}))
        st.exc = (t if t is not None else 'foreign', v, ast['l'] if ast else None)
        return st
    def on_event(self, I, st, kind, *a):
        if kind == 'delete': st.emit('delete', a[0])
        if kind == 'bounds' and 'w' in a[3] and isinstance(a[0], int) and a[0] in st.heap and st.heap[a[0]].f.get('heap'):
            st.set(a[0], 'written', (a[1], a[2], a[4]))
            st.ghost['overrun'] = st.ghost.get('overrun', 0) or (0 if a[4] else 1)

def objects(I, s, p, d):
    args = []
    for pr in p.decls[d]['params']:
        ty = p.types[p.strip(pr['t'])]
        v = I.symbolic(s, ty['p'] if ty.get('k') == 'ptr' and I.is_class(ty['p']) else pr['t'], pr['n'] or 'arg')
        s.alloc('root', None, {'obj': v})
        args.append(v)
    return args

def same(I, s, name, got, want, p):
    """Is the argument handed on the one that was given?"""
    if name == 'ntc_encoder_set_code_type':
        yes = enumerator(p, 'ntc_systematic_yes')
        sy = [v for t in p.types if t.get('k') == 'enum' and t['s'].endswith('ntc::systematic') for n, v in t.get('vals') or [] if n == 'yes']
        if not sy or not isinstance(got, Lin): return None
        e = s.eq(want, const(yes))
        g = s.eq(got, const(sy[0]))
        return None if e is None or g is None else e == g
    if name == 'ntc_decoder_set_ack_period':
        if not isinstance(got, Lin): return None
        y = s.copy()
        y.assume(const(1 << 31) - want)
        return y.eq(got, want.scale(10 ** 6)) is True
    if isinstance(want, Lin): return isinstance(got, Lin) and s.eq(got, want) is True
    if isinstance(want, ObjRef): return got == want or None
    return None

def c_api(rep, cache):
    p = program(cache)
    fns = {p.decls[d]['q']: d for d in p.funcs if p.decls[d].get('q', '').startswith('ntc_') and '::' not in p.decls[d]['q'] and 'body' in p.funcs[d]}
    rep.count('functions of the C interface', len(fns))
    ran = set()
    no = const(enumerator(p, 'ntc_no_error'))
    def errors(I, c, s, name, err, where):
        e = s.ghost.get('outcome', '')
        t = s.get(err.o, 'type')
        want = no if not e else const(enumerator(p, CODES[e]))
        c.ob(s, 'error-code', '%s(): %s' % (name, 'no error is reported when the operation succeeds' if not e else 'a failure with %s is reported as %s' % (e if e != 'foreign' else 'any other exception', CODES[e])), where,
             isinstance(t, Lin) and s.eq(t, want) is True, ['type %r' % (t,)])
        m = s.get(err.o, 'message')
        c.ob(s, 'message-not-dangling', '%s(): the message of the error never points to released memory' % name, where, isinstance(m, Null) or not any(x[0] == 'delete' and x[1] == m for x in s.events()))
        if e == 'std::runtime_error':
            n = s.ghost.get('len')
            if isinstance(m, Null): c.ob(s, 'error-message', '%s(): the message of an unknown error is a terminated string or null' % name, where, True)
            elif isinstance(m, Ptr) and n is not None and m.b in s.heap:
                room = s.entails(s.get(m.b, 'size') - n - 1)
                w = s.get(m.b, 'written')
                cells = dict((repr(k), v) for k, v in s.get(m.b, 'w') or ())
                term = w is not None and isinstance(w[1], Lin) and s.eq(w[0], ZERO) is True and s.entails(w[1] - n - 1) or any(s.eq(k, n) is True and s.eq(v, ZERO) is True for k, v in (s.get(m.b, 'w') or ()) if isinstance(v, Lin))
                c.ob(s, 'error-message', '%s(): the message of an unknown error is a terminated string or null' % name, where, bool(room and term and not s.ghost.get('overrun')), ['%r bytes, %r written, message of %r' % (s.get(m.b, 'size'), w, n)])
            else: c.ob(s, 'error-message', '%s(): message' % name, where, None)
    for name, (cls, op, arg) in sorted(OPS.items()):
        if name not in fns: continue
        def scenario(I, c, name=name, cls=cls, op=op, arg=arg):
            d = fns[name]
            where = p.loc(p.decls[d]['l'])
            s = State()
            frame(s)
            args = objects(I, s, p, d)
            err = [v for v, pr in zip(args, p.decls[d]['params']) if isinstance(v, ObjRef) and s.heap[v.o].t is not None and s.heap[v.o].kind == 'rec' and {'type', 'message'} <= {f['n'] for f in I.fields_of(s.heap[v.o].t)}]
            c.throws = bool(err)
            n = 0
            for s2, v in I.call(s, d, None, args, None):
                ran.add(name)
                c.ob(s2, 'nothing-escapes', '%s() lets no exception out' % name, where, not s2.exc, [s2.exc])
                if s2.exc: continue
                n += 1
                ev = [e for e in s2.events() if e[0] == 'op']
                main = [e for e in ev if e[1] == cls and e[2] == op]
                c.ob(s2, 'one-operation', '%s() performs %s::%s exactly once' % (name, cls, op), where, len(main) == 1 and main[0][3] == args[0], [e[1:3] for e in ev])
                sets = [e for e in ev if e not in main and (e[2].startswith('set_') or e[2] in ('operator()', 'generate_repair', 'generate_ack', 'maybe_ack'))]
                c.ob(s2, 'nothing-else', '%s() changes nothing else' % name, where, not sets, [e[1:3] for e in sets])
                if arg is not None and len(main) == 1 and main[0][4]:
                    got = main[0][4][0]
                    want = args[arg]
                    r = same(I, s2, name, got, want, p)
                    if r is None and isinstance(want, ObjRef) and isinstance(got, ObjRef):      # a copy or what was moved out
                        r = True if s2.ghost.get('given') in (got.o, s2.get(got.o, 'from')) else None
                    c.ob(s2, 'argument-passed', '%s() hands on what it is given' % name, where, r, ['%r for %r' % (got, want)])
                if err: errors(I, c, s2, name, err[0], where)
                if name in RETURNS and s2.ghost.get('outcome') == '':
                    v = I.lib.val(s2, v)
                    c.ob(s2, 'result-passed', '%s() returns the result of the operation' % name, where, isinstance(v, Lin) and 'result' in s2.ghost and s2.eq(v, s2.ghost['result']) is True, [v, s2.ghost.get('result')])
            c.ob(None, 'function-understood', name + '()', where, True if n else None)
        decide(rep, p, CApi, scenario)
    # containers of the C interface
    def containers(I, c):
        for kind in ('packet', 'data'):
            sh = packet_shift(p) if kind == 'packet' else 0
            def store(s, v): return vec_field(I, s, v.o) if kind == 'packet' else I.lib.buf_of(s, v)
            for fn in ('buffer', 'get_size', 'resize'):
                name = 'ntc_%s_%s' % (kind, fn)
                if name not in fns: continue
                d = fns[name]
                where = p.loc(p.decls[d]['l'])
                s = State()
                frame(s)
                args = objects(I, s, p, d)
                b = store(s, args[0])
                s.assume(s.get(b, 'size') - sh)
                s.assume(const(65535 + sh) - s.get(b, 'size'))
                n0 = s.get(b, 'size')
                s.ghost['outcome'] = ''
                for s2, v in I.call(s, d, None, args, None):
                    ran.add(name)
                    c.ob(s2, 'nothing-escapes', '%s() lets no exception out' % name, where, not s2.exc, [s2.exc])
                    if s2.exc: continue
                    v = I.lib.val(s2, v)
                    if fn == 'buffer': c.ob(s2, 'buffer-of-contents', '%s() is the address of the first byte' % name, where, isinstance(v, Ptr) and v.b == b and s2.eq(v.off, const(sh)) is True, [v])
                    elif fn == 'get_size': c.ob(s2, 'size-of-contents', '%s() is the number of bytes' % name, where, isinstance(v, Lin) and s2.eq(v, n0 - sh) is True, [v])
                    else:
                        b2 = store(s2, args[0])
                        if not s2.ghost['outcome']: c.ob(s2, 'resized', '%s() gives the size asked for' % name, where, s2.eq(s2.get(b2, 'size'), args[1] + sh) is True, [s2.get(b2, 'size')])
                        errors(I, c, s2, name, args[2], where)
            for name in ('ntc_new_%s' % kind, 'ntc_new_%s_from' % kind):
                if name not in fns: continue
                d = fns[name]
                where = p.loc(p.decls[d]['l'])
                s = State()
                frame(s)
                args = objects(I, s, p, d)
                if name.endswith('_from'):
                    n = args[1]
                    src = s.alloc('buf', None, {'size': n, 'gen': IP.new_oid(), 'w': (), 'name': 'src', 'et': None})
                    s.alloc('root', None, {'obj': ObjRef(src)})
                    args[0] = Ptr(src, ZERO)
                else: n = args[0]
                for s2, v in I.call(s, d, None, args, None):
                    ran.add(name)
                    c.ob(s2, 'nothing-escapes', '%s() lets no exception out' % name, where, not s2.exc, [s2.exc])
                    if s2.exc or isinstance(v, Null): continue
                    v = I.lib.val(s2, v)
                    c.ob(s2, 'new-size', '%s() makes the size asked for' % name, where, s2.eq(s2.get(store(s2, v), 'size'), n + sh) is True if isinstance(v, ObjRef) else None, [v])
    decide(rep, p, CApi, containers)
    def makers(I, c):
        for cls, name in (('ntc::encoder', 'ntc_new_encoder'), ('ntc::decoder', 'ntc_new_decoder')):
            if name not in fns: continue
            d = fns[name]
            where = p.loc(p.decls[d]['l'])
            s = State()
            frame(s)
            args = objects(I, s, p, d)
            for s2, v in I.call(s, d, None, args, None):
                ran.add(name)
                c.ob(s2, 'nothing-escapes', '%s() lets no exception out' % name, where, not s2.exc, [s2.exc])
                if s2.exc: continue
                cs = [e for e in s2.events() if e[0] == 'ctor']
                if isinstance(v, Null): continue
                v = I.lib.val(s2, v)
                c.ob(s2, 'made-once', '%s() makes one %s' % (name, cls.split('::')[1]), where, len(cs) == 1 and cs[0][1] == cls)
                if len(cs) != 1: continue
                a = cs[0][2]
                c.ob(s2, 'field-size-passed', '%s() hands on the size of the field' % name, where, isinstance(a[0], Lin) and s2.eq(a[0], args[0]) is True, [a[0]])
                if cls == 'ntc::decoder':
                    yes = const(enumerator(p, 'ntc_in_order_yes'))
                    io = [x for t in p.types if t.get('k') == 'enum' and t['s'].endswith('ntc::in_order') for n, x in t.get('vals') or [] if n == 'yes']
                    e, g = s2.eq(args[1], yes), s2.eq(a[1], const(io[0])) if io and isinstance(a[1], Lin) else None
                    c.ob(s2, 'order-passed', '%s() hands on the ordering asked for' % name, where, None if e is None or g is None else e == g, [a[1]])
    decide(rep, p, CApi, makers)
    # handlers given in C
    def handlers(I, c):
        for cls, calls in (('ntc::detail::c_packet_handler', {2: 'prepare_packet', 0: 'send_packet'}), ('ntc::detail::c_data_handler', {2: 'read_data'})):
            r = rec(p, cls)
            for n, fn in calls.items():
                for d in methods(p, r, 'operator()', n):
                    where = p.loc(p.decls[d]['l'])
                    s = State()
                    frame(s)
                    o = ObjRef(I.symbolic_rec(s, r, 'handler'))
                    s.alloc('root', None, {'obj': o})
                    args = objects(I, s, p, d)
                    h = [s.get(o.o, f['n']) for f in I.fields_of(r) if isinstance(s.get(o.o, f['n']), ObjRef)]
                    for s2, v in I.call(s, d, o, args, None):
                        ev = [e for e in s2.events() if e[0] == 'fnptr']
                        ok = len(ev) == 1 and ev[0][1][:1] == (fn,) and len(ev[0][2]) == n + 1 and ev[0][2][0] == s.get(h[0].o, 'context') and all((s2.eq(x, y) is True) if isinstance(x, Lin) and isinstance(y, Lin) else x == y for x, y in zip(ev[0][2][1:], args)) if h else None
                        c.ob(s2, 'handler-called', 'the handler %s given in C is called once, with its context and what the library emits' % fn, where, ok, [ev])
    decide(rep, p, CApi, handlers)
    rep.count('functions analysed', len(ran))
    rep.assume('operations of the C++ interface throw any exception unless declared not to', 'handlers given in C do not throw')
