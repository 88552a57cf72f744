"""Acknowledgments sent by the decoder, and delivery of data to the user."""
from common import *
from session import *
from wire_checks import where_of, Wire, entries, symbol_of
from encoder_checks import presence, unwrap, reachable, Window

ACK = 'ntc::detail::ack'

class Acks(Wire):
    """A decoder after an arbitrary history; follows an arbitrary identifier W of its sources."""
    empty = False            # invariant: no identifier is left in the acknowledgment between two operations
    def setup(self, I, st, o):
        p = I.p
        self.dec = o.o
        ar = rec(p, ACK)
        cr = rec(p, 'ntc::detail::decoder')
        self.ack = self.core_o = None
        self.last = []
        for f in I.fields_of(st.heap[o.o].t):
            v = st.get(o.o, f['n'])
            if isinstance(v, ObjRef) and v.o in st.heap:
                if st.heap[v.o].t == ar: self.ack = v.o
                if st.heap[v.o].t == cr: self.core_o = v.o
            if p.rec_of(f['t']) is not None and p.records[p.rec_of(f['t'])]['q'] == 'std::chrono::time_point': self.last.append(f['n'])
        if self.ack is None or self.core_o is None: raise Missing('acknowledgment of the decoder')
        self.N = accessor(I, st, self.ack, 'nb_packets')
        self.ids = accessor(I, st, self.ack, 'source_ids').o
        self.src = accessor(I, st, self.core_o, 'sources').o
        self.nb = accessor(I, st, self.dec, 'ack_nb_packets')
        self.period = accessor(I, st, self.dec, 'ack_period')
        self.sent = accessor(I, st, self.dec, 'nb_sent_acks')
        if self.empty: st.update(self.ids, size=ZERO, ents=(), gaps=((None, None),))
        st.ghost['acks'] = 0
        st.ghost['now'] = ()
        self.before = st.copy()
    def materialize(self, I, st, c, e):
        if c == self.__dict__.get('src'):
            v = st.get(e, 'second')
            if not isinstance(v, ObjRef):
                v = I.symbolic(st, type_of(I.p, rec(I.p, 'ntc::detail::decoder_source')), 'src')
                st.set(e, 'second', v)
            if not st.assume_eq(accessor(I, st, v.o, 'id'), st.get(e, 'key')): return []
        return [st]
    def keep_entry(self, I, st, cont, ent):
        return 'W' in st.ghost and st.eq(st.get(ent, 'key'), st.ghost['W']) is True
    def focus(self, I, st, cont): return [st.ghost['W']] if 'W' in st.ghost else []
    split_head = Window.split_head
    def on_call(self, I, st, d, dd, this, args, ast):
        p = I.p
        r = dd.get('rec')
        if dd['n'] == 'now' and 'chrono' in dd.get('q', ''):
            n = fresh('now', 0, 1 << 62)
            st.ghost['now'] = st.ghost.get('now', ()) + (n,)
            return [(st, n)]
        if r is not None and p.records[r]['q'] == 'ntc::detail::packetizer' and dd['n'] == 'write_ack':
            v = I.lib.val(st, args[0])
            st.ghost['acks'] = min(3, st.ghost['acks'] + 1)
            self.written(I, st, v, where_of(I, ast))
            return [(st, NULL)]
        return Wire.on_call(self, I, st, d, dd, this, args, ast)
    def written(self, I, st, v, where):
        if 'W' not in st.ghost or not isinstance(v, ObjRef): return
        W = st.ghost['W']
        n = accessor(I, st, v.o, 'nb_packets')
        if st.ghost['acks'] == 1:
            self.ob(st, 'ack-counts-packets', 'an acknowledgment reports the packets received since the previous one', where, st.eq(n, self.N) is True, ['%r reported, %r received' % (n, self.N)])
        ids = accessor(I, st, v.o, 'source_ids').o
        here, there = presence(I, st, self.src, W), presence(I, st, ids, W)
        if here is None: self.ob(st, 'sources-known', 'the sources an acknowledgment lists', where, None)
        elif here: self.ob(st, 'ack-lists-all', 'an acknowledgment lists every source of the decoder', where, there, (), there is False)
        else: self.ob(st, 'ack-lists-only', 'an acknowledgment lists only sources of the decoder', where, None if there is None else not there, (), there is True)
    def on_event(self, I, st, kind, *a):
        if kind == 'sink' and a[0] == 'data': st.ghost['data'] = min(3, st.ghost.get('data', 0) + 1); st.ghost['given'] = tuple(I.lib.val(st, x) for x in a[1])
    def reset(self, I, s, where):
        if s.ghost['acks']:
            n = accessor(I, s, self.ack, 'nb_packets')
            self.ob(s, 'ack-restarts-count', 'an acknowledgment that was sent restarts the count of packets', where, s.eq(n, ZERO) is True, [n])
            k = accessor(I, s, self.dec, 'nb_sent_acks')
            self.ob(s, 'acks-counted', 'the number of sent acknowledgments counts them', where, s.eq(unwrap(k), unwrap(self.sent) + s.ghost['acks']) is True, [k])
            self.ob(s, 'ack-list-fresh', 'no identifier remains for the next acknowledgment', where, s.eq(s.get(self.ids, 'size'), ZERO) is True or (None if not self.empty else False))
        else:
            n = accessor(I, s, self.ack, 'nb_packets')
            self.ob(s, 'count-kept', 'the count of packets is kept until an acknowledgment is sent', where, s.eq(n, self.N) is True, [n, self.N])
            k = accessor(I, s, self.dec, 'nb_sent_acks')
            self.ob(s, 'acks-counted', 'the number of sent acknowledgments counts them', where, s.eq(k, self.sent) is True, [k])
    def automatic(self, I, s, where):
        """The acknowledgment sent, or not, on a delivery."""
        N, nb, P = self.N, self.nb, self.period
        last = [self.before.get(self.dec, f) for f in self.last]
        now = s.ghost['now']
        self.ob(s, 'at-most-one-ack', 'at most one acknowledgment at a time', where, s.ghost['acks'] <= 1)
        if not isinstance(P, Lin) or not all(isinstance(x, Lin) for x in last) or len(last) != 1:
            self.ob(s, 'time-understood', 'the period of acknowledgments', where, None); return
        last = last[0]
        due = s.entails(N - nb)
        notdue = s.entails(nb - N - 1)
        elapsed = s.eq(P, ZERO) is False and any(s.entails(x - last - P) for x in now)
        notel = s.eq(P, ZERO) is True or any(s.entails(P - (x - last) - 1) for x in now)
        d = ['%r packets for %r, period %r, %r - %r' % (N, nb, P, now, last)]
        if s.ghost['acks']:
            self.ob(s, 'ack-only-when-due', 'an acknowledgment is sent only after enough packets, or when a nonzero period has elapsed', where, bool(due or elapsed), d)
            l2 = s.get(self.dec, self.last[0])
            self.ob(s, 'period-restarts', 'an automatic acknowledgment restarts the period', where, any(s.eq(l2, x) is True for x in now), [l2, now])
        else:
            self.ob(s, 'ack-when-due', 'an acknowledgment is sent after enough packets, and when a nonzero period has elapsed', where, bool(notdue and notel), d)
            l2 = s.get(self.dec, self.last[0])
            self.ob(s, 'period-kept', 'the period goes on until an acknowledgment is sent', where, s.eq(l2, last) is True, [l2])

def started(I, c, p, witness=True):
    for s, o in instance(I, State(), dec_rec(p)):
        s.alloc('root', None, {'obj': o})
        c.setup(I, s, o)
        W = fresh('W', 0, (1 << 32) - 1)
        if not witness: yield s, o; continue
        for s1, e in I.lib.find(s, c.src, W):
            if c.empty: todo = [s1]
            elif e is None: todo = [x for x, _ in I.lib.find(s1, c.ids, W)]
            else: todo = [s1]
            for s2 in todo:
                s2.ghost['W'] = W
                c.before = s2.copy()
                yield s2, o

def scenarios(p):
    dr = dec_rec(p)
    def forced(I, c):
        for d in methods(p, dr, 'generate_ack', 0):
            where = p.loc(p.decls[d]['l'])
            for s, o in started(I, c, p):
                for s2, v in I.call(s, d, o, [], None):
                    if s2.exc: continue
                    c.ob(s2, 'forced-ack-sent', 'generate_ack() sends exactly one acknowledgment', where, s2.ghost['acks'] == 1, [s2.ghost['acks']])
                    c.reset(I, s2, where)
    def maybe(I, c):
        for d in methods(p, dr, 'maybe_ack', 0):
            where = p.loc(p.decls[d]['l'])
            for s, o in started(I, c, p):
                for s2, v in I.call(s, d, o, [], None):
                    if s2.exc: continue
                    c.automatic(I, s2, where)
                    c.reset(I, s2, where)
    def delivery(I, c):
        """The handler given to the coder: data, then an acknowledgment if due."""
        sr = rec(p, 'ntc::detail::decoder_source')
        n = 0
        for s, o in started(I, c, p):
            fs = reachable(I, s, c.core_o, 'func')
            if len(fs) != 1: raise Missing('callback of the decoder')
            src = I.symbolic(s, type_of(p, sr), 'src')
            s.alloc('root', None, {'obj': src})
            tgt = s.get(fs[0], 'target')
            where = 'netcode/decoder.hh'
            for s2, v in I.lib.m_func(s, fs[0], "operator()", [src], {"l": None, "k": "Call"}, {}):
                if s2.exc: continue
                n += 1
                g = s2.ghost.get('given', ())
                try: ptr, sz = symbol_of(I, s2, src)
                except Missing: ptr = sz = None
                c.ob(s2, 'delivered-once', 'a source given by the coder is handed to the user exactly once', where, s2.ghost.get('data', 0) == 1, [s2.ghost.get('data', 0)])
                ok = len(g) == 2 and isinstance(sz, Lin) and isinstance(g[1], Lin)
                c.ob(s2, 'delivered-whole', 'the user gets the whole symbol of the source and nothing else', where, (g[0] == ptr and s2.eq(g[1], sz) is True) if ok else None, ['%r, symbol %r %r' % (g, ptr, sz)])
                c.automatic(I, s2, where)
                c.reset(I, s2, where)
        c.ob(None, 'delivery-understood', 'the coder delivers through the decoder', 'netcode/decoder.hh', True if n else None)
    def received(I, c):
        for label, rid, d in entries(p):
            if not label.startswith('decoder'): continue
            for s, o in started(I, c, p, False):
                from wire_checks import a_packet
                pk, b, sh = a_packet(I, s)
                s.alloc('root', None, {'obj': pk})
                where = p.loc(p.decls[d]['l'])
                kinds = {k: accessor(I, s, c.dec, 'nb_received_%ss' % k) for k in ('repair', 'source')}
                for s2, v in I.call(s, d, o, [pk], None):
                    if s2.exc: continue
                    n = accessor(I, s2, c.ack, 'nb_packets')
                    c.ob(s2, 'packet-counted', '%s: an accepted packet counts once' % label, where, unwrap(n) == c.N + 1 or s2.eq(unwrap(n), c.N + 1) is True, ['%r after %r' % (n, c.N)])
                    c.ob(s2, 'no-ack-by-itself', '%s: no acknowledgment without delivery' % label, where, s2.ghost['acks'] == 0)
                    core = [e[1].split('_')[-1] for e in s2.events() if e[0] == 'core']
                    for k, old in kinds.items():
                        x = accessor(I, s2, c.dec, 'nb_received_%ss' % k)
                        c.ob(s2, 'kinds-counted', '%s: the counters of received sources and repairs count them' % label, where, s2.eq(unwrap(x), old + core.count(k)) is True, [k, x, core])
    def settings(I, c):
        for n, get, want in (('set_ack_nb_packets', 'ack_nb_packets', 'min'), ('set_ack_period', 'ack_period', 'same')):
            for d in methods(p, dr, n, 1):
                where = p.loc(p.decls[d]['l'])
                for s, o in started(I, c, p, False):
                    a = I.symbolic(s, p.decls[d]['params'][0]['t'], 'arg')
                    if want == 'min': s.assume(a - 1)
                    for s2, v in I.call(s, d, o, [a], None):
                        if s2.exc: continue
                        x = accessor(I, s2, c.dec, get)
                        if want == 'min': ok = s2.eq(x, a) is True and s2.entails(const(128) - x) or s2.eq(x, const(128)) is True and s2.entails(a - 128)
                        else: ok = s2.eq(x, a) is True
                        c.ob(s2, 'setting-kept', '%s() sets what %s() tells%s' % (n, get, ', up to 128' if want == 'min' else ''), where, bool(ok), ['%r set, %r' % (a, x)])
                        c.ob(s2, 'settings-send-nothing', '%s() sends no acknowledgment' % n, where, s2.ghost['acks'] == 0)
                        c.reset(I, s2, where)
    return forced, maybe, delivery, received, settings

def acks(rep, cache):
    import report
    p = program(cache)
    def mk(empty):
        def f():
            c = Acks()
            c.empty = empty
            return c
        return f
    # from any list left in the acknowledgment, or inductively when none ever is
    def all_(r, empty):
        for f in scenarios(p): decide(r, p, mk(empty), f)
    t1 = report.Report(rep.pid, rep.tier)
    decide(t1, p, mk(False), scenarios(p)[0])
    rest = [o for o in t1.obs if o['rule'] == 'ack-lists-only' and o['ok'] is not True]
    all_(rep, bool(rest))
    rep.assume('handlers of the user return normally', 'fewer than 65536 packets between two acknowledgments')
