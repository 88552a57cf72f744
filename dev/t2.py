from h import *
from session import *
p = prog()
class C(Client):
    def on_call(self, I, st, d, dd, this, args, ast):
        if dd.get('rec') is not None and p.records[dd['rec']]['q'] == 'ntc::detail::decoder' and dd['n'] == 'operator()':
            st.emit('core', p.records[p.rec_of(dd['params'][0]['t'])]['q'], args[0])
            return [(st, NULL)]
    def on_event(self, I, st, *a):
        if a[0] in ('bounds',):
            if not a[5]: print('BOUNDS FAIL', a, I.p.loc(a[6]['l']) if a[6] else '')
for rid in (dec_rec(p), enc_rec(p)):
    I = Interp(p, C())
    st = State()
    for s, o in instance(I, st, rid):
        s.alloc('root', None, {'obj': o})
        pk, b, sh = a_packet(I, s)
        d = entry(p, rid, packet_rec(p))
        t=time.time()
        res = I.call(s, d, o, [pk], None)
        print(p.decls[d]['q'], len(res), 'states', time.time()-t, I.steps, I.unsupported)
        for s2, v in res:
            print('  ', exc_name(p, s2), s2.imprecise, v, [e for e in s2.events() if e[0]!='read'])
