from h import *
p = prog()
class C(Client):
    def on_event(self, I, st, *a):
        if a[0] in ('bounds',):
            if not a[5]: print('BOUNDS FAIL', a, I.p.loc(a[6]['l']) if a[6] else '')
        elif a[0] in ('throw','stale','use_after_erase','deref_end','null_deref'): print(a[0], I.p.loc(a[-1]['l']))
for name in ('read_ack','read_source','read_repair'):
    I = Interp(p, C())
    d = [x for x in p.functions('ntc::detail::packetizer::'+name) if 'vdrv' in p.records[p.decls[x]['rec']]['full']][0]
    st = State()
    this = I.symbolic(st, I.lib.type_of_rec(p.decls[d]['rec']), 'pk')
    pk = I.symbolic(st, p.decls[d]['params'][0]['t'], 'p')
    buf = st.get(st.get(pk.o,'m_buffer').o,'buf').o
    st.assume(st.get(buf,'size')-9)
    root = st.alloc('root', None, {'this': this, 'pk': pk})
    t=time.time()
    res = I.call(st, d, this, [pk], None)
    print(name, len(res), 'states', time.time()-t, I.steps, I.unsupported)
    for s,v in res:
        print('  exc' if s.exc else '  ok', s.imprecise, s.exc and p.types[s.exc[0]]['s'], (s.heap[v.o].f if isinstance(v, ObjRef) else v))
