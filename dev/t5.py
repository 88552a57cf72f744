import sys; sys.path[:0]=['/verif/engine','/verif/checks']
import json, time
from collections import Counter
from prog import Program
from encoder_checks import *
p = Program(json.load(open('/tmp/o.json')))
c = make(p, Window)()
I = Interp(p, c)
DD=Counter()
_sh=Window.split_head
def sh(self,I,st):
    r=_sh(self,I,st)
    for s in r:
        if "W" in s.ghost: DD[(s.ghost.get("acked"), s.ghost.get("cmp"), presence(I,s,self.win,s.ghost["W"]), tuple(sorted(str((k, None if v.e is None else I.p and ("win" if v.c==self.win else "ids"))) for o,ob in s.heap.items() if ob.kind=="frame" for k,v in ob.f.items() if isinstance(v,It))))]+=1
    return r
Window.split_head=sh
c.phase='ack'
pr = packet_rec(p)

for d in methods(p, enc_rec(p), 'operator()', 1, param_is(p, 0, pr, True)):
    for s, o in start(I, c, p):
        W = fresh('W', 0, (1 << 32) - 1)
        for s1, e in I.lib.find(s, c.win, W):
            if e is None: continue
            s1.ghost['W'] = W
            pk, b, sh = a_packet(I, s1)
            s1.alloc('root', None, {'obj': pk})
            t=time.time()
            R=I.call(s1, d, o, [pk], None)
            print(len(R), time.time()-t)
            for s2,v in R:
                if s2.exc or 'acked' not in s2.ghost: continue
                there = presence(I, s2, c.win, W)
                print(s2.ghost['acked'], there, s2.ghost.get('cmp'), s2.imprecise)
                if s2.ghost['acked'] and there is not False:
                    print('  ents', [(s2.get(x,'key'), s2.eq(s2.get(x,'key'),W)) for x in s2.get(c.win,'ents')], 'gaps', s2.get(c.win,'gaps'))
                    for k,ob in s2.heap.items():
                        if ob.kind in('set','idset','vset') : print('   ', k, ob.kind, ob.f)
for k,v in DD.items(): print(v,k)
