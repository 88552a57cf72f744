import sys; sys.path[:0]=['/verif/engine','/verif/checks']
import json
from prog import Program
from wire_checks import *
p=Program(json.load(open('/tmp/o.json')))
pk=pkz_rec(p); wd=method(p,pk,'write_ack',1)
import interp
oj=interp.Interp.join
def fr(s):
    r={}
    for o,ob in s.heap.items():
        if ob.kind=='frame':
            for k,v in ob.f.items():
                if isinstance(v,(Lin,Ptr)) and isinstance(k,int): r[p.decls[k]['n']]=v
    return r
def join(self,h,s,lins,names):
    r=oj(self,h,s,lins,names)
    if 'K' in s.ghost:
        print('JOIN',s.ghost.get('krel'),'R' in s.ghost,'head enc',h[0].ghost['enc'],fr(h[0]),'| arriving',s.ghost['enc'],fr(s), '->', r[0].ghost['enc'], fr(r[0]))
        cit=fr(r[0])['cit'].off; en=r[0].ghost['enc']; rl=fr(r[0])['run_length']; print('   REL', r[0].eq(cit-en,ONE), r[0].eq(cit-en,rl), [x.ghost.get('enc') and (x.eq(fr(x)['cit'].off-x.ghost['enc'],ONE), x.eq(fr(x)['cit'].off-x.ghost['enc'],fr(x)['run_length'])) for x in (h[0],s)])
        print('   H', h[0].facts); print('   S', s.facts); print('   R', r[0].facts)
    return r
interp.Interp.join=join
c=RleWriter(); I=Interp(p,c)
for s,o in instance(I,State(),pk):
    s.alloc('root',None,{'obj':o})
    a=I.symbolic(s,p.decls[wd]['params'][0]['t'],'ack'); s.alloc('root',None,{'obj':a})
    ids=accessor(I,s,a.o,'source_ids'); s.assume(const(65535)-s.get(ids.o,'size'))
    c.begin(I,s,ids.o)
    for s2,r in I.call(s,wd,o,[a],None): pass
