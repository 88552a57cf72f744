import sys; sys.path[:0]=['/verif/engine','/verif/checks']
import json
from prog import Program
from wire_checks import *
p=Program(json.load(open('/tmp/o.json')))
pk=pkz_rec(p); rd=method(p,pk,'read_ack',1)
import interp
oj=interp.Interp.join
def join(self,h,s,lins,names):
    r=oj(self,h,s,lins,names)
    if len(sys.argv)>1 and 'got' in s.ghost:
        print('JOIN head got',h[0].ghost['got'],'exp',h[0].ghost['exp'],'| arriving',s.ghost['got'],s.ghost['exp'], '->', r[0].ghost['got'], r[0].ghost['exp'])
        print('   H', [f for f in h[0].facts if any(q in dict(f.t) for q,_ in (h[0].ghost['got'].t+h[0].ghost['exp'].t))])
        print('   S', [f for f in s.facts if any(q in dict(f.t) for q,_ in (s.ghost['got'].t+s.ghost['exp'].t))])
        print('   R', [f for f in r[0].facts if any(q in dict(f.t) for q,_ in (r[0].ghost['got'].t+r[0].ghost['exp'].t))])
    return r
interp.Interp.join=join
c=RleReader(); I=Interp(p,c)
for s,o in instance(I,State(),pk):
    s.alloc('root',None,{'obj':o})
    pkt,b,sh=a_packet(I,s); s.alloc('root',None,{'obj':pkt})
    c.begin(I,s,b,sh)
    for s2,r in I.call(s,rd,o,[pkt],None): pass
