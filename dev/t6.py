import sys, json, os
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks')
os.environ['VERIF_DEV']='1'
from prog import Program
import ack_checks as A
from session import *
p=Program(json.load(open('/tmp/o.json')))
c=A.Acks(); c.empty=True
I=Interp(p,c)
o=c.written
def wr(I,st,v,where):
    here=A.presence(I,st,c.src,st.ghost['W'])
    ids=accessor(I,st,v.o,'source_ids').o
    there=A.presence(I,st,ids,st.ghost['W'])
    if here is None or (not here and there is not False):
        print('---',here,there,'W',st.ghost['W'],[ (st.get(e,'key')) for e in st.get(c.src,'ents')], st.get(c.src,'gaps'), '|ids', [ (st.get(e,'key')) for e in st.get(ids,'ents')], st.get(ids,'gaps'))
        print('   facts',[f for f in st.facts])
    return o(I,st,v,where)
c.written=wr
A.scenarios(p)[0](I,c)
print(I.steps)
