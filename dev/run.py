import sys; sys.path[:0]=['/verif/engine','/verif/checks']
import os; os.environ['VERIF_DEV']='1'
import json, time, importlib
from report import Report
from prog import Program
def dbg():
    import session
    o = session.Checker.ob
    def ob(self, st, rule, what, where, ok, detail=(), strict=False):
        if ok is not True and any(w in rule for w in DBG):
            print('DBG', ok, rule, where, list(detail), st and st.imprecise)
            if st is not None:
                for f in st.facts: print('      ', f, '>=0')
                print('      ghost', {k: v for k, v in st.ghost.items()})
        return o(self, st, rule, what, where, ok, detail, strict)
    session.Checker.ob = ob
DBG = [a[2:] for a in sys.argv if a.startswith('-d')]
def go(modname, fn, pid='X', tier='quick', cached=True, verbose=True):
    if DBG: dbg()
    m = importlib.import_module(modname)
    cache = {}
    if cached: cache[('prog', ())] = Program(json.load(open('/tmp/o.json')))
    rep = Report(pid, tier)
    t = time.time()
    getattr(m, fn)(rep, cache)
    for o in rep.obs:
        if verbose or o['ok'] is not True: print({True:'ok ',False:'BAD',None:'???'}[o['ok']], o['rule'], '|', o['what'], '|', o['where'])
    for v in rep.violations: print('VIOL', v['what'], v['detail'][:4])
    print(len(rep.obs), 'obs', round(time.time()-t,1), 's', rep.analysed, rep.fatal, rep.notes[:5])
if __name__ == '__main__':
    go(sys.argv[1], sys.argv[2], verbose='-v' in sys.argv, cached='-f' not in sys.argv)
