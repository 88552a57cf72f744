"""Edits of the library (bugs and refactorings) against checks, in parallel in scratch copies.
usage: mut.py [name-substring...] [-pPROP] [-v]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from muts import MUTS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subs = [a for a in sys.argv[1:] if not a.startswith('-')]
props = [a[2:] for a in sys.argv[1:] if a.startswith('-p')]
verb = '-v' in sys.argv
def one(m):
    name, ps, bad, edits = m
    if props: ps = [p for p in ps if p in props]
    if not ps: return None
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/netcode', d + '/netcode')
        for f, old, new in edits:
            s = open(d + '/' + f).read()
            if s.count(old) < 1: return name, 'EDIT DOES NOT APPLY: ' + f, ''
            open(d + '/' + f, 'w').write(s.replace(old, new, 1))
        out = []
        for p in ps:
            env = dict(os.environ, NTC_REPO=d, VERIF_EVIDENCE=d + '/ev')
            try: r = subprocess.run([sys.executable, V + '/check.py', p], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired: out.append((p, 'TIMEOUT', '')); continue
            ok = r.returncode == (1 if bad else 0)
            lines = r.stdout.strip().splitlines()
            out.append((p, ('ok' if ok else 'WRONG') + ' rc=%d' % r.returncode, '\n      '.join(l.replace(d, '') for l in (lines + r.stderr.strip().splitlines()[-3:])[:6 if verb or not ok else 1])[:900]))
        return name, 'bug' if bad else 'refactoring', out
    finally: shutil.rmtree(d)
todo = [m for m in MUTS if not subs or any(s in m[0] for s in subs)]
wrong = n = 0
with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, todo):
        if r is None: continue
        name, kind, out = r
        if isinstance(out, str): print('%-28s %s' % (name, kind)); continue
        for p, res, txt in out:
            n += 1; wrong += not res.startswith('ok')
            print('%-28s %-4s %-11s %s %s' % (name, p, kind, res, txt)[:1200]); sys.stdout.flush()
print(n, 'runs', wrong, 'wrong')
