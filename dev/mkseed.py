"""mkseed.py MUT ID: turns an edit of dev/muts.py into seeded/ID/patch.diff (and a demo.sh)."""
import sys, os, subprocess, shutil
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import muts
name, sid = sys.argv[1:3]
m = [x for x in muts.MUTS if x[0] == name][0]
w = '/tmp/wt'
subprocess.check_call(['git', '-C', w, 'checkout', '-q', '.'])
for f, o, n in m[3]:
    s = open(os.path.join(w, f)).read()
    assert o in s, (name, o)
    open(os.path.join(w, f), 'w').write(s.replace(o, n, 1))
d = os.path.join(here, '..', 'seeded', sid)
os.makedirs(d, exist_ok=True)
open(os.path.join(d, 'patch.diff'), 'wb').write(subprocess.check_output(['git', '-C', w, 'diff']))
subprocess.check_call(['git', '-C', w, 'checkout', '-q', '.'])
shutil.copy(os.path.join(here, '..', 'tools', 'demo.sh.tmpl'), os.path.join(d, 'demo.sh'))
