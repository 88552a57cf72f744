"""Builds the exporter plugin if needed and exports the type-checked program of /repo."""
import fcntl, glob, hashlib, json, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('NTC_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
GXX = '/usr/bin/g++'
LLVM_CONFIG = '/usr/lib/llvm-18/bin/llvm-config'

class Broken(Exception):
    pass

def _env():
    e = dict(os.environ)
    for k in ('LD_LIBRARY_PATH', 'CPATH', 'CPLUS_INCLUDE_PATH', 'C_INCLUDE_PATH', 'LIBRARY_PATH'):
        e.pop(k, None)
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    return e

def plugin():
    src = os.path.join(HERE, 'astdump.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(VERIF, '_work')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'astdump-%s.so' % h)
    with open(os.path.join(d, 'plugin.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            flags = subprocess.run([LLVM_CONFIG, '--cxxflags'], env=_env(), capture_output=True, text=True, check=True).stdout.split()
            tmp = so + '.%d' % os.getpid()
            r = subprocess.run([GXX, '-O1', '-fPIC', '-shared', '-fno-rtti'] + flags + ['-w', src, '-o', tmp], env=_env(), capture_output=True, text=True)
            if r.returncode:
                raise Broken('cannot build the exporter plugin:\n' + r.stderr[-3000:])
            os.rename(tmp, so)
    return so

def sources(repo=REPO):
    hh = sorted(glob.glob(repo + '/netcode/**/*.hh', recursive=True))
    cc = sorted(glob.glob(repo + '/netcode/**/*.cc', recursive=True))
    h = sorted(glob.glob(repo + '/netcode/c/**/*.h', recursive=True))
    hh = [x for x in hh if not x.endswith('doxygen.hh')]
    return hh, cc, h

def export(repo=REPO, defines=()):
    repo = os.path.abspath(repo)
    hh, cc, h = sources(repo)
    if len(cc) < 3 or len(hh) < 10:
        raise Broken('sources of the library not found under %s/netcode' % repo)
    so = plugin()
    with tempfile.TemporaryDirectory(prefix='ntcexp') as d:
        tu = os.path.join(d, 'tu.cc')
        with open(tu, 'w') as f:
            for x in cc + hh:
                f.write('#include "%s"\n' % x)
            f.write(open(os.path.join(VERIF, 'drivers', 'driver.inc')).read())
        out = os.path.join(d, 'out.json')
        cmd = [CLANG, '-std=c++11', '-DNDEBUG', '-w', '-I', repo, '-fsyntax-only', '-ferror-limit=5'] + \
              ['-D' + x for x in defines] + \
              ['-fplugin=' + so, '-Xclang', '-plugin', '-Xclang', 'ntc-astdump',
               '-Xclang', '-plugin-arg-ntc-astdump', '-Xclang', 'root=' + repo + '/netcode/',
               '-Xclang', '-plugin-arg-ntc-astdump', '-Xclang', 'root=' + tu,
               '-Xclang', '-plugin-arg-ntc-astdump', '-Xclang', 'out=' + out, tu]
        r = subprocess.run(cmd, env=_env(), capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise Broken('the library does not type-check:\n' + r.stderr[-3000:])
        with open(out) as f:
            return json.load(f)

if __name__ == '__main__':
    import time
    t = time.time()
    p = export()
    print(time.time() - t, {k: len(v) for k, v in p.items()})
    if len(sys.argv) > 1:
        json.dump(p, open(sys.argv[1], 'w'))
