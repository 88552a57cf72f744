#!/usr/bin/env python3
"""Decides one property (or several) from /repo's current source.

usage: check.py [--tier quick|thorough] ID...
exit 0: no violation; exit 1: at least one violation (VIOLATION lines); exit 2: no answer."""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True

from report import Report
from prog import Program
import export

REGISTRY = {}

def load():
    import registry
    return registry.CHECKS

def known():
    """Known findings: property -> {key: text}."""
    out = {}
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known:'):
                head, _, text = l[6:].strip().partition(' ')
                prop = head.split('=')[1]
                key, _, text = text.partition(' | ')
                out.setdefault(prop, {})[key.strip()] = text.strip()
    return out

def run_one(pid, checks, tier, cache):
    t0 = time.time()
    rep = Report(pid, tier)
    c = checks[pid]
    c['run'](rep, cache)
    wall = time.time() - t0
    kf = known().get(pid, {})
    viol, kfound = [], []
    for v in rep.violations:
        (kfound if v['key'] in kf else viol).append(v)
    ed = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ed, exist_ok=True)
    replay = os.path.join(ed, pid + '.violations.txt')
    if os.path.exists(replay): os.remove(replay)
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s: %d violated obligations\nre-run: python3 /verif/check.py %s\n\n' % (pid, len(viol), pid))
            for v in viol:
                f.write('%s\n  at %s\n  rule: %s\n' % (v['what'], v['where'], v['rule']))
                for d in v['detail']: f.write('    %s\n' % d)
                f.write('\n')
    ev = rep.evidence(wall, viol, c)
    with open(os.path.join(ed, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in kfound: print('KNOWN-FINDING: property=%s %s' % (pid, kf[v['key']]))
    for v in viol[:20]: print('  %s: %s (%s)' % (v['where'], v['what'], v['rule']))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %.1f s' %
          (pid, len(rep.obs), sum(1 for o in rep.obs if o['ok'] is True), sum(1 for o in rep.obs if o['ok'] is None), len(viol), wall))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if rep.fatal:
        print('%s: no answer: %s' % (pid, rep.fatal))
        return 2
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--all', action='store_true')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    checks = load()
    ids = list(checks) if a.all else a.ids
    rc = 0
    cache = {}
    for i in ids:
        try:
            r = run_one(i, checks, a.tier, cache)
        except export.Broken as e:
            print('%s: %s' % (i, e)); r = 2
        except Exception:
            traceback.print_exc(); r = 2
        rc = 1 if 1 in (r, rc) else max(r, rc)
    return rc

if __name__ == '__main__':
    sys.exit(main())
