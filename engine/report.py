"""Obligations of one check and the evidence written from them."""
import os

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.obs = []
        self.violations = []
        self.analysed = {}
        self.assumptions = []
        self.notes = []
        self.fatal = None
        self._seen = {}

    def ob(self, rule, what, where, ok, detail=()):
        """One obligation. ok: True discharged, False violated, None undecided."""
        key = (rule, what, where)
        o = self._seen.get(key)
        if o is not None:
            if o['ok'] is True and ok is not True or (o['ok'] is None and ok is False):
                o['ok'] = ok
                if ok is False: self._viol(rule, what, where, detail)
            return ok
        o = {'rule': rule, 'what': what, 'where': where, 'ok': ok}
        self._seen[key] = o
        self.obs.append(o)
        if ok is False: self._viol(rule, what, where, detail)
        return ok

    def _viol(self, rule, what, where, detail):
        self.violations.append({'rule': rule, 'what': what, 'where': where, 'detail': [str(d) for d in detail],
                                'key': '%s@%s' % (rule, where.split(' ')[0])})

    def count(self, what, n):
        self.analysed[what] = n

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions: self.assumptions.append(t)

    def evidence(self, wall, viol, c):
        ok = sum(1 for o in self.obs if o['ok'] is True)
        und = [o for o in self.obs if o['ok'] is None]
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o['rule'], [0, 0])
            r[0] += 1
            if o['ok'] is True: r[1] += 1
        cov = {
            'explanation': c['how'],
            'obligations': len(self.obs),
            'discharged': ok,
            'undecided': len(und),
            'rules': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in rules.items()},
            'analysed': self.analysed,
            'sites': ['%s: %s [%s]' % (o['where'], o['what'], {True: 'holds', False: 'VIOLATED', None: 'undecided'}[o['ok']]) for o in self.obs][:400],
        }
        if und: cov['undecided_sites'] = ['%s: %s' % (o['where'], o['what']) for o in und][:100]
        if self.notes: cov['notes'] = self.notes[:100]
        if c.get('level') == 'proof':
            cov['checker_cmd'] = 'python3 /verif/check.py ' + self.pid
            cov['trusted_base'] = c.get('trusted', [])
        return {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': c.get('level', 'other'),
            'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 3), 'violations': len(viol),
        }
