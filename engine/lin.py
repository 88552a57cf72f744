"""Affine terms over integer symbols and the entailment test of the linear-inequality domain.

Constraints are affine terms read as "term >= 0".  Entailment is decided by Fourier-Motzkin
projection with integer tightening; when the projection would grow too large the answer is
"not entailed" (sound for the analysis: a fact it cannot show is not used)."""
from math import gcd

INF = None

class Sym:
    __slots__ = ('i', 'name', 'lo', 'hi', 'tag')
    def __init__(self, i, name, lo, hi, tag):
        self.i, self.name, self.lo, self.hi, self.tag = i, name, lo, hi, tag

SYMS = []
_memo = {}

def fresh(name, lo=None, hi=None, tag=None):
    s = Sym(len(SYMS), name, lo, hi, tag)
    SYMS.append(s)
    return Lin(((s.i, 1),), 0)

def memo(key, name, lo=None, hi=None):
    """Uninterpreted term: the same key always gives the same symbol."""
    v = _memo.get(key)
    if v is None:
        v = fresh(name, lo, hi, key)
        _memo[key] = v
    return v

def reset():
    SYMS.clear(); _memo.clear(); _cache.clear()

class Lin:
    __slots__ = ('t', 'c', '_h')
    def __init__(self, t, c):
        self.t = t; self.c = c; self._h = None
    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __ne__(self, o):
        return not self == o
    def is_const(self):
        return not self.t
    def sym(self):
        """The symbol index if the term is a plain symbol."""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None
    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for s, k in o.t:
            n = d.get(s, 0) + k
            if n: d[s] = n
            else: d.pop(s, None)
        return Lin(tuple(sorted(d.items())), self.c + o.c)
    __radd__ = __add__
    def __neg__(self):
        return Lin(tuple((s, -k) for s, k in self.t), -self.c)
    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)
    def __rsub__(self, o):
        return (-self) + o
    def scale(self, k):
        if k == 0: return ZERO
        return Lin(tuple((s, c * k) for s, c in self.t), self.c * k)
    def subst(self, m):
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit: return self
        r = Lin((), self.c)
        for s, k in self.t:
            r = r + (m[s].scale(k) if s in m else Lin(((s, k),), 0))
        return r
    def __repr__(self):
        p = []
        for s, k in self.t:
            n = SYMS[s].name + '#%d' % s
            p.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else str(abs(k)) + '*') + n)
        if self.c or not p: p.append('%+d' % self.c)
        r = ' '.join(p)
        return r[1:] if r.startswith('+') else r

ZERO = Lin((), 0)
ONE = Lin((), 1)

def const(v):
    return Lin((), v)

def _tight(t, c):
    """Normalise a constraint given as dict/tuple: divide by gcd with integer tightening."""
    g = 0
    for _, k in t:
        g = gcd(g, abs(k))
    if g > 1:
        t = tuple((s, k // g) for s, k in t)
        c = c // g   # floor: integers
    return t, c

_cache = {}
LIMIT = 300
stats = {'queries': 0, 'fm': 0, 'capped': 0}

def _fm(cons):
    """cons: set of (t, c). True if (integer-relaxed) feasible."""
    stats['fm'] += 1
    best = {}
    for t, c in cons:
        if not t:
            if c < 0: return False
            continue
        t, c = _tight(t, c)
        o = best.get(t)
        if o is None or c < o: best[t] = c
    # equalities by opposite pairs: substitute
    while best:
        # quick contradiction test and equality detection
        eq = None
        for t, c in best.items():
            nt = tuple((s, -k) for s, k in t)
            o = best.get(nt)
            if o is not None:
                if c + o < 0: return False
                if c + o == 0:
                    for s, k in t:
                        if abs(k) == 1:
                            eq = (t, c, s, k); break
                    if eq: break
        if eq:
            t, c, s, k = eq
            # k*s + rest + c = 0  ->  s = -(rest + c)/k
            rest = Lin(tuple(x for x in t if x[0] != s), c).scale(-k)
            m = {s: rest}
            nb = {}
            for t2, c2 in best.items():
                l = Lin(t2, c2).subst(m)
                if not l.t:
                    if l.c < 0: return False
                    continue
                tt, cc = _tight(l.t, l.c)
                o = nb.get(tt)
                if o is None or cc < o: nb[tt] = cc
            best = nb
            continue
        # choose variable
        pos, neg = {}, {}
        for t in best:
            for s, k in t:
                if k > 0: pos[s] = pos.get(s, 0) + 1
                else: neg[s] = neg.get(s, 0) + 1
        v, cost = None, None
        for s in set(pos) | set(neg):
            p, n = pos.get(s, 0), neg.get(s, 0)
            cst = p * n - p - n
            if cost is None or cst < cost:
                v, cost = s, cst
        P, N, R = [], [], {}
        for t, c in best.items():
            k = 0
            for s, kk in t:
                if s == v: k = kk; break
            if k > 0: P.append((t, c, k))
            elif k < 0: N.append((t, c, -k))
            else: R[t] = c
        if len(P) * len(N) + len(R) > LIMIT:
            stats['capped'] += 1
            return True
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                g = gcd(k1, k2)
                l = Lin(t1, c1).scale(k2 // g) + Lin(t2, c2).scale(k1 // g)
                if not l.t:
                    if l.c < 0: return False
                    continue
                tt, cc = _tight(l.t, l.c)
                o = R.get(tt)
                if o is None or cc < o: R[tt] = cc
        best = R
    return True

def feasible(cons):
    """cons: iterable of Lin (>= 0). Adds ranges of the symbols involved."""
    stats['queries'] += 1
    key = frozenset(cons)
    r = _cache.get(key)
    if r is not None: return r
    syms = set()
    cs = set()
    for l in key:
        cs.add((l.t, l.c))
        for s, _ in l.t: syms.add(s)
    for s in syms:
        y = SYMS[s]
        if y.lo is not None: cs.add((((s, 1),), -y.lo))
        if y.hi is not None: cs.add((((s, -1),), y.hi))
    r = _fm(cs)
    if len(_cache) > 400000: _cache.clear()
    _cache[key] = r
    return r

def component(facts, seed):
    """The facts connected with the symbols of `seed` (list of Lin)."""
    syms = set()
    for l in seed:
        for s, _ in l.t: syms.add(s)
    rest = list(facts)
    out = []
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for f in rest:
            for s, _ in f.t:
                if s in syms:
                    out.append(f)
                    for s2, _ in f.t: syms.add(s2)
                    changed = True
                    break
            else:
                nr.append(f)
        rest = nr
    return out

def bounds(l):
    """Interval of a term from symbol ranges only."""
    lo = hi = l.c
    for s, k in l.t:
        y = SYMS[s]
        a, b = (y.lo, y.hi) if k > 0 else (y.hi, y.lo)
        lo = None if lo is None or a is None else lo + k * a
        hi = None if hi is None or b is None else hi + k * b
    return lo, hi
