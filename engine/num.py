"""Relational numeric domain: conjunctions of affine inequalities over integer atoms.

Entailment is decided by eliminating atoms (Gauss for equalities, Fourier-Motzkin
for inequalities) with integer tightening; a bounded number of combinations is
tried and "unknown" is the answer beyond it.
"""
from math import gcd
from .terms import Lin, T

UNSIGNED = {}      # atom -> max value or None


def note_atom(a, bits=None):
    if a not in UNSIGNED:
        UNSIGNED[a] = (1 << bits) - 1 if bits and bits <= 32 else None


_serial = [0]


class Facts:
    """persistent-ish: copy is O(1) until modified"""
    __slots__ = ("ge", "eq", "ne", "ver", "_own")
    _cache = {}

    def __init__(self):
        self.ge = ()
        self.eq = ()
        self.ne = frozenset()
        self.ver = 0
        self._own = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.ge, f.eq, f.ne, f.ver = self.ge, self.eq, self.ne, self.ver
        return f

    def _bump(self):
        _serial[0] += 1
        self.ver = _serial[0]

    def add_ge(self, e):
        if e.const is not None:
            return
        if e in self.ge:
            return
        self.ge = self.ge + (e,)
        self._bump()

    def add_eq(self, e):
        if e.const is not None:
            return
        if e in self.eq or (-e) in self.eq:
            return
        self.eq = self.eq + (e,)
        self._bump()

    def add_ne(self, e):
        if e.const is not None:
            return
        self.ne = self.ne | {e, -e}
        self._bump()

    def entails_ge(self, e):
        """is e >= 0 certain?"""
        if e.const is not None:
            return e.c >= 0
        if e in self.ge:
            return True
        if _trivial(e):
            return True
        k = (self.ver, e)
        r = Facts._cache.get(k)
        if r is None:
            r = _refute(self, -e - 1)
            if len(Facts._cache) > 400000:
                Facts._cache.clear()
            Facts._cache[k] = r
        return r

    def entails_eq(self, e):
        if e.const is not None:
            return e.c == 0
        if e in self.eq or (-e) in self.eq:
            return True
        return self.entails_ge(e) and self.entails_ge(-e)

    def entails_ne(self, e):
        if e.const is not None:
            return e.c != 0
        if e in self.ne:
            return True
        return self.entails_ge(e - 1) or self.entails_ge(-e - 1)

    def infeasible(self):
        if not self.ge and not self.eq:
            return False
        k = (self.ver, None)
        r = Facts._cache.get(k)
        if r is None:
            r = _refute(self, None)
            Facts._cache[k] = r
        return r


def _trivial(e):
    lo = e.c
    for a, k in e.t:
        if a not in UNSIGNED:
            return False
        if k < 0:
            m = UNSIGNED[a]
            if m is None:
                return False
            lo += k * m
    return lo >= 0


def _norm(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c = c // g          # floor: integer tightening for >= 0
    return c, d


MAXC = 220


def _refute(f, extra):
    """True if facts (+ extra >= 0) have no integer solution (as far as we can tell)"""
    ges = list(f.ge)
    eqs = list(f.eq)
    if extra is not None:
        # connected component of the query
        atoms = set(a for a, _ in extra.t)
        rel_g, rel_e = [], []
        rest_g, rest_e = ges, eqs
        changed = True
        while changed:
            changed = False
            ng, ne = [], []
            for x in rest_g:
                if any(a in atoms for a, _ in x.t):
                    rel_g.append(x)
                    for a, _ in x.t:
                        if a not in atoms:
                            atoms.add(a)
                            changed = True
                else:
                    ng.append(x)
            for x in rest_e:
                if any(a in atoms for a, _ in x.t):
                    rel_e.append(x)
                    for a, _ in x.t:
                        if a not in atoms:
                            atoms.add(a)
                            changed = True
                else:
                    ne.append(x)
            rest_g, rest_e = ng, ne
        ges, eqs = rel_g + [extra], rel_e
    else:
        atoms = set()
        for x in ges + eqs:
            for a, _ in x.t:
                atoms.add(a)
    C = [(x.c, dict(x.t)) for x in ges]
    E = [(x.c, dict(x.t)) for x in eqs]
    for a in atoms:
        if a in UNSIGNED:
            C.append((0, {a: 1}))
            if UNSIGNED[a] is not None:
                C.append((UNSIGNED[a], {a: -1}))
    # Gauss with unit coefficients
    while True:
        pick = None
        for i, (c, d) in enumerate(E):
            if not d:
                if c != 0:
                    return True
                continue
            g = 0
            for k in d.values():
                g = gcd(g, k)
            if g and c % g:
                return True
            for a, k in d.items():
                if abs(k) == g:
                    pick = (i, a)
                    break
            if pick:
                break
        if not pick:
            break
        i, a = pick
        c, d = E.pop(i)
        k = d[a]
        # a = -(c + rest)/k
        s = 1 if k > 0 else -1
        kk = abs(k)

        def sub(cx, dx):
            m = dx.get(a, 0)
            if m == 0:
                return cx, dx
            # multiply by kk, then cancel
            nd = {}
            for b, v in dx.items():
                nd[b] = v * kk
            nc = cx * kk
            for b, v in d.items():
                nd[b] = nd.get(b, 0) - m * s * v
            nc -= m * s * c
            nd = {b: v for b, v in nd.items() if v}
            return nc, nd
        E = [sub(*x) for x in E]
        C = [sub(*x) for x in C]
    for c, d in E:
        if d:
            C.append((c, d))
            C.append((-c, {a: -k for a, k in d.items()}))
    # dedupe / normalise
    def clean(C):
        best = {}
        for c, d in C:
            if not d:
                if c < 0:
                    return None
                continue
            c, d = _norm(c, d)
            k = tuple(sorted(((a.id, v) for a, v in d.items())))
            if k not in best or best[k][0] > c:
                best[k] = (c, d)
        return list(best.values())
    C = clean(C)
    if C is None:
        return True
    rounds = 0
    while C:
        occ = {}
        for c, d in C:
            for a, k in d.items():
                p = occ.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        a = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x.id))
        P = [x for x in C if x[1].get(a, 0) > 0]
        N = [x for x in C if x[1].get(a, 0) < 0]
        R = [x for x in C if a not in x[1]]
        if len(P) * len(N) + len(R) > MAXC:
            return False
        for c1, d1 in P:
            k1 = d1[a]
            for c2, d2 in N:
                k2 = -d2[a]
                nd = {}
                for b, v in d1.items():
                    if b is not a:
                        nd[b] = v * k2
                for b, v in d2.items():
                    if b is not a:
                        nd[b] = nd.get(b, 0) + v * k1
                nd = {b: v for b, v in nd.items() if v}
                R.append((c1 * k2 + c2 * k1, nd))
        C = clean(R)
        if C is None:
            return True
        rounds += 1
        if rounds > 60:
            return False
    return False
