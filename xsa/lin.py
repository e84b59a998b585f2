"""Linear integer expressions over symbolic atoms, and a small polyhedral
domain (Fourier-Motzkin elimination with integer tightening) used to discharge
guards, bounds and overflow obligations.  No external solver is involved."""
from math import gcd


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t if t is not None else {}
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, frozenset(self.t.items())))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def isc(self):
        return not self.t

    def add(self, o, k=1):
        if isinstance(o, int):
            return Lin(self.c + k * o, self.t)
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        t = dict(self.t)
        for a, v in o.t.items():
            n = t.get(a, 0) + k * v
            if n:
                t[a] = n
            else:
                t.pop(a, None)
        return Lin(self.c + k * o.c, t)

    def sub(self, o):
        return self.add(o, -1)

    def mul(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, {a: v * k for a, v in self.t.items()})

    def neg(self):
        return self.mul(-1)

    def subst(self, a, e):
        v = self.t.get(a)
        if v is None:
            return self
        t = dict(self.t)
        del t[a]
        return Lin(self.c, t).add(e.mul(v))

    def atom(self):
        """the single atom if self is exactly 1*atom"""
        if self.c == 0 and len(self.t) == 1:
            (a, v), = self.t.items()
            if v == 1:
                return a
        return None

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = " + ".join(("%d*" % v if v != 1 else "") + pa(a) for a, v in sorted(self.t.items(), key=lambda x: repr(x)))
        return s + (" %+d" % self.c if self.c else "")


def pa(a):
    return a if isinstance(a, str) else repr(a)


ZERO = Lin(0)


def K(n):
    return Lin(n)


def V(a):
    return Lin(0, {a: 1})


def tighten(l):
    """integer tightening of l <= 0"""
    if not l.t:
        return l
    g = 0
    for v in l.t.values():
        g = gcd(g, v)
    if g > 1:
        # g*x + c <= 0  ->  x + ceil(c/g) <= 0
        return Lin(-((-l.c) // g), {a: v // g for a, v in l.t.items()})
    return l


def feasible(cons, limit=900):
    """False only if the conjunction of (l <= 0) is unsatisfiable over the integers
    (proved by elimination); True when not refuted."""
    cur = set()
    for l in cons:
        l = tighten(l)
        if not l.t:
            if l.c > 0:
                return False
            continue
        cur.add(l)
    while cur:
        # keep only the tightest constant per linear part
        best = {}
        for l in cur:
            k = frozenset(l.t.items())
            if k not in best or best[k].c < l.c:
                best[k] = l
        cur = set(best.values())
        # direct contradiction x + c1 <= 0 and -x + c2 <= 0
        cnt = {}
        for l in cur:
            for a, v in l.t.items():
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if v > 0 else (p, n + 1)
        # one-sided atoms: their constraints can always be met
        one = {a for a, (p, n) in cnt.items() if p == 0 or n == 0}
        if one:
            cur = {l for l in cur if not any(a in one for a in l.t)}
            continue
        if not cnt:
            return True
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1]))
        pos = [l for l in cur if l.t.get(a, 0) > 0]
        neg = [l for l in cur if l.t.get(a, 0) < 0]
        rest = {l for l in cur if a not in l.t}
        if len(pos) * len(neg) + len(rest) > limit:
            return True
        for p in pos:
            for n in neg:
                kp, kn = p.t[a], -n.t[a]
                g = gcd(kp, kn)
                l = tighten(p.mul(kn // g).add(n.mul(kp // g)))
                if not l.t:
                    if l.c > 0:
                        return False
                    continue
                rest.add(l)
        cur = rest
    return True


def relevant(facts, seeds):
    """facts connected (by shared atoms) to the seed constraints"""
    atoms = set()
    for s in seeds:
        atoms.update(s.t)
    out = []
    rest = list(facts)
    while True:
        nxt = []
        hit = False
        for f in rest:
            if any(a in atoms for a in f.t):
                out.append(f)
                atoms.update(f.t)
                hit = True
            else:
                nxt.append(f)
        rest = nxt
        if not hit:
            return out
