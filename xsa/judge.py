"""Judging the outcomes of an evaluated function against a written specification.

A specification is a Python function of a Judge.  It asks for the facts it
needs with `cond` (which splits the path when they are open) and returns the
list of obligations that fail on that path."""
import time

from .engine import *
from . import models
from .compare import same


SLOW = []       # one entry for every specification whose cases did not come to an end


class Finding:
    def __init__(self, props, key, msg, where=None):
        self.props = tuple(props)
        self.key = key
        self.msg = msg
        self.where = where

    def __repr__(self):
        return "[%s] %s: %s" % (",".join(self.props), self.key, self.msg)


class Report:
    """findings and counters of one analysis"""

    def __init__(self):
        self.findings = []
        self.count = {}          # property -> obligations examined
        self.fns = {}            # property -> functions analysed for it
        self.samples = {}        # property -> sample texts
        self.paths = 0
        self.callsites = {}
        self.shapes = {}         # identifiers written: shape -> where first
        self.open = []           # what could not be decided: (name, properties, why)

    def merge(self, r):
        for f in r.findings:
            self.add(f.props, f.key, f.msg, f.where)
        for p, n in r.count.items():
            self.count[p] = self.count.get(p, 0) + n
        for p, n in r.fns.items():
            self.fns.setdefault(p, set()).update(n)
        for p, l in r.samples.items():
            for x in l:
                self.sample((p,), x)
        self.paths += r.paths
        self.open += r.open
        for q, n in r.shapes.items():
            self.shapes.setdefault(q, n)

    def undecided(self, props, key, why):
        self.open.append((key, tuple(props), why))

    def add(self, props, key, msg, where=None):
        for f in self.findings:
            if f.key == key and f.msg == msg:
                f.props = tuple(dict.fromkeys(f.props + tuple(props)))
                return
        self.findings.append(Finding(props, key, msg, where))

    def fn(self, props, *names):
        for p in props:
            self.fns.setdefault(p, set()).update(names)

    def saw(self, props, ip):
        """the functions an evaluation went through (library models excluded)"""
        self.fn(props, *[n for (d, n) in ip.visited if not n.startswith("models::")])

    def functions_of(self, pid):
        return self.fns.get(pid, ())

    def did(self, props, n=1):
        for p in props:
            self.count[p] = self.count.get(p, 0) + n

    def sample(self, props, text):
        for p in props:
            l = self.samples.setdefault(p, [])
            if len(l) < 12:
                l.append(text)


class Judge:
    """one path: state, kind of ending, value"""

    def __init__(self, ip, st, kind, orig, memo=None):
        self.ip, self.st, self.kind = ip, st, kind
        self.orig = orig
        self.memo = {} if memo is None else memo    # what is decided stays decided when the path is split

    @property
    def v(self):
        return self.st.mem[("JV",)]

    def norm(self, l):
        """rewrite a value through the residue splits made on this path"""
        for _ in range(8):
            n = rewrite(l, lambda a: self.st.mem.get(("alias", a)))
            if n == l:
                return n
            l = n
        return l

    def cond(self, c):
        d = self.memo.get(c)
        if d is not None:
            return d
        k = c
        c = self.normc(c)
        d = self.ip.decide(self.st, c)
        if d is None:
            raise NeedFork(c)
        self.memo[k] = d
        return d

    def is_(self, term, var, n):
        """is the enum value `term` (n variants) of variant `var`?"""
        if term in self.st.known:
            return self.st.known[term] == var
        self.ip.bounds.setdefault(("disc", term), (0, n - 1))
        return self.cond(("cmp", "eq", V(("disc", term)).sub(K(var))))

    def normc(self, c):
        return self.norm(c)

    def le(self, a, b):
        return self.cond(("cmp", "le", self.lin(a).sub(self.lin(b))))

    def lt(self, a, b):
        return self.cond(("cmp", "le", self.lin(a).sub(self.lin(b)).add(1)))

    def eq(self, a, b):
        return self.cond(("cmp", "eq", self.lin(a).sub(self.lin(b))))

    def lin(self, x):
        if isinstance(x, int):
            return K(x)
        return self.norm(x)

    def mod(self, l, k):
        """residue of l modulo k, as a python int"""
        l = self.lin(l)
        rest = Lin(l.c % k, {a: v for a, v in l.t.items() if v % k})
        if rest.isc():
            return rest.c % k
        raise NeedResidue(l, k, None)

    def same(self, a, b):
        return same(self.ip, self.st, self.norm(a), self.norm(b))

    def be(self, n, signed, term, lo):
        return self.ip.mkbe(n, signed, term, lo)

    def events(self):
        ev = self.st.mem.get(("EV",), EMPTYQ)
        return [p[1] for p in ev[1] if p[0] == "u"] if all(p[0] == "u" for p in ev[1]) else None


def judge(ip, outs, spec, limit=400, seconds=24):
    """spec(Judge) -> list of failures; every path is split until the
    specification is decided.  Returns [(judge, failures)].  When the cases do not
    come to an end, the failures found until then are returned; without any,
    nothing is decided."""
    until = time.monotonic() + seconds / (1 + len(SLOW))
    res = []
    n = 0
    work = []
    for st, kind, v in outs:
        st = st.copy()
        st.mem[("JV",)] = v if v is not None else UNIT
        work.append((st, kind, (st, v), {}))
    work.sort(key=lambda w: w[1] != "panic")
    while work:
        st, kind, orig, memo = work.pop(0)
        n += 1
        if n > limit or time.monotonic() > until:
            SLOW.append(1)
            if any(f for _, f in res):
                return res
            raise Budget("case distinctions of a specification")
        j = Judge(ip, st, kind, orig, memo)
        try:
            res.append((j, spec(j)))
        except NeedFork as nf:
            fs = ip.fork(st, nf.cond)
            if len(fs) == 1 and fs[0][0] is st:
                raise Unknown("specification case not decided: %r" % (nf.cond,))
            for s, t in fs:
                work.append((s, kind, orig, dict(memo)))
        except NeedResidue as nr:
            for s in ip.residue(st, nr):
                work.append((s, kind, orig, dict(memo)))
        except Fork2 as f2:
            for s in f2.states:
                work.append((s, kind, orig, dict(memo)))
    return res
