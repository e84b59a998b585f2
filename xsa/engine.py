"""Abstract interpreter over dumped MIR.

Domain: a gated value graph (values are hash-consed terms over the symbols a
function receives), linear integer facts (lin.py), sequences as regular
expressions over parts (units, symbolic slices, stars over loop indices,
alternatives), and an event sequence for calls whose code is not visible.
Paths are kept apart by the branch decisions taken (trace partitioning); loops
are summarised by generalising over the iteration number, never unrolled over
a symbolic bound.  Nothing is executed."""
import re
import time
from .lin import Lin, K, V, ZERO, feasible, relevant, tighten


DEADLINE = time.monotonic() + 420     # seconds for one check; what is left then is reported as undecided


class Unknown(Exception):
    """the analysis could not interpret a construct"""


class Endless(Unknown):
    """a loop no path leaves"""


class Budget(Unknown):
    pass


# ------------------------------------------------------------------ values
class Sym:
    __slots__ = ("term", "ty", "h")

    def __init__(self, term, ty):
        self.term = term
        self.ty = ty
        self.h = hash(("Sym", term))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Sym) and self.term == o.term

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "S%r" % (self.term,)


def A(kind, var, *fields):
    return ("A", kind, var, tuple(fields))


UNIT = ("A", "tuple", 0, ())
TRUE = ("b", True)
FALSE = ("b", False)
RESULT = "std::result::Result"
OPTION = "std::option::Option"


def Ok(v):
    return A(RESULT, 0, v)


def Err(v):
    return A(RESULT, 1, v)


def Some(v):
    return A(OPTION, 1, v)


NONE = A(OPTION, 0)


def boolv(b):
    return TRUE if b else FALSE


def isA(v, kind=None, var=None):
    return (isinstance(v, tuple) and v and v[0] == "A" and (kind is None or v[1] == kind)
            and (var is None or v[2] == var))


def isQ(v):
    return isinstance(v, tuple) and v and v[0] == "Q"


def strip(v):
    while isinstance(v, tuple) and v and v[0] == "R":
        v = v[1]
    return v


def rewrite(x, f, memo=None):
    """deep rewrite of Lin atoms / Sym terms: f(atom) -> Lin or None"""
    if memo is None:
        memo = {}
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    try:
        k = x
        r = memo.get(k)
        if r is not None:
            return r
    except TypeError:
        k = None
    if isinstance(x, Lin):
        if not x.t:
            return x
        out = Lin(x.c)
        ch = False
        for a, v in x.t.items():
            n = f(a)
            if n is None:
                a2 = rewrite(a, f, memo)
                if isinstance(a2, Lin):
                    out = out.add(a2.mul(v)); ch = True
                    continue
                if a2 != a:
                    ch = True
                a2 = canon_atom(a2)
                if isinstance(a2, Lin):
                    out = out.add(a2.mul(v))
                else:
                    out = out.add(Lin(0, {a2: v}))
            else:
                ch = True
                out = out.add(n.mul(v))
        r = out if ch else x
    elif isinstance(x, Sym):
        n = f(x.term)
        if isinstance(n, Sym):
            r = n
        else:
            t = rewrite(x.term, f, memo)
            r = x if t == x.term else Sym(t, x.ty)
    elif isinstance(x, tuple):
        t = tuple(rewrite(y, f, memo) for y in x)
        if t == x:
            r = x
        else:
            r = t
            if t and t[0] == "Q" and len(t) == 2:
                r = ("Q", norm_parts(t[1]))
            elif t and t[0] == "S?":
                r = t
    else:
        r = x
    if k is not None:
        memo[k] = r
    return r


def canon_atom(a):
    return a


def mentions(x, pred, memo=None):
    if memo is None:
        memo = {}
    if isinstance(x, (str, int, bool)) or x is None:
        return False
    if x in memo:
        return memo[x]
    memo[x] = False
    if isinstance(x, Lin):
        r = any(pred(a) or mentions(a, pred, memo) for a in x.t)
    elif isinstance(x, Sym):
        r = pred(x.term) or mentions(x.term, pred, memo)
    elif isinstance(x, tuple):
        r = pred(x) or any(mentions(y, pred, memo) for y in x)
    else:
        r = False
    memo[x] = r
    return r


# ------------------------------------------------------------------ sequences
def Q(*parts):
    return ("Q", norm_parts(parts))


EMPTYQ = ("Q", ())


def norm_parts(parts):
    out = []
    for p in parts:
        t = p[0]
        if t == "s" and p[2] == p[3]:
            continue
        if t == "k" and not p[1]:
            continue
        if t == "rep" and p[2] == ZERO:
            continue
        if t == "*" and (p[2] == ZERO or not p[3]):
            continue
        if t == "alt" and all(not c[1] for c in p[1]):
            continue
        if t == "rep" and p[2].isc() and 0 < p[2].c <= 64:
            out.extend([("u", p[1])] * p[2].c)
            continue
        if t == "*" and p[2] == K(1):
            out.extend(norm_parts(rewrite(p[3], lambda a, v=p[1]: ZERO if a == v else None)))
            continue
        if out:
            q = out[-1]
            if t == "s" and q[0] == "s" and q[1] == p[1] and q[3] == p[2]:
                out[-1] = ("s", q[1], q[2], p[3])
                if out[-1][2] == out[-1][3]:
                    out.pop()
                continue
            if t == "k" and q[0] == "k":
                out[-1] = ("k", q[1] + p[1])
                continue
            if t == "rep" and q[0] == "rep" and q[1] == p[1]:
                out[-1] = ("rep", q[1], q[2].add(p[2]))
                continue
            if t == "*" and q[0] == "*" and p[1] == q[1] and rewrite(q[3], lambda a, v=p[1], n=q[2]: V(v).add(n) if a == v else None) == p[3]:
                out[-1] = ("*", q[1], q[2].add(p[2]), q[3])
                continue
            if t == "s" and q[0] == "u" or t == "u" and q[0] == "s":
                pass
        out.append(p)
    return tuple(out)


def part_len(p):
    t = p[0]
    if t == "u":
        return K(1)
    if t == "s":
        return p[3].sub(p[2])
    if t == "k":
        return K(len(p[1].encode()))
    if t == "rep":
        return p[2]
    if t == "*":
        l = parts_len(p[3])
        if l.isc():
            return p[2].mul(l.c)
        if p[2].isc() and not mentions(l, lambda a: a == p[1]):
            return l.mul(p[2].c)
        return V(("plen", p))
    if t == "acc":
        return p[2]
    if t == "alt":
        ls = {parts_len(c[1]) for c in p[1]}
        if len(ls) == 1:
            return ls.pop()
        return V(("plen", p))
    return V(("plen", p))


def parts_len(parts):
    l = ZERO
    for p in parts:
        l = l.add(part_len(p))
    return l


def bv_depth(x, memo=None):
    """height of bound-variable nesting, for canonical star variables"""
    if memo is None:
        memo = {}
    if isinstance(x, (str, int, bool)) or x is None:
        return 0
    if x in memo:
        return memo[x]
    memo[x] = 0
    if isinstance(x, Lin):
        r = max([bv_depth(a, memo) for a in x.t], default=0)
    elif isinstance(x, Sym):
        r = bv_depth(x.term, memo)
    elif isinstance(x, tuple):
        if len(x) == 2 and x[0] == "bv" and isinstance(x[1], int):
            r = x[1] + 1
        else:
            r = max([bv_depth(y, memo) for y in x], default=0)
    else:
        r = 0
    memo[x] = r
    return r


def star(var, n, parts):
    """star over var in [0,n); the variable is renamed canonically"""
    d = bv_depth(parts)
    b = ("bv", d)
    parts = rewrite(parts, lambda a: V(b) if a == var else None)
    return ("*", b, n, norm_parts(parts))


# ------------------------------------------------------------------ types
def phantom(ty, sub=()):
    """PhantomData keeps its type argument: serde seeds select by it"""
    a = ty.args()
    t = a[0] if a else None
    if t is not None and t.k == "param" and t.s in sub:
        t = sub[t.s]
    return A(ty.p, 0, Sym(("T", t.s if t is not None else "?"), None))


class Ty:
    __slots__ = ("s", "k", "raw", "D", "h")

    def __init__(self, raw, D):
        self.raw = raw
        self.D = D
        self.k = raw["k"]
        self.s = raw.get("s") or raw.get("n") or raw["k"]

    def sub(self, key="t"):
        return self.D.ty(self.raw[key])

    def args(self):
        return [self.D.ty(a) for a in self.raw.get("args", [])]

    @property
    def p(self):
        return self.raw.get("p")

    def isint(self):
        return self.k in ("int", "uint")

    def bits(self):
        return self.raw["b"]

    def rng(self):
        if self.k == "bool":
            return (0, 1)
        if self.k == "char":
            return (0, 0x10FFFF)
        b = self.raw["b"]
        if self.k == "uint":
            return (0, (1 << b) - 1)
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1)

    def __repr__(self):
        return self.s


class Dump:
    def __init__(self, j, name):
        self.name = name
        self.j = j
        self.types = [None] * len(j["types"])
        self.bodies = {b["id"]: b for b in j["bodies"]}
        for b in j["bodies"]:
            b["D"] = self
        self.roots = j["roots"]
        self.crate = j["crate"]

    def ty(self, i):
        if isinstance(i, Ty):
            return i
        t = self.types[i]
        if t is None:
            t = self.types[i] = Ty(self.j["types"][i], self)
        return t


SEQ_ADTS = {"std::vec::Vec", "std::string::String"}


def unref(ty):
    while ty is not None and ty.k == "ref":
        ty = ty.sub()
    return ty


def is_seq_ty(ty):
    ty = unref(ty)
    if ty is None:
        return False
    if ty.k in ("slice", "str", "array"):
        return True
    if ty.k == "adt":
        if ty.p in SEQ_ADTS:
            return True
        if ty.p == "std::boxed::Box":
            a = ty.args()
            return bool(a) and is_seq_ty(a[0])
    return False


def is_constq(x):
    return isinstance(x, tuple) and len(x) == 2 and x[0] == "Q" and all(p[0] == "k" for p in x[1])


class St:
    __slots__ = ("mem", "facts", "neq", "known", "excl", "bat", "dec")

    def __init__(self):
        self.mem = {}
        self.facts = ()
        self.neq = ()
        self.known = {}
        self.excl = {}
        self.bat = {}
        self.dec = ()

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.neq = self.neq
        s.known = dict(self.known)
        s.excl = dict(self.excl)
        s.bat = dict(self.bat)
        s.dec = self.dec
        return s

    def rewrite(self, f):
        memo = {}
        s = St()
        s.mem = {rewrite(k, f, memo): rewrite(v, f, memo) for k, v in self.mem.items()}
        s.facts = tuple(rewrite(x, f, memo) for x in self.facts)
        s.neq = tuple(rewrite(x, f, memo) for x in self.neq)
        s.known = {rewrite(k, f, memo): v for k, v in self.known.items()}
        s.excl = {rewrite(k, f, memo): v for k, v in self.excl.items()}
        s.bat = {rewrite(k, f, memo): v for k, v in self.bat.items()}
        s.dec = tuple(rewrite(x, f, memo) for x in self.dec)
        return s


class Frame:
    __slots__ = ("fid", "body", "D", "info", "sub")

    def __init__(self, fid, body, info):
        self.fid = fid
        self.body = body
        self.D = body["D"]
        self.info = info
        self.sub = {}           # type parameter -> type, where the caller fixes it


class Loop:
    __slots__ = ("head", "blocks")

    def __init__(self, head, blocks):
        self.head = head
        self.blocks = blocks


def succs(b):
    t = b["t"]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + ([t[4]] if t[4] >= 0 else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    return []


class BodyInfo:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [succs(b) for b in bl]
        # reachable, rpo, dominators
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    blocks = self.loops.setdefault(s, Loop(s, {s})).blocks
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in blocks:
                            continue
                        blocks.add(x)
                        work.extend(pred[x])
        # liveness of locals (borrow = use)
        use = {}
        for b in rpo:
            use[b] = self.usedef(bl[b])
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                u, d = use[b]
                inn = u | (out - d)
                if inn != live[b]:
                    live[b] = inn
                    ch = True
        self.live = live

    @staticmethod
    def usedef(b):
        use, dfn = set(), set()

        def useplace(p):
            if p[0] not in dfn:
                use.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in dfn:
                    use.add(e[1])

        def op(o):
            if o[0] in ("cp", "mv"):
                useplace(o[1])

        def rv(r):
            k = r[0]
            if k == "use":
                op(r[1])
            elif k == "rep":
                op(r[1])
            elif k in ("ref",):
                useplace(r[2])
            elif k == "raw":
                useplace(r[-1])
            elif k == "cast":
                op(r[2])
            elif k == "bin":
                op(r[2]); op(r[3])
            elif k == "un":
                op(r[2])
            elif k == "disc":
                useplace(r[1])
            elif k == "agg":
                for o in r[2]:
                    op(o)

        def defplace(p):
            if not p[1]:
                dfn.add(p[0])
            else:
                useplace(p)
        for s in b["s"]:
            if s[0] == "=":
                rv(s[2])
                defplace(s[1])
            elif s[0] == "sd":
                pl = s[1]
                if isinstance(pl, list):
                    useplace(pl)
            elif s[0] == "intr":
                for o in s[2] if len(s) > 2 and isinstance(s[2], list) else []:
                    if isinstance(o, list) and o and o[0] in ("cp", "mv"):
                        op(o)
        t = b["t"]
        if t[0] == "switch":
            op(t[1])
        elif t[0] == "call":
            op(t[1])
            for a in t[2]:
                op(a)
            defplace(t[3])
        elif t[0] == "assert":
            op(t[1])
        elif t[0] == "ret":
            if 0 not in dfn:
                use.add(0)
        return use, dfn


class Callee:
    """resolved call target, as seen at one call site (or fn item)"""
    __slots__ = ("p", "rp", "raw", "D", "b", "tr")

    def __init__(self, raw, D):
        self.raw = raw
        self.D = D
        self.p = raw["p"]
        self.rp = raw.get("rp") or raw["p"]
        self.b = raw.get("b", -1)
        self.tr = raw.get("tr")

    def targs(self):
        return [self.D.ty(a) for a in self.raw.get("args", [])]

    def rargs(self):
        return [self.D.ty(a) for a in self.raw.get("rargs", [])]

    def key(self):
        return (self.D.name, self.rp, self.b, tuple(t.s for t in self.targs()))

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Callee) and self.key() == o.key()

    def __repr__(self):
        return "fn:" + self.rp


class Interp:
    hvhook = None   # called with a value that a callee may have changed

    MAXSTEPS = 3000000

    def __init__(self, dumps, models=None, rust_models=None, opaque=None, local=None):
        self.subs = []
        self.csub = {}          # atom -> expression it is known to equal throughout
        self.dumps = {d.name: d for d in dumps}
        self.infos = {}
        self.bounds = {}
        self.ids = 0
        self.steps = 0
        self.maxsteps = self.MAXSTEPS
        self.models = models or {}
        self.pmodels = []
        self.rust_models = rust_models or {}
        self.opaque = opaque or (lambda c: None)
        self.stack = []
        self.visited = {}       # body path -> times interpreted
        self.callsites = {}     # opaque calls met
        self.strange = set()    # those whose meaning is not known
        self.obligations = 0    # panic/overflow/bounds obligations met
        self.discharged = 0
        self.tables = {}
        self.split_adts = {}
        self.ety = {}

    # ---------------------------------------------------------------- utils
    def fresh(self):
        self.ids += 1
        return self.ids

    def setb(self, atom, lo, hi):
        self.bounds[atom] = (lo, hi)

    def info(self, body):
        k = (body["D"].name, body["id"])
        i = self.infos.get(k)
        if i is None:
            i = self.infos[k] = BodyInfo(body)
        return i

    def mk(self, term, ty):
        """symbolic value of a type"""
        if ty is None:
            return Sym(term, ty)
        k = ty.k
        if k in ("int", "uint", "char"):
            lo, hi = ty.rng()
            self.bounds.setdefault(term, (lo, hi))
            return V(term)
        if k == "bool":
            return ("at", term)
        if k == "tuple" and not ty.raw["ts"]:
            return UNIT
        if k == "fndef":
            return ("F", Callee(ty.raw["c"], ty.D))
        if k == "adt" and ty.p in ("std::marker::PhantomData",):
            return phantom(ty)
        return Sym(term, ty)

    def lenatom(self, term):
        a = ("len", term)
        self.bounds.setdefault(a, (0, (1 << 63) - 1))
        return V(a)

    def as_seq(self, v):
        v = strip(v)
        if isQ(v):
            return v
        if isinstance(v, Sym):
            t = unref(v.ty)
            et = self.elem_type(t)
            if et is not None:
                self.ety.setdefault(v.term, et)
            if t is not None and t.k == "array":
                n = t.raw.get("len")
                if isinstance(n, int):
                    return Q(("s", v.term, ZERO, K(n)))
                if isinstance(n, str):
                    a = ("cparam", n)
                    self.bounds.setdefault(a, (0, (1 << 63) - 1))
                    return Q(("s", v.term, ZERO, K(int(n)) if n.isdigit() else self.cparam(n)))
            return Q(("s", v.term, ZERO, self.lenatom(v.term)))
        if isA(v) and v[1] == "box":
            return self.as_seq(v[3][0])
        if isinstance(v, tuple) and v[0] == "bytes":
            return Q(*[("u", K(x)) for x in v[1]])
        raise Unknown("not a sequence: %r" % (v,))

    @staticmethod
    def elem_type(t):
        while t is not None and t.k == "adt" and t.p == "std::boxed::Box":
            t = t.args()[0]
        if t is None:
            return None
        if t.k in ("array", "slice"):
            return t.sub()
        if t.k == "adt" and t.p == "std::vec::Vec":
            return t.args()[0]
        return None

    def seq_len(self, v):
        return parts_len(self.as_seq(v)[1])

    # ---------------------------------------------------------------- facts
    def all_atoms(self, lins):
        s = set()
        for l in lins:
            s.update(l.t)
        return s

    def bound_facts(self, lins):
        out = []
        for a in self.all_atoms(lins):
            b = self.bounds.get(a)
            if b is None:
                b = self.infer_bounds(a)
            if b:
                if b[0] is not None:
                    out.append(K(b[0]).sub(V(a)))
                if b[1] is not None:
                    out.append(V(a).add(-b[1]))
        return out

    def infer_bounds(self, a):
        if isinstance(a, tuple) and a:
            if a[0] in ("len", "plen", "acclen", "idx", "flen"):
                return (0, None)
            if a[0] == "byte":
                return (0, 255)
        return None

    def unsat(self, st, extra):
        ext = [x for x in extra]
        for l in ext:
            if l.isc() and l.c > 0:
                return True
        rel = relevant(st.facts, ext)
        allc = rel + ext
        allc = allc + self.bound_facts(allc)
        return not feasible(allc)

    def prove_le(self, st, l):
        """l <= 0 holds in st"""
        if l.isc():
            return l.c <= 0
        return self.unsat(st, [K(1).sub(l)])

    def prove_eq(self, st, l):
        return self.prove_le(st, l) and self.prove_le(st, l.neg())

    def decide(self, st, c):
        t = c[0]
        if t == "b":
            return c[1]
        if t == "not":
            r = self.decide(st, c[1])
            return None if r is None else not r
        if t == "at":
            r = st.bat.get(c[1])
            if r is None and isinstance(c[1], tuple) and len(c[1]) == 3 and c[1][0] == "eq":
                # equal to one constant: not equal to another
                for i in (1, 2):
                    k = c[1][3 - i]
                    if is_constq(k):
                        for (x, v) in st.bat.items():
                            if v and len(x) == 3 and x[0] == "eq" and c[1][i] in x[1:]:
                                o = x[2] if x[1] == c[1][i] else x[1]
                                if o != k and is_constq(o):
                                    return False
            return r
        if t == "cmp":
            self.upgrade(st)
            l = c[2]
            if c[1] == "le":
                if self.prove_le(st, l):
                    return True
                if self.prove_le(st, K(1).sub(l)):
                    return False
                return None
            # eq
            if l.isc():
                return l.c == 0
            d = self.disc_of(l)
            if d is not None:
                term, val = d
                if term in st.known:
                    return st.known[term] == val
                if val in st.excl.get(term, ()):
                    return False
                return None
            if l in st.neq or l.neg() in st.neq:
                return False
            if self.prove_le(st, K(1).sub(l)) or self.prove_le(st, l.add(1)):
                return False
            if self.prove_eq(st, l):
                return True
            return None
        if t in ("and", "or"):
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if t == "and":
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            return None
        raise Unknown("bool %r" % (c,))

    @staticmethod
    def disc_of(l):
        """(term, value) if l is  disc(term) - value"""
        if len(l.t) == 1:
            (a, v), = l.t.items()
            if isinstance(a, tuple) and a and a[0] == "disc" and v in (1, -1):
                return a[1], -l.c * v
        return None

    def upgrade(self, st):
        if not st.neq:
            return
        keep = []
        for l in st.neq:
            if self.prove_le(st, l):
                st.facts += (l.add(1),)
            elif self.prove_le(st, l.neg()):
                st.facts += (l.neg().add(1),)
            else:
                keep.append(l)
        st.neq = tuple(keep)

    def assume(self, st, c, truth):
        """mutates st; False if infeasible.  None cases already decided are cheap."""
        t = c[0]
        if t == "b":
            return c[1] == truth
        if t == "not":
            return self.assume(st, c[1], not truth)
        d = self.decide(st, c)
        if d is not None:
            return d == truth
        if t == "at":
            st.bat[c[1]] = truth
            st.dec += (("at", c[1], truth),)
            return True
        if t == "cmp":
            l = c[2]
            if c[1] == "le":
                f = l if truth else K(1).sub(l)
                st.facts += (tighten(f),)
                st.dec += (("le", tighten(f)),)
                return True
            dd = self.disc_of(l)
            if dd is not None:
                term, val = dd
                if truth:
                    st.known[term] = val
                    st.dec += (("is", term, val),)
                else:
                    st.excl[term] = st.excl.get(term, frozenset()) | {val}
                    st.dec += (("isnt", term, val),)
                    a = V(("disc", term))
                    # a single remaining variant is known
                    rng = self.bounds.get(("disc", term))
                    if rng and rng[1] is not None:
                        rest = [x for x in range(rng[0], rng[1] + 1) if x not in st.excl[term]]
                        if not rest:
                            return False
                        if len(rest) == 1:
                            st.known[term] = rest[0]
                return True
            if truth:
                # equality: substitute a unit-coefficient atom when possible
                st.facts += (l, l.neg())
                st.dec += (("eq", l, True),)
                return True
            st.neq += (l,)
            st.dec += (("eq", l, False),)
            self.upgrade(st)
            return True
        if t == "and":
            if truth:
                return self.assume(st, c[1], True) and self.assume(st, c[2], True)
            raise Unknown("assume not-and")
        if t == "or":
            if not truth:
                return self.assume(st, c[1], False) and self.assume(st, c[2], False)
            raise Unknown("assume or")
        raise Unknown("assume %r" % (c,))

    def fork(self, st, c):
        """-> [(state, truth)]"""
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        if c[0] in ("and", "or"):
            out = []
            for s, a in self.fork(st, c[1]):
                if c[0] == "and" and not a:
                    out.append((s, False))
                elif c[0] == "or" and a:
                    out.append((s, True))
                else:
                    out.extend(self.fork(s, c[2]))
            return out
        if c[0] == "not":
            return [(s, not t) for s, t in self.fork(st, c[1])]
        out = []
        for tr in (True, False):
            s = st.copy()
            if self.assume(s, c, tr):
                out.append((s, tr))
        return out

    # ---------------------------------------------------------------- memory
    def adt_variant_fields(self, ty, var):
        v = ty.raw["v"][var]
        return [(n, ty.D.ty(t)) for n, t in v["f"]]

    def expand(self, v, var=None):
        """materialise a symbolic struct/tuple/variant into an aggregate"""
        ty = unref(v.ty)
        if ty is None:
            raise Unknown("expand untyped %r" % (v,))
        if ty.k == "tuple":
            return ("A", "tuple", 0, tuple(self.mk(("f", v.term, None, i), ty.D.ty(t)) for i, t in enumerate(ty.raw["ts"])))
        if ty.k == "adt":
            if ty.raw["kind"] == "enum" and var is None:
                raise Unknown("expand enum %r" % (v,))
            vi = var if var is not None else 0
            fs = self.adt_variant_fields(ty, vi)
            return ("A", ty.p, vi, tuple(self.mk(("f", v.term, vi if ty.raw["kind"] == "enum" else None, i), t) for i, (n, t) in enumerate(fs)))
        raise Unknown("expand %s" % ty)

    def project(self, v, e, fty=None):
        k = e[0]
        if k == "f":
            _, var, i = e
            if isinstance(v, tuple) and v and v[0] == "R":
                return self.project(v[1], e, fty)
            if isA(v):
                if var is not None and v[2] != var:
                    raise Unknown("downcast of %r to %r" % (v[1:3], var))
                if v[1] == "box":
                    return v
                return v[3][i]
            if isinstance(v, tuple) and v and v[0] == "C":
                return v[2][i]
            if isinstance(v, tuple) and v and v[0] == "P":
                return v          # Box/Unique/NonNull peeling
            if isinstance(v, Sym):
                if v.ty is not None:
                    ty = v.ty
                    if ty.k == "adt" and ty.p in ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull"):
                        if ty.p == "std::boxed::Box":
                            return Sym(v.term, ty)
                        return Sym(v.term, fty)
                    ty = unref(ty)
                    if ty.k == "adt":
                        enum = ty.raw["kind"] == "enum"
                        vv = var if enum else None
                        fs = ty.raw["v"][var or 0]["f"]
                        t = ty.D.ty(fs[i][1])
                        if t.k in ("param", "alias") and fty is not None:
                            t = fty
                        return self.mk(("f", v.term, vv, i), t)
                    if ty.k == "tuple":
                        return self.mk(("f", v.term, None, i), ty.D.ty(ty.raw["ts"][i]))
                return self.mk(("f", v.term, var, i), fty)
            if isQ(v):
                return v   # e.g. String.vec
            raise Unknown("field of %r" % (v,))
        if k == "i":
            raise Unknown("index projection handled elsewhere")
        raise Unknown("project %r" % (e,))

    def at(self, st, seq, idx, ety=None):
        """element of a sequence at a linear index (must be provably located)"""
        pos = idx
        for p in self.as_seq(seq)[1]:
            l = part_len(p)
            if self.prove_le(st, pos.sub(l).add(1)):
                return self.part_at(st, p, pos, ety)
            if not self.prove_le(st, l.sub(pos)):
                raise Unknown("element position %r undetermined in %r" % (idx, seq))
            pos = pos.sub(l)
        raise Unknown("index past end")

    def part_at(self, st, p, pos, ety):
        t = p[0]
        if t == "u":
            return p[1]
        if t == "s":
            return self.mk(("at", p[1], p[2].add(pos)), self.ety.get(p[1]) or ety)
        if t == "rep":
            return p[1]
        if t == "k" and pos.isc():
            return K(p[1].encode()[pos.c])
        if t == "*":
            bl = parts_len(p[3])
            if bl == K(1):
                body = rewrite(p[3], lambda a: pos if a == p[1] else None)
                return self.at(st, ("Q", body), ZERO, ety)
        raise Unknown("element of part %r" % (p,))

    def selects(self, part):
        """elements of the part are taken by their number, whatever iteration made them"""
        return False

    def split(self, st, seq, pos):
        """(left, right) parts at pos; raises NeedFork(cond) when undecided"""
        parts = self.as_seq(seq)[1]
        left = []
        parts = list(parts)
        while parts:
            if pos == ZERO:
                break
            p = parts[0]
            l = part_len(p)
            c = ("cmp", "le", l.sub(pos))    # l <= pos
            d = self.decide(st, c)
            if d is None:
                if p[0] in ("s", "rep") and self.prove_le(st, pos.sub(l)):
                    d = False       # inside or exactly at its end: the rest may be empty
                else:
                    raise NeedFork(c)
            if d:
                left.append(p)
                parts.pop(0)
                pos = pos.sub(l)
                continue
            # 0 <= pos < l : inside
            if self.prove_le(st, pos):
                if self.prove_le(st, pos.neg()):
                    break
            parts.pop(0)
            t = p[0]
            if t == "s":
                left.append(("s", p[1], p[2], p[2].add(pos)))
                parts.insert(0, ("s", p[1], p[2].add(pos), p[3]))
            elif t == "rep":
                left.append(("rep", p[1], pos))
                parts.insert(0, ("rep", p[1], p[2].sub(pos)))
            elif t == "k" and pos.isc():
                b = p[1].encode()
                left.append(("k", b[:pos.c].decode()))
                parts.insert(0, ("k", b[pos.c:].decode()))
            elif t == "*":
                bl = parts_len(p[3])
                q = self.divc(pos, bl.c) if bl.isc() else None
                if q is None and bl.isc() and bl.c > 1 and self.divc(Lin(0, pos.t), bl.c) is not None:
                    # inside one element: whole elements before it, then the element taken apart
                    r = pos.c % bl.c
                    q = self.divc(pos.add(-r), bl.c)
                    if self.prove_le(st, q.neg()) and self.prove_le(st, q.add(1).sub(p[2])):
                        body = rewrite(p[3], lambda a: q if a == p[1] else None)
                        rest = ("*", p[1], p[2].sub(q).add(-1), rewrite(p[3], lambda a: V(p[1]).add(q).add(1) if a == p[1] else None))
                        left.append(("*", p[1], q, p[3]))
                        parts[:0] = list(norm_parts(body)) + [rest]
                        pos = K(r)
                        continue
                    q = None
                if q is None:
                    raise Unknown("split inside star at %r" % (pos,))
                left.append(("*", p[1], q, p[3]))
                parts.insert(0, ("*", p[1], p[2].sub(q), rewrite(p[3], lambda a: V(p[1]).add(q) if a == p[1] else None)))
            elif t == "u":
                c = ("cmp", "eq", pos)
                raise NeedFork(c)
            else:
                raise Unknown("split inside %r" % (p,))
            pos = ZERO
            break
        if pos != ZERO and not parts and not self.prove_le(st, pos):
            raise Unknown("split past the end")
        return norm_parts(left), norm_parts(parts)

    @staticmethod
    def divc(l, k):
        """l/k if exactly divisible as a linear expression"""
        if k == 0:
            return None
        if l.c % k or any(v % k for v in l.t.values()):
            return None
        return Lin(l.c // k, {a: v // k for a, v in l.t.items()})

    def read(self, st, root, path):
        v = self.root_value(st, root)
        for e in path:
            v = self.step(st, v, e)
        return v

    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is None:
            raise Unknown("read of unset %r" % (root,))
        return v

    def step(self, st, v, e):
        if e[0] == "i":
            return self.at(st, v, e[1], e[2] if len(e) > 2 else None)
        if e[0] == "sl":
            sq = self.as_seq(v)
            l, r = self.split(st, sq, e[1])
            m, _ = self.split(st, ("Q", r), e[2].sub(e[1]))
            return ("Q", m)
        if e[0] == "f":
            if isinstance(v, Sym) and v.ty is not None and unref(v.ty).k == "adt" and unref(v.ty).raw["kind"] == "enum":
                pass
            return self.project(v, e[:3], e[3] if len(e) > 3 else None)
        raise Unknown("step %r" % (e,))

    def write(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        old = st.mem.get(root)
        st.mem[root] = self.upd(st, old, path, val)

    def upd(self, st, old, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            if old is None:
                raise Unknown("partial write to unset place")
            if isinstance(old, Sym):
                old = self.expand(old, e[1])
            if isinstance(old, tuple) and old[0] == "C":
                up = list(old[2])
                up[e[2]] = self.upd(st, up[e[2]], path[1:], val)
                return ("C", old[1], tuple(up))
            if isA(old):
                fs = list(old[3])
                fs[e[2]] = self.upd(st, fs[e[2]], path[1:], val)
                return ("A", old[1], old[2], tuple(fs))
            raise Unknown("field write into %r" % (old,))
        if e[0] == "i":
            l, r = self.split(st, old, e[1])
            m, r2 = self.split(st, ("Q", r), K(1))
            if len(path) == 1:
                nv = val
            else:
                nv = self.upd(st, self.at(st, ("Q", m), ZERO), path[1:], val)
            return ("Q", norm_parts(l + (("u", nv),) + r2))
        if e[0] == "sl":
            l, r = self.split(st, old, e[1])
            m, r2 = self.split(st, ("Q", r), e[2].sub(e[1]))
            nv = self.upd(st, ("Q", m), path[1:], val)
            return ("Q", norm_parts(l + self.as_seq(nv)[1] + r2))
        raise Unknown("write path %r" % (e,))

    # place resolution: returns ("m", root, path) or ("v", value)
    def place(self, st, fr, pl):
        cur = ("m", ("l", fr.fid, pl[0]), ())
        var = None
        lty = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.getp(st, cur)
                cur = self.deref(st, v)
                var = None
            elif k == "v":
                var = e[1]
            elif k == "f":
                fty = fr.D.ty(e[2])
                if cur[0] == "m":
                    vv = self.peek(st, cur)
                    if isinstance(vv, tuple) and vv and vv[0] in ("P",):
                        continue      # Box pointer peeling
                    if isinstance(vv, tuple) and vv and vv[0] == "R":
                        cur = ("v", vv)
                        continue
                    if isinstance(vv, Sym) and vv.ty is not None and vv.ty.k == "adt" and vv.ty.p in ("std::boxed::Box", "std::ptr::Unique"):
                        cur = ("v", Sym(vv.term, vv.ty))
                        continue
                    cur = ("m", cur[1], cur[2] + (("f", var, e[1], fty),))
                else:
                    vv = cur[1]
                    if isinstance(vv, Sym) and vv.ty is not None and vv.ty.k == "adt" and vv.ty.p in ("std::boxed::Box", "std::ptr::Unique"):
                        continue
                    cur = ("v", self.project(vv, ("f", var, e[1]), fty))
                var = None
            elif k == "i":
                idx = self.getp(st, ("m", ("l", fr.fid, e[1]), ()))
                ety = None
                cur = self.pindex(st, cur, idx, ety)
            elif k == "c":
                off = e[1]
                if e[3]:
                    n = self.seq_len(self.getp(st, cur))
                    idx = n.add(-off)
                else:
                    idx = K(off)
                cur = self.pindex(st, cur, idx, None)
            elif k == "s":
                v = self.getp(st, cur)
                n = self.seq_len(v)
                lo = K(e[1])
                hi = n.add(-e[2]) if e[3] else K(e[2])
                if cur[0] == "m":
                    cur = ("m", cur[1], cur[2] + (("sl", lo, hi),))
                else:
                    cur = ("v", self.step(st, v, ("sl", lo, hi)))
            else:
                raise Unknown("projection %r" % (e,))
        return cur

    def peek(self, st, cur):
        try:
            return self.getp(st, cur)
        except Unknown:
            return None

    def pindex(self, st, cur, idx, ety):
        base = self.getp(st, cur)
        if ety is None:
            b = strip(base)
            if isinstance(b, Sym):
                t = unref(b.ty)
                if t is not None and t.k in ("slice", "array"):
                    ety = t.sub()
        if cur[0] == "m":
            return ("m", cur[1], cur[2] + (("i", idx, ety),))
        return ("v", self.at(st, base, idx, ety))

    def getp(self, st, cur):
        if cur[0] == "v":
            return cur[1]
        return self.read(st, cur[1], cur[2])

    def deref(self, st, v):
        if isinstance(v, tuple) and v:
            if v[0] == "P":
                return ("m", v[1], v[2])
            if v[0] == "R":
                return ("v", v[1])
            if isA(v) and v[1] == "box":
                return ("v", v[3][0])
            if v[0] in ("Q", "A", "b", "at", "F", "C"):
                return ("v", v)     # transparent reference
        if isinstance(v, Lin):
            return ("v", v)
        if isinstance(v, Sym):
            if v.ty is not None and v.ty.k in ("ref", "ptr"):
                t = v.ty.sub()
                if v.ty.raw.get("m"):
                    root = ("D", v.term)
                    if root not in st.mem:
                        st.mem[root] = self.mk(("*", v.term) if t.k == "ref" else v.term, t)
                    return ("m", root, ())
                return ("v", self.mk(v.term, t))
            if v.ty is not None and v.ty.k == "adt" and v.ty.p == "std::boxed::Box":
                return ("v", self.mk(v.term, v.ty.args()[0]))
            return ("v", v)
        raise Unknown("deref %r" % (v,))

    def snap(self, st, v, d=0):
        """value with every pointer replaced by what it points to"""
        if d > 40:
            raise Unknown("deep value")
        if isinstance(v, Lin):
            return v
        if isinstance(v, Sym):
            if v.ty is not None and v.ty.k == "ref":
                if v.ty.raw.get("m"):
                    root = ("D", v.term)
                    if root in st.mem:
                        return self.snap(st, st.mem[root], d + 1)
                    t = v.ty.sub()
                    return self.snap(st, self.mk(("*", v.term) if t.k == "ref" else v.term, t), d + 1)
                return self.snap(st, self.mk(v.term, v.ty.sub()), d + 1)
            return v
        if isinstance(v, tuple) and v:
            t = v[0]
            if t == "R":
                return self.snap(st, v[1], d + 1)
            if t == "P":
                return self.snap(st, self.read(st, v[1], v[2]), d + 1)
            if t == "A":
                return ("A", v[1], v[2], tuple(self.snap(st, x, d + 1) for x in v[3]))
            if t == "C":
                return ("C", v[1], tuple(self.snap(st, x, d + 1) for x in v[2]))
            if t == "Q":
                return ("Q", norm_parts(tuple(self.snap_part(st, p, d + 1) for p in v[1])))
        return v

    def snap_part(self, st, p, d):
        if p[0] == "u":
            return ("u", self.snap(st, p[1], d))
        if p[0] == "*":
            try:
                return ("*", p[1], p[2], tuple(self.snap_part(st, x, d) for x in p[3]))
            except Unknown:
                st = st.copy()
                self.assume(st, ("cmp", "le", V(p[1]).sub(p[2]).add(1)), True)
                return ("*", p[1], p[2], tuple(self.snap_part(st, x, d) for x in p[3]))
        if p[0] == "alt":
            return ("alt", tuple((c, tuple(self.snap_part(st, x, d) for x in ps)) for c, ps in p[1]))
        return p

    # ---------------------------------------------------------------- operands
    def const(self, fr, c):
        ty = fr.D.ty(c["t"]) if "t" in c else None
        if "int" in c:
            n = int(c["int"])
            if ty is not None:
                if ty.k == "bool":
                    return boolv(n)
                if ty.k == "int" and n >= (1 << (ty.bits() - 1)):
                    n -= 1 << ty.bits()
                if ty.k == "float":
                    return Sym(("frombits", K(n)), ty)
                if ty.k == "ptr":
                    return Sym(("ptr", n), ty)
            return K(n)
        if "str" in c:
            return ("R", Q(("k", c["str"])))
        if "bytes" in c:
            return ("R", Q(*[("u", K(x)) for x in c["bytes"]]))
        if "fn" in c:
            return ("F", Callee(c["fn"], fr.D))
        if "zst" in c:
            if ty is not None:
                if ty.k == "closure":
                    return ("C", (fr.D.name, ty.raw["body"]), ())
                if ty.k == "fndef":
                    return ("F", Callee(ty.raw["c"], ty.D))
                if ty.k == "adt":
                    if ty.p == "std::marker::PhantomData":
                        return phantom(ty, fr.sub)
                    if ty.raw["v"] and not ty.raw["v"][0]["f"]:
                        return A(ty.p, 0)
                    if ty.p in SEQ_ADTS:
                        return EMPTYQ
                    if ty.raw["v"]:
                        return A(ty.p, 0, *[UNIT for _ in ty.raw["v"][0]["f"]])
                if ty.k == "array":
                    return EMPTYQ
            return UNIT
        if "promoted" in c:
            return self.eval_const_body(fr.D, c["promoted"])
        if "const" in c:
            return self.eval_const_body(fr.D, c["const"])
        if "agg" in c:
            vals = [self.const(fr, x) for x in c["agg"]]
            if ty is not None and ty.k in ("ref",):
                inner = unref(ty)
            else:
                inner = ty
            if inner is not None and inner.k in ("array", "slice"):
                return Q(*[("u", v) for v in vals])
            if inner is not None and inner.k == "tuple":
                return ("A", "tuple", 0, tuple(vals))
            if inner is not None and inner.k == "adt":
                if inner.p in SEQ_ADTS:
                    raise Unknown("const vec")
                return ("A", inner.p, c.get("var", 0) or 0, tuple(vals))
        if "cparam" in c:
            return self.csub.get(("cparam", c["cparam"])) or self.mk(("cparam", c["cparam"]), ty)
        if "float" in c:
            return Sym(("fconst", str(c["float"])), ty)
        if c.get("sb", -1) >= 0:
            return ("R", self.eval_const_body(fr.D, c["sb"]))
        if "opaque" in c or "static" in c:
            return self.mk(("const", str(c.get("opaque") or c.get("static"))), ty)
        raise Unknown("const %r" % (c,))

    def eval_const_body(self, D, bid):
        key = (D.name, bid)
        if key in self.tables:
            return self.tables[key]
        body = D.bodies.get(bid)
        if body is None:
            raise Unknown("const body %r" % (key,))
        st = St()
        outs = self.exec_fn(st, body, [])
        rets = [o for o in outs if o[1] == "ret"]
        if len(rets) != 1:
            raise Unknown("const body outcomes")
        v = self.snap(rets[0][0], rets[0][2])
        if D.ty(body["locals"][0]).k == "ref":
            v = ("R", v)
        self.tables[key] = v
        return v

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(fr, o[1])
        if o[0] == "rt":
            return FALSE        # whether the optional runtime checks of the library are compiled in
        return self.getp(st, self.place(st, fr, o[1]))

    def opty(self, fr, o):
        if o[0] == "k":
            return fr.D.ty(o[1]["t"]) if "t" in o[1] else None
        if o[0] == "rt":
            return None
        pl = o[1]
        ty = fr.D.ty(fr.body["locals"][pl[0]])
        for e in pl[1]:
            if ty is None:
                return None
            if e[0] == "*":
                if ty.k in ("ref", "ptr"):
                    ty = ty.sub()
                else:
                    return None
            elif e[0] == "f":
                ty = fr.D.ty(e[2])
            elif e[0] in ("i", "c"):
                ty = ty.sub() if ty.k in ("array", "slice") else None
            elif e[0] == "s":
                pass
        return ty

    # ---------------------------------------------------------------- rvalues
    def wrapv(self, l, ty):
        """machine integer of type ty with mathematical value l, wrapping"""
        if not ty.isint() and ty.k != "char":
            return l
        lo, hi = ty.rng()
        if l.isc():
            m = hi - lo + 1
            return K((l.c - lo) % m + lo)
        return None

    def cast_int(self, st, l, fty, tty):
        if tty.k == "float":
            return Sym(("tofloat", l, tty.s), tty)
        if not (tty.isint() or tty.k == "char"):
            raise Unknown("int cast to %s" % tty)
        lo, hi = tty.rng()
        if l.isc():
            return self.wrapv(l, tty)
        if self.prove_le(st, K(lo).sub(l)) and self.prove_le(st, l.add(-hi)):
            return l
        # byte extraction: (x >> 8j) as u8
        a = l.atom()
        if a and a[0] == "be" and tty.isint() and a[1] * 8 == tty.bits():
            return self.mkbe(a[1], tty.k == "int", a[3], a[4])
        if tty.k == "uint" and tty.bits() == 8:
            if a and a[0] == "shr" and a[2] % 8 == 0:
                return V(("byte", a[3], a[3] // 8 - 1 - a[2] // 8, a[1]))
            if fty.isint():
                return self.byte(fty.bits(), fty.bits() // 8 - 1, l)
        if a and a[0] == "wrap" and a[1][1] >= tty.bits():
            return self.cast_int(st, a[2], fty, tty)
        t = ("wrap", (tty.k, tty.bits() if tty.isint() else 32), l)
        self.bounds.setdefault(t, (lo, hi))
        return V(t)

    def byte(self, bits, k, l):
        """byte k (0 = most significant) of the two's complement of l in `bits` bits"""
        if l.isc():
            return K(((l.c % (1 << bits)) >> (bits - 8 - 8 * k)) & 255)
        a = l.atom()
        if a and a[0] == "wrap" and a[1][1] >= bits:
            return self.byte(bits, k, a[2])
        if a and a[0] == "be" and a[1] * 8 == bits:
            return self.mkbyte_at(a, k)
        if a and a[0] == "compose" and a[1] * 8 == bits:
            return a[3][k]
        t = ("byte", bits, k, l)
        self.bounds.setdefault(t, (0, 255))
        return V(t)

    def cparam(self, n):
        a = ("cparam", n)
        self.bounds.setdefault(a, (0, (1 << 63) - 1))
        return self.csub.get(a) or V(a)

    def mkbe(self, n, signed, term, lo):
        t = ("be", n, signed, term, lo)
        if t in self.csub:
            return self.csub[t]
        b = 8 * n
        self.bounds.setdefault(t, (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1))
        return V(t)

    def mkbyte_at(self, a, k):
        t = ("at", a[3], a[4].add(k))
        self.bounds.setdefault(t, (0, 255))
        return V(t)

    def binop(self, st, fr, op, a, b, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = strip(a), strip(b)
            if isinstance(a, Lin) and isinstance(b, Lin):
                if op == "Eq":
                    return ("cmp", "eq", a.sub(b)) if not a.sub(b).isc() else boolv(a.sub(b).c == 0)
                if op == "Ne":
                    return self.neg(self.binop(st, fr, "Eq", a, b, ty))
                d = {"Lt": a.sub(b).add(1), "Le": a.sub(b), "Gt": b.sub(a).add(1), "Ge": b.sub(a)}[op]
                return boolv(d.c <= 0) if d.isc() else ("cmp", "le", d)
            if op in ("Eq", "Ne") and self.isbool(a) and self.isbool(b):
                r = self.booleq(a, b)
                return r if op == "Eq" else self.neg(r)
            t = ("fcmp", op, self.snap(st, a), self.snap(st, b))
            return ("at", t)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if isinstance(a, Lin) and isinstance(b, Lin):
            r = None
            if base == "Add":
                r = a.add(b)
            elif base == "Sub":
                r = a.sub(b)
            elif base == "Mul":
                if a.isc():
                    r = b.mul(a.c)
                elif b.isc():
                    r = a.mul(b.c)
                else:
                    x, y = sorted((a, b), key=repr)
                    r = V(("mul", x, y))
                    if self.prove_le(st, a.neg()) and self.prove_le(st, b.neg()):
                        self.bounds.setdefault(("mul", x, y), (0, None))
            if r is not None:
                lo, hi = ty.rng()
                if op.endswith("WithOverflow"):
                    under = ("cmp", "le", r.add(1 - lo))
                    over = ("cmp", "le", K(hi + 1).sub(r))
                    under = boolv(under[2].c <= 0) if under[2].isc() else under
                    over = boolv(over[2].c <= 0) if over[2].isc() else over
                    ovf = self.bor(st, under, over)
                    return ("A", "tuple", 0, (r, ovf))
                if op.endswith("Unchecked"):
                    return r
                if self.prove_le(st, K(lo).sub(r)) and self.prove_le(st, r.add(-hi)):
                    return r
                w = self.wrapv(r, ty)
                if w is None:
                    t = ("wrap", (ty.k, ty.bits()), r)
                    self.bounds.setdefault(t, (lo, hi))
                    w = V(t)
                return w
            if base in ("Div", "Rem") and b.isc() and b.c > 0:
                return self.divrem(st, base, a, b.c)
            if base in ("Shr", "Shl") and b.isc():
                if a.isc():
                    return self.wrapv(K(a.c >> b.c if base == "Shr" else a.c << b.c), ty)
                if base == "Shr":
                    aa = a.atom()
                    bits = ty.bits()
                    if aa and aa[0] == "shr":
                        return V(("shr", aa[1], aa[2] + b.c, aa[3]))
                    t = ("shr", a, b.c, bits)
                    lo, hi = ty.rng()
                    self.bounds.setdefault(t, (lo >> b.c, hi >> b.c))
                    return V(t)
                r = a.mul(1 << b.c)
                lo, hi = ty.rng()
                if self.prove_le(st, K(lo).sub(r)) and self.prove_le(st, r.add(-hi)):
                    return r
                t = ("wrap", (ty.k, ty.bits()), r)
                self.bounds.setdefault(t, (lo, hi))
                return V(t)
            if base in ("BitAnd", "BitOr", "BitXor"):
                if a.isc() and b.isc():
                    x, y = a.c, b.c
                    return K(x & y if base == "BitAnd" else x | y if base == "BitOr" else x ^ y)
                if base == "BitAnd" and (b.isc() or a.isc()):
                    m, x = (b.c, a) if b.isc() else (a.c, b)
                    if m & (m + 1) == 0 and m > 0:
                        if m == 255:
                            xa = x.atom()
                            if xa and xa[0] == "shr" and xa[2] % 8 == 0:
                                return self.byte(xa[3], xa[3] // 8 - 1 - xa[2] // 8, xa[1])
                            return self.byte(ty.bits(), ty.bits() // 8 - 1, x)
                        if self.prove_le(st, x.neg()):
                            return self.divrem(st, "Rem", x, m + 1)
                if base == "BitAnd" and b.isc() and b.c in (~3, (1 << ty.bits()) - 4) and self.prove_le(st, a.neg()):
                    r = self.divrem(st, "Rem", a, 4)
                    return a.sub(r)
                t = (base, a, b)
                lo, hi = ty.rng()
                self.bounds.setdefault(t, (lo, hi))
                return V(t)
            if base in ("Div", "Rem") and b.isc() and b.c == 0:
                raise Unknown("division by zero constant")
            t = (base, a, b)
            if ty.isint():
                lo, hi = ty.rng()
                self.bounds.setdefault(t, (lo, hi))
            return V(t)
        if self.isbool(a) and self.isbool(b):
            if base == "BitAnd":
                return self.band(st, a, b)
            if base == "BitOr":
                return self.bor(st, a, b)
            if base == "BitXor":
                return self.neg(self.booleq(a, b))
        if op == "Cmp":
            return Sym(("cmp3", self.snap(st, a), self.snap(st, b)), None)
        if base == "Offset":
            raise Unknown("pointer arithmetic")
        return self.mk(("bin", op, self.snap(st, a), self.snap(st, b)), ty)

    def divrem(self, st, base, a, k):
        if a.isc():
            if a.c >= 0:
                return K(a.c // k if base == "Div" else a.c % k)
            q = -((-a.c) // k)
            return K(q if base == "Div" else a.c - q * k)
        # all coefficients divisible except the constant, and non-negative
        if all(v % k == 0 for v in a.t.values()) and self.prove_le(st, a.neg()):
            r = a.c % k
            q = Lin((a.c - r) // k, {x: v // k for x, v in a.t.items()})
            return q if base == "Div" else K(r)
        if self.prove_le(st, a.neg()) and self.prove_le(st, a.add(1 - k)):
            return ZERO if base == "Div" else a
        if k > 16 and self.prove_le(st, a.neg()):
            # too many residues to tell apart: quotient and remainder by their defining inequalities
            q, r = ("quo", a, k), ("rem", a, k)
            self.bounds.setdefault(q, (0, None))
            self.bounds.setdefault(r, (0, k - 1))
            f = a.sub(V(q).mul(k)).sub(V(r))
            for c in (("cmp", "le", f), ("cmp", "le", f.neg())):
                if not c[2].isc():
                    self.assume(st, c, True)
            return V(q) if base == "Div" else V(r)
        raise NeedResidue(a, k, base)

    @staticmethod
    def isbool(v):
        return isinstance(v, tuple) and v and v[0] in ("b", "at", "cmp", "not", "and", "or")

    def neg(self, v):
        if v[0] == "b":
            return boolv(not v[1])
        if v[0] == "not":
            return v[1]
        return ("not", v)

    def booleq(self, a, b):
        if a[0] == "b":
            return b if a[1] else self.neg(b)
        if b[0] == "b":
            return a if b[1] else self.neg(a)
        if a == b:
            return TRUE
        x, y = sorted((a, b), key=repr)
        return ("at", ("beq", x, y))

    def band(self, st, a, b):
        if a[0] == "b":
            return b if a[1] else FALSE
        if b[0] == "b":
            return a if b[1] else FALSE
        return ("and", a, b)

    def bor(self, st, a, b):
        if a[0] == "b":
            return TRUE if a[1] else b
        if b[0] == "b":
            return TRUE if b[1] else a
        return ("or", a, b)

    def discriminant(self, st, v, ty):
        v = strip(v)
        if isA(v):
            t = unref(ty) if ty is not None else None
            if t is not None and t.k == "adt" and t.raw["kind"] == "enum":
                return K(int(t.raw["v"][v[2]]["d"]))
            return K(v[2])
        if isinstance(v, Sym):
            t = unref(v.ty) or unref(ty)
            if v.ty is None and ty is not None:
                t = unref(ty)
            if v.term in st.known:
                return K(st.known[v.term])
            a = ("disc", v.term)
            if t is not None and t.k == "adt":
                ds = [int(x["d"]) for x in t.raw["v"]]
                if ds:
                    self.bounds.setdefault(a, (min(ds), max(ds)))
                if len(ds) == 1:
                    return K(ds[0])
            return V(a)
        raise Unknown("discriminant of %r" % (v,))

    def rvalue(self, st, fr, r, dty=None):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            pl = self.place(st, fr, r[2])
            if r[1]:
                if pl[0] == "m":
                    return ("P", pl[1], pl[2])
                # &mut of a transparent value: give it a cell
                root = ("h", self.fresh())
                st.mem[root] = pl[1]
                return ("P", root, ())
            v = self.getp(st, pl)
            if isinstance(v, tuple) and v and v[0] == "R":
                return ("R", v)
            return ("R", v)
        if k == "raw":
            pl = self.place(st, fr, r[-1])
            if pl[0] == "m":
                return ("P", pl[1], pl[2])
            return ("R", pl[1])
        if k == "rep":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if isinstance(n, int):
                n = K(n)
            elif isinstance(n, dict):
                n = self.const(fr, n)
            elif isinstance(n, list):
                n = self.const(fr, n[1]) if n[0] == "k" else self.operand(st, fr, n)
            elif isinstance(n, str):
                n = K(int(n)) if n.isdigit() else self.cparam(n)
            return Q(("rep", v, n))
        if k == "cast":
            kind, o, fty, tty = r[1], r[2], fr.D.ty(r[3]), fr.D.ty(r[4])
            v = self.operand(st, fr, o)
            if kind.startswith("IntToInt") or (isinstance(v, Lin) and tty.k in ("int", "uint", "char", "float")):
                if isinstance(v, Lin):
                    return self.cast_int(st, v, fty, tty)
                if self.isbool(v):
                    if v[0] == "b":
                        return K(1 if v[1] else 0)
                    raise NeedFork(v)
            if kind.startswith("FloatToInt"):
                return self.mk(("ftoi", self.snap(st, v), tty.s), tty)
            if kind.startswith("FloatToFloat"):
                return Sym(("ftof", self.snap(st, v), tty.s), tty)
            if kind.startswith("IntToFloat"):
                return Sym(("tofloat", v, tty.s), tty)
            return v      # pointer coercions, unsizing, transmute of pointers
        if k == "bin":
            ty = fr.D.ty(r[4])
            # operand type is needed for shifts/overflow; the dump gives the lhs type
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), ty)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.isbool(v):
                    return self.neg(v)
                if isinstance(v, Lin) and v.isc():
                    ty = fr.D.ty(r[3])
                    return self.wrapv(K(~v.c), ty)
                return self.mk(("bitnot", v), fr.D.ty(r[3]))
            if r[1] == "Neg":
                if isinstance(v, Lin):
                    return v.neg()
                return self.mk(("fneg", v), fr.D.ty(r[3]))
            if r[1] == "PtrMetadata":
                v = strip(v)
                if isinstance(v, tuple) and v[0] == "P":
                    v = self.read(st, v[1], v[2])
                return self.seq_len(v)
            raise Unknown("unop %s" % r[1])
        if k == "disc":
            pl = self.place(st, fr, r[1])
            v = self.getp(st, pl)
            return self.discriminant(st, v, fr.D.ty(r[2]) if len(r) > 2 else None)
        if k == "agg":
            h = r[1]
            vals = [self.operand(st, fr, o) for o in r[2]]
            if h[0] == "array":
                return Q(*[("u", v) for v in vals])
            if h[0] == "tuple":
                return ("A", "tuple", 0, tuple(vals))
            if h[0] == "closure":
                ty = fr.D.ty(h[1])
                return ("C", (fr.D.name, ty.raw["body"]), tuple(vals))
            if h[0] == "adt":
                ty = fr.D.ty(h[1])
                if ty.p == "std::marker::PhantomData":
                    return phantom(ty, fr.sub)
                return ("A", ty.p, h[2], tuple(vals))
            if h[0] == "rawptr":
                return vals[0]
            raise Unknown("aggregate %r" % (h,))
        raise Unknown("rvalue %r" % (k,))

    # ---------------------------------------------------------------- execution
    def bind(self, formal, actual, csub, sub, d=0):
        """type parameters of the callee from the types of the arguments"""
        if formal is None or actual is None or d > 6:
            return
        if actual.k == "param":
            actual = csub.get(actual.s) or actual
        if formal.k == "param":
            if actual.k != "param":
                sub[formal.s] = actual
            else:
                sub.pop(formal.s, None)
            return
        if formal.k != actual.k:
            return
        if formal.k in ("ref", "ptr", "slice", "array"):
            self.bind(formal.sub(), actual.sub(), csub, sub, d + 1)
        elif formal.k == "adt" and formal.p == actual.p:
            for f, a in zip(formal.args(), actual.args()):
                self.bind(f, a, csub, sub, d + 1)

    def own_args(self, c, body):
        """type arguments of a serde trait method, by the names of the implementation"""
        if c.tr is None or not c.tr.startswith("serde"):
            return ()
        ta = c.targs()[1:]
        names = [body["D"].ty(a) for a in body.get("args", ())]
        if not ta or len(names) < len(ta):
            return ()
        return [(n.s, t) for n, t in zip(names[len(names) - len(ta):], ta) if n.k == "param"]

    def exec_fn(self, st, body, args, atys=None, caller=None, own=()):
        """-> list of (state, 'ret'|'panic', value|reason)"""
        path = (body["D"].name, body["path"], body["id"])
        if len(self.stack) > 60:
            raise Unknown("call depth")
        self.visited[(body["D"].name, body["path"])] = self.visited.get((body["D"].name, body["path"]), 0) + 1
        fid = self.fresh()
        fr = Frame(fid, body, self.info(body))
        if self.subs:
            fr.sub = self.subs[-1]
        if atys and caller is not None:
            fr.sub = dict(caller.sub)
            for i in range(min(len(atys), body["argc"])):
                if atys[i] is not None:
                    self.bind(fr.D.ty(body["locals"][i + 1]), atys[i], caller.sub, fr.sub)
            for n, t in own:
                if t.k == "param":
                    t = caller.sub.get(t.s)
                if t is not None:
                    fr.sub[n] = t
        if body.get("spread", -1) >= 0 and len(args) != body["argc"]:
            # closure call with tupled args
            pass
        for i, a in enumerate(args):
            st.mem[("l", fid, i + 1)] = a
        self.stack.append((body["D"].name, body["path"]))
        self.subs.append(fr.sub)
        try:
            outs = self.run(fr, st, 0, None, True)
        finally:
            self.stack.pop()
            self.subs.pop()
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                v = s.mem.get(("l", fid, 0), UNIT)
                for k in [k for k in s.mem if k[0] == "l" and k[1] == fid]:
                    del s.mem[k]
                res.append((s, "ret", v))
            elif o[0] == "panic":
                res.append((o[1], "panic", o[2]))
            else:
                raise Unknown("stray outcome %r" % (o[0],))
        if not res and not self.stack:
            raise Unknown("%s: no outcome" % body["path"])
        return res

    def where(self, fr, sp):
        return "%s:%s" % (sp[0], sp[1]) if sp else fr.body["path"]

    def run(self, fr, st, bb, loop, first):
        outs = []
        work = [(st, bb, first)]
        while work:
            st, bb, first = work.pop()
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget("step budget exhausted in %s" % fr.body["path"])
            if loop is not None and not first:
                if bb == loop.head:
                    outs.append(("back", st))
                    continue
                if bb not in loop.blocks:
                    outs.append(("exit", st, bb))
                    continue
            if bb in fr.info.loops and not (loop is not None and bb == loop.head):
                for o in self.do_loop(fr, fr.info.loops[bb], st):
                    if o[0] == "exit":
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            try:
                self.block(fr, st, bb, work, outs)
            except Fork2 as f:
                for s in f.states:
                    work.append((s, bb, first))
        return outs

    def block(self, fr, st0, bb, work, outs):
        """execute one block; successors pushed on work"""
        b = fr.body["blocks"][bb]
        if time.monotonic() > DEADLINE:
            raise Unknown("the analysis does not come to an end within its time limit")
        # the block may need to be restarted from its entry state after a fork
        st = st0.copy()
        try:
            for s in b["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, fr, s[2])
                    pl = s[1]
                    if not pl[1]:
                        st.mem[("l", fr.fid, pl[0])] = v
                    else:
                        p = self.place(st, fr, pl)
                        if p[0] != "m":
                            raise Unknown("write through shared reference")
                        self.write(st, p[1], p[2], v)
                elif s[0] == "sd":
                    p = self.place(st, fr, s[1])
                    ty = self.opty(fr, ("cp", s[1]))
                    if p[0] == "m":
                        self.write(st, p[1], p[2], ("A", ty.p if ty else "?", s[2], ()))
            t = b["t"]
            k = t[0]
            if k == "goto":
                work.append((st, t[1], False))
            elif k == "ret":
                outs.append(("ret", st))
            elif k == "drop":
                work.append((st, t[2], False))
            elif k == "unreachable":
                pass
            elif k == "unwind":
                pass
            elif k == "switch":
                self.switch(fr, st, t, work)
            elif k == "assert":
                c = self.operand(st, fr, t[1])
                want = t[2]
                self.obligations += 1
                fs = self.fork(st, c)
                ok = True
                for s, tr in fs:
                    if tr == want:
                        work.append((s, t[4], False))
                    else:
                        ok = False
                        outs.append(("panic", s, "%s at %s" % (t[3], self.where(fr, t[5] if len(t) > 5 else None))))
                if ok:
                    self.discharged += 1
            elif k == "call":
                f = self.operand(st, fr, t[1])
                args = [self.operand(st, fr, a) for a in t[2]]
                dty = self.opty(fr, ("cp", t[3]))
                atys = [self.opty(fr, a) for a in t[2]]
                for s, kind, v in self.call(st, fr, f, args, dty, atys, t[5] if len(t) > 5 else None):
                    if kind == "panic":
                        outs.append(("panic", s, v))
                        continue
                    if t[4] < 0:
                        outs.append(("panic", s, "diverging call %r at %s" % (f, self.where(fr, t[5] if len(t) > 5 else None))))
                        continue
                    pl = t[3]
                    if not pl[1]:
                        s.mem[("l", fr.fid, pl[0])] = v
                    else:
                        p = self.place(s, fr, pl)
                        self.write(s, p[1], p[2], v)
                    work.append((s, t[4], False))
            else:
                raise Unknown("terminator %s" % k)
        except NeedFork as nf:
            states = []
            base = st0
            for tr in (True, False):
                s = base.copy()
                if self.assume(s, nf.cond, tr):
                    states.append(s)
            raise Fork2(states)
        except NeedResidue as nr:
            raise Fork2(self.residue(st0, nr))

    def residue(self, st, nr):
        """split on the residue of a linear expression modulo a constant"""
        a, k = nr.lin, nr.k
        # negative values: separate them first
        if not self.prove_le(st, a.neg()):
            out = []
            for s, tr in self.fork(st, ("cmp", "le", a.neg())):
                if tr:
                    out.append(s)
                else:
                    raise Unknown("division of a possibly negative value %r" % (a,))
            if len(out) != 1 or out[0] is st:
                pass
            else:
                return out
        # pick an atom with coefficient coprime to k
        cand = [x for x, v in a.t.items() if v % k and abs(v) == 1]
        if not cand:
            raise Unknown("residue of %r mod %d" % (a, k))
        at = sorted(cand, key=repr)[0]
        res = []
        for r in range(k):
            q = ("q", at, k, r)
            s = st.rewrite(lambda x: V(q).mul(k).add(r) if x == at else None)
            b = self.bounds.get(at) or self.infer_bounds(at) or (None, None)
            lo = None if b[0] is None else -((r - b[0]) // k)
            hi = None if b[1] is None else (b[1] - r) // k
            self.bounds.setdefault(q, (lo, hi))
            s.dec += (("mod", at, k, r),)
            # keep the meaning of the old name for later reads
            s.mem[("alias", at)] = V(q).mul(k).add(r)
            if self.unsat(s, [ZERO] + list(s.facts)):
                continue
            res.append(s)
        return res

    def switch(self, fr, st, t, work):
        v = self.operand(st, fr, t[1])
        targets, other = t[3], t[4]
        v = strip(v)
        if self.isbool(v):
            for s, tr in self.fork(st, v):
                n = 1 if tr else 0
                for val, b in targets:
                    if int(val) == n:
                        work.append((s, b, False))
                        break
                else:
                    if other >= 0:
                        work.append((s, other, False))
            return
        if not isinstance(v, Lin):
            raise Unknown("switch on %r" % (v,))
        ty = fr.D.ty(t[2])
        cur = st
        for val, b in targets:
            n = int(val)
            if ty.k == "int" and n >= (1 << (ty.bits() - 1)):
                n -= 1 << ty.bits()
            c = ("cmp", "eq", v.add(-n))
            if c[2].isc():
                if c[2].c == 0:
                    work.append((cur, b, False))
                    return
                continue
            d = self.decide(cur, c)
            if d is True:
                work.append((cur, b, False))
                return
            if d is False:
                continue
            s = cur.copy()
            if self.assume(s, c, True):
                work.append((s, b, False))
            nxt = cur.copy()
            if not self.assume(nxt, c, False):
                return
            cur = nxt
        if other >= 0:
            d = self.disc_of(v) if isinstance(v, Lin) else None
            if d is not None and d[0] in cur.excl and d[0] not in cur.known:
                rng = self.bounds.get(("disc", d[0]))
                if rng and all(x in cur.excl[d[0]] for x in range(rng[0], rng[1] + 1)):
                    return
            work.append((cur, other, False))

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, f, args, dty, atys, sp):
        f0 = f
        f = strip(f)
        if isinstance(f, tuple) and f[0] == "F":
            return self.call_fn(st, fr, f[1], args, dty, atys, sp)
        if isinstance(f, tuple) and f[0] == "C":
            return self.call_closure(st, f, args)
        raise Unknown("call of %r" % (f,))

    def call_value(self, st, f, args, dty=None, pf=None):
        """call a closure / fn item value with an argument list"""
        f0 = f
        f = strip(f)
        if isinstance(f, tuple) and f[0] == "P":
            g = strip(self.read(st, f[1], f[2]))
            return self.call_value(st, g, args, dty, f)
        if isinstance(f, tuple) and f[0] == "F":
            return self.call_fn(st, None, f[1], args, dty, [None] * len(args), None)
        if isinstance(f, tuple) and f[0] == "C":
            return self.call_closure(st, f, args, pf)
        if isinstance(f, Sym):
            return self.opaque_call(st, ("callval", f.term), args, dty, None)
        raise Unknown("call of value %r" % (f,))

    def call_closure(self, st, c, args, pf=None):
        name, bid = c[1]
        body = self.dumps[name].bodies.get(bid)
        if body is None:
            raise Unknown("closure body missing")
        # first parameter: closure by ref or by value
        pty = body["D"].ty(body["locals"][1]) if body["argc"] >= 1 else None
        tmp = None
        if pty is not None and pty.k == "ref":
            if pf is not None:
                self_arg = pf
            else:
                tmp = ("h", self.fresh())
                st.mem[tmp] = c
                self_arg = ("P", tmp, ())
        else:
            self_arg = c
        return self.exec_fn(st, body, [self_arg] + list(args))

    def call_fn(self, st, fr, c, args, dty, atys, sp):
        # constructors used as functions
        ct = c.raw.get("ctor")
        if ct:
            ty = c.D.ty(ct[0])
            return [(st, "ret", ("A", ty.p, ct[1], tuple(args)))]
        m = self.find_model(c)
        if m is not None:
            r = m(self, st, fr, c, args, dty, atys, sp)
            if r is not NotImplemented:
                return r
        o = self.opaque(c)
        if o is not None:
            return self.opaque_call(st, c, args, dty, o, atys)
        if c.b >= 0:
            body = c.D.bodies[c.b]
            if (body["D"].name, body["path"]) in self.stack and self.is_recursive(body):
                self.strange.add(c.rp)
                return self.opaque_call(st, c, args, dty, "rec", atys)
            if body["argc"] != len(args):
                if body["argc"] == len(args) + 0:
                    pass
                # rust-call ABI closures: spread tuple
                if len(args) == 2 and isA(strip(args[1]), "tuple"):
                    args = [args[0]] + list(strip(args[1])[3])
            own = c.D.name == "xwitness.lib" and body["path"].startswith("models::")
            return self.exec_fn(st, body, args, None if own else atys, None if own else fr)
        d = self.dispatch(st, c, args)
        if d is not None:
            return self.exec_fn(st, d, args, atys, fr, self.own_args(c, d))
        if c.tr is None or c.rp != c.p:
            self.strange.add(c.rp)
        return self.opaque_call(st, c, args, dty, None, atys)

    def strange_in(self, st, *vals):
        """the functions without a known meaning that a path depends on"""
        if not self.strange:
            return []
        t = repr((st.mem, st.dec, st.known, vals))
        return sorted(n for n in self.strange if repr(n) in t)

    def dispatch(self, st, c, args):
        """trait method called on a value whose concrete type is known: the
        implementing function, or the provided body when it is not overridden"""
        if c.tr is None or not args:
            return None
        v = strip(args[0])
        n = 0
        while isinstance(v, tuple) and v and v[0] == "P" and n < 5:
            v = strip(self.read(st, v[1], v[2]))
            n += 1
        if isinstance(v, Sym) and v.ty is not None and unref(v.ty).k == "adt":
            p = unref(v.ty).p
        elif isA(v) and v[1] != "tuple":
            p = v[1]
        else:
            return None
        meth = c.p.rsplit("::", 1)[1]
        got = self.impls().get((p, meth))
        if got:
            t = self.pick([x for x in got if x[0] == c.tr], v)
            if t is not None:
                return t
        if (p, c.tr) in self.impl_types and c.raw.get("db", -1) >= 0:
            return c.D.bodies[c.raw["db"]]
        return None

    def impls(self):
        if getattr(self, "_impls", None) is None:
            self._impls = {}
            self.impl_types = set()
            for D in self.dumps.values():
                for r in D.roots:
                    if r.get("tr") and r.get("self") is not None and not r.get("intrait"):
                        t = unref(D.ty(r["self"]))
                        if t.k == "adt":
                            self.impl_types.add((t.p, r["tr"]))
                            self._impls.setdefault((t.p, r["name"]), []).append((r["tr"], D.bodies[r["b"]], t))
        return self._impls

    def pick(self, cands, v):
        """the implementation whose self type fits the value"""
        if len(cands) <= 1:
            return cands[0][1] if cands else None
        marks = set()

        def walk(x, d=0):
            x = strip(x)
            if isA(x) and d < 4:
                if x[1] == "std::marker::PhantomData" and x[3] and isinstance(x[3][0], Sym):
                    marks.add(x[3][0].term[1])
                for y in x[3]:
                    walk(y, d + 1)
        walk(v)
        if isinstance(v, Sym) and v.ty is not None:
            marks |= {a.s for a in unref(v.ty).args()}
        fit = [b for _, b, t in cands if marks and all(a.s in marks for a in t.args())]
        if len(fit) == 1:
            return fit[0]
        raise Unknown("several implementations fit %s" % (cands[0][1]["path"],))

    def is_recursive(self, body):
        return True

    def find_model(self, c):
        m = self.models.get(c.rp)
        if m is None:
            m = self.models.get(c.p)
        if m is not None:
            return m
        for pat, mm in self.pmodels:
            if pat.search(c.rp) or pat.search(c.p):
                return mm
        return None

    def opaque_call(self, st, c, args, dty, mode, atys=None):
        name = c if isinstance(c, str) else c.rp if mode == "rec" or c.tr is None else c.p
        self.callsites[name if isinstance(name, str) else repr(name)] = self.callsites.get(name if isinstance(name, str) else repr(name), 0) + 1
        snaps = tuple(self.snap(st, a) for a in args)
        muts = [i for i, a in enumerate(args) if self.is_mut(a)]
        targs = () if isinstance(c, str) else tuple(t.s for t in c.targs())
        if muts and mode != "pure":
            ctr = ("CTR", name)
            n = st.mem.get(ctr, ZERO)
            st.mem[ctr] = n.add(1)
            term = ("call", name, targs, snaps, n)
        else:
            term = ("app", name, targs, snaps)
        ev = st.mem.get(("EV",), EMPTYQ)
        pure = mode in ("pure", "rec")
        if not pure:
            st.mem[("EV",)] = ("Q", norm_parts(ev[1] + (("u", ("ev", name, targs, snaps, term)),)))
        for i in muts:
            if mode == "nohavoc":
                continue
            a = strip(args[i])
            if isinstance(a, Sym):
                root, path = ("D", a.term), ()
                t = a.ty.sub()
            else:
                root, path = a[1], a[2]
                t = atys[i].sub() if atys and atys[i] is not None and atys[i].k in ("ref", "ptr") else None
            if root[0] == "l" or root[0] in ("h", "D"):
                self.write(st, root, path, self.mk(("hv", term, i), t))
                if self.hvhook is not None:
                    self.hvhook(self, st, ("hv", term, i), t)
        return [(st, "ret", self.mk(term, dty))]

    def is_mut(self, a):
        if isinstance(a, tuple) and a and a[0] == "P":
            return True
        if isinstance(a, Sym) and a.ty is not None and a.ty.k == "ref" and a.ty.raw.get("m"):
            return True
        return False

    # ---------------------------------------------------------------- loops
    UNROLL = 70

    def prune(self, fr, st, head):
        """drop this frame's locals that are dead at the loop head"""
        live = set(fr.info.live.get(head, ()))
        # locals reachable through pointers stay
        keep = set(live)
        work = [("l", fr.fid, i) for i in live]
        for k in st.mem:
            if not (k[0] == "l" and k[1] == fr.fid):
                work.append(k)
        seen = set()
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            v = st.mem.get(r)
            if v is None:
                continue
            for p in self.ptrs(v):
                work.append(p)
                if p[0] == "l" and p[1] == fr.fid:
                    keep.add(p[2])
        dead = [k for k in st.mem if k[0] == "l" and k[1] == fr.fid and k[2] not in keep]
        for k in dead:
            del st.mem[k]
        return st

    def ptrs(self, v, out=None):
        if out is None:
            out = []
        if isinstance(v, tuple) and v:
            if v[0] == "P" and len(v) == 3:
                out.append(v[1])
            else:
                for x in v:
                    if isinstance(x, tuple):
                        self.ptrs(x, out)
        elif isinstance(v, Sym) and v.ty is not None and v.ty.k == "ref":
            out.append(("D", v.term))
        return out

    def once(self, fr, L, st):
        return self.run(fr, st, L.head, L, True)

    WIDE = (4, 40, 400)

    def do_loop(self, fr, L, S0):
        results = []
        work = [(self.prune(fr, S0.copy(), L.head), 0, 0)]
        guard = 0
        while work:
            S, n, peeled = work.pop()
            guard += 1
            if guard > self.WIDE[2]:
                raise Budget("loop arrivals in %s" % fr.body["path"])
            outs = self.once(fr, L, S.copy())
            backs = [o[1] for o in outs if o[0] == "back"]
            others = [o for o in outs if o[0] != "back"]
            hard = [o for o in others if o[0] != "panic"]
            if not backs:
                results += others
                continue
            for b in backs:
                self.prune(fr, b, L.head)
            if len(backs) == 1 and not hard and n < self.UNROLL and len(backs[0].dec) == len(S.dec) and not self.same_state(S, backs[0]):
                results += others
                work.append((backs[0], n + 1, peeled))
                continue
            if 1 < len(backs) <= 4 and not hard and n < 8 and len(work) < 24 and all(len(b.dec) > len(S.dec) for b in backs):
                # the exit is decided (a concrete trip count): unroll, path by path
                if any(d[0] not in ("is", "isnt", "eq", "mod") for b in backs for d in b.dec[len(S.dec):]):
                    try:
                        g = self.generalise(fr, L, S, backs, peeled)
                    except (Unknown, CannotJoin):
                        g = None
                    if g is not None:
                        results += g[0]
                        for b in g[1]:
                            work.append((b, n + 1, peeled))
                        continue
                results += others
                for b in backs:
                    work.append((b, n + 1, max(peeled, 1)))
                continue
            if 1 < len(backs) <= 4 and n < 8 and len(work) < 24 and all(any(d[0] == "mod" for d in b.dec[len(S.dec):]) for b in backs):
                # cases of a residue: each goes on by itself
                results += others
                for b in backs:
                    work.append((b, n + 1, peeled))
                continue
            if len(backs) <= self.WIDE[0] and len(work) < self.WIDE[1] and all(self.stepping(S.mem, b.mem) for b in backs):
                # an iterator over a list of known parts has moved to another part
                results += others
                for b in backs:
                    work.append((b, n, peeled))
                continue
            g = self.generalise(fr, L, S, backs, peeled)
            if g is None:
                # peel one iteration and try again from the joined state
                if peeled >= 2:
                    raise Unknown("loop in %s (%s) could not be summarised" % (fr.body["path"], self.where(fr, None)))
                results += others
                for b in self.join_backs(S, backs):
                    work.append((b, n + 1, peeled + 1))
                continue
            res, leaves = g
            results += res
            for b in leaves:
                work.append((b, n + 1, peeled))
        return results

    def stepping(self, a, b):
        """some iterator in state a stands at a later part in state b"""
        def f(x, y):
            if x is y or not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y or x[0] != y[0]:
                return False
            if x[0] == "A" and x[1] == y[1] and isseq(x) and x[3][0] == y[3][0] and x[3][1] != y[3][1]:
                return x[3][1].isc() and y[3][1].isc() and x[3][1].c < y[3][1].c
            return len(x) == len(y) and any(f(p, q) for p, q in zip(x, y))
        return any(f(v, b[k]) for k, v in a.items() if k in b and b[k] != v)

    def same_state(self, a, b):
        return a.mem == b.mem and a.facts == b.facts

    # -- joining of alternative states, gated by their decisions
    def join_backs(self, S, backs):
        if len(backs) == 1:
            return backs
        conds = [b.dec[len(S.dec):] for b in backs]
        common = set(conds[0])
        for c in conds[1:]:
            common &= set(c)
        conds = [tuple(x for x in c if x not in common) for c in conds]
        j = St()
        try:
            for r in backs[0].mem:
                if all(r in b.mem for b in backs):
                    j.mem[r] = self.join_val([b.mem[r] for b in backs], conds)
        except CannotJoin:
            return backs
        fs = set(backs[0].facts)
        for b in backs[1:]:
            fs &= set(b.facts)
        j.facts = tuple(x for x in backs[0].facts if x in fs)
        ns = set(backs[0].neq)
        for b in backs[1:]:
            ns &= set(b.neq)
        j.neq = tuple(ns)
        for attr in ("known", "bat", "excl"):
            d = {}
            for k, v in getattr(backs[0], attr).items():
                if all(getattr(b, attr).get(k) == v for b in backs[1:]):
                    d[k] = v
            setattr(j, attr, d)
        j.dec = S.dec + tuple(x for x in backs[0].dec[len(S.dec):] if x in common)
        return [j]

    def join_val(self, vs, conds):
        v0 = vs[0]
        if all(v == v0 for v in vs):
            return v0
        if all(isinstance(v, Lin) for v in vs):
            t = ("phi", tuple(zip(conds, vs)))
            los = [self.lin_bounds(v) for v in vs]
            lo = None if any(x[0] is None for x in los) else min(x[0] for x in los)
            hi = None if any(x[1] is None for x in los) else max(x[1] for x in los)
            self.bounds.setdefault(t, (lo, hi))
            return V(t)
        if all(isQ(v) for v in vs):
            ps = [list(v[1]) for v in vs]
            pre = []
            while all(ps) and all(p[0] == ps[0][0] for p in ps):
                pre.append(ps[0][0])
                for p in ps:
                    p.pop(0)
            suf = []
            while all(ps) and all(p[-1] == ps[0][-1] for p in ps):
                suf.insert(0, ps[0][-1])
                for p in ps:
                    p.pop()
            return ("Q", norm_parts(tuple(pre) + (("alt", tuple((c, tuple(p)) for c, p in zip(conds, ps))),) + tuple(suf)))
        if all(isA(v) for v in vs) and all(v[1:3] == v0[1:3] and len(v[3]) == len(v0[3]) for v in vs):
            if isseq(v0) and any(v[3][1] != v0[3][1] or v[3][3] != v0[3][3] for v in vs):
                raise CannotJoin()
            return ("A", v0[1], v0[2], tuple(self.join_val([v[3][i] for v in vs], conds) for i in range(len(v0[3]))))
        if all(isinstance(v, tuple) and v and v[0] == "R" for v in vs):
            return ("R", self.join_val([v[1] for v in vs], conds))
        if all(isinstance(v, Sym) for v in vs):
            return Sym(("phi", tuple(zip(conds, vs))), v0.ty)
        raise CannotJoin()

    def lin_bounds(self, l):
        if l.isc():
            return (l.c, l.c)
        a = l.atom()
        if a is not None:
            return self.bounds.get(a) or self.infer_bounds(a) or (None, None)
        return (None, None)

    def generalise(self, fr, L, S0, backs, peeled):
        """try every back edge as the one that sets the strides"""
        err = None
        res = None
        if len(backs) > 1:
            # one kind of iteration repeats, the others are last ones
            for k in range(min(len(backs), 6)):
                try:
                    g = self.generalise1(fr, L, S0, backs[k:] + backs[:k], peeled, True)
                except Budget:
                    raise
                except Unknown:
                    continue
                if g is not None:
                    return g
        for k in range(min(len(backs), 4)):
            try:
                g = self.generalise1(fr, L, S0, backs[k:] + backs[:k], peeled)
            except Budget:
                raise
            except UnknownPart:
                res = True
                continue
            except Unknown as e:
                err = e
                continue
            if g is not None:
                return g
            res = True
        if res is None and err is not None:
            raise err
        return None

    def generalise1(self, fr, L, S0, backs, peeled, strict=False):
        lid = self.fresh()
        i = ("idx", lid)
        self.bounds[i] = (0, (1 << 62))
        force = {}
        inv = ()
        backs1 = backs
        for rnd in range(12):
            ctx = GenCtx(self, lid, i, force)
            ctx.strict = strict
            G = S0.copy()
            for r, v in S0.mem.items():
                if any(b.mem.get(r) != v for b in backs1 if r in b.mem):
                    G.mem[r] = ctx.gen((r,), v, [b.mem[r] for b in backs1 if r in b.mem])
            if rnd == 0:
                first_ctx_paths = ctx.mus
            G.facts = G.facts + tuple(inv)
            outs = self.once(fr, L, G.copy())
            bks = [o[1] for o in outs if o[0] == "back"]
            oth = [o for o in outs if o[0] != "back"]
            good, bad, badpaths = [], [], []
            for b in bks:
                self.prune(fr, b, L.head)
                mism = []
                growth = {}
                muv = {}
                for r, v in G.mem.items():
                    if r in b.mem:
                        ctx.check((r,), v, b.mem[r], mism, growth, muv)
                if mism:
                    # a leaving iteration: the iteration number is pinned by its guards
                    bad.append((b, mism))
                else:
                    good.append((b, growth, muv))
            if not good and not bad:
                # the generalised state cannot iterate again: treat as plain exits
                return None if not oth else None
            leaves = []
            demote = set()
            for b, mism in bad:
                e = self.pinned(b, i)
                if good and e is not None:
                    leaves.append((b, e))
                else:
                    demote.update(mism)
            if demote and strict:
                add = self.invariants(G, S0, good, i, inv)
                if add:
                    inv = inv + add
                    continue
                return None
            if demote:
                ch = False
                for p in demote:
                    if force.get(p) != "mu":
                        force[p] = "mu"
                        ch = True
                if not ch:
                    return None
                continue
            # mu cells: try to express them by the previous iteration
            again = False
            if ctx.mus:
                if peeled == 0:
                    return None
                for p in list(ctx.mus):
                    if isinstance(force.get(p), tuple) or force.get(p) == "top":
                        continue
                    fs = {g[2].get(p) for g in good}
                    if len(fs) == 1:
                        fv = fs.pop()
                        own = lambda a: isinstance(a, tuple) and len(a) >= 2 and a[0] in ("mu", "acc", "acclen") and a[1] == lid
                        if fv is not None and not mentions(fv, own):
                            prev = rewrite(fv, lambda a: V(i).add(-1) if a == i else None)
                            init = rewrite(fv, lambda a: K(-1) if a == i else None)
                            if init == ctx.mus[p]:
                                force[p] = ("prev", prev)
                                again = True
                                continue
                    force[p] = "top"
                    again = True
                if again:
                    continue
            if good:
                add = self.invariants(G, S0, good, i, inv)
                if add:
                    inv = inv + add
                    continue
            if not oth and not leaves:
                raise Endless("loop without an end in %s" % fr.body["path"])
            # mus left: unknown values (sound)
            return self.finish(fr, L, S0, G, ctx, good, leaves, oth, i)
        return None

    def invariants(self, G, S0, good, i, inv):
        """bounds on the iteration number from the guards taken on every phase iteration"""
        cand = []
        for b, _, _ in good:
            for f in b.facts[len(G.facts):]:
                if i in f.t and f not in cand and all(b2 is b or self.prove_le(b2, f) for b2, _, _ in good):
                    cand.append(f)
        add = []
        for f in cand:
            p = rewrite(f, lambda a: V(i).add(-1) if a == i else None)
            z = rewrite(f, lambda a: K(-1) if a == i else None)
            if p not in inv and self.prove_le(S0, z):
                add.append(p)
        return tuple(add) if len(inv) < 12 else ()

    def pinned(self, st, i):
        """i == E provable in st: return E"""
        if i not in self.all_atoms(st.facts):
            return None
        for f in reversed(st.facts):
            v = f.t.get(i)
            if v in (1, -1):
                # f: v*i + rest <= 0
                rest = Lin(f.c, {a: x for a, x in f.t.items() if a != i})
                e = rest.mul(-v)          # i = e at the boundary
                if self.prove_eq(st, V(i).sub(e)):
                    return e
        return None

    def two_exits(self, st, G, good, ctx, i):
        """an exit whose iteration number is open: at the first arrival, or after an
        iteration that took the guards of a repeating one"""
        own = lambda a: isinstance(a, tuple) and len(a) >= 2 and (a[0] == "mu" and a[1] == ctx.lid or a[0] in ("acc", "acclen") and a[1][0] == ctx.lid)
        gs = None
        for b, _, _ in good:
            fs = {f for f in b.facts[len(G.facts):] if i in f.t and not mentions(f, own)}
            gs = fs if gs is None else gs & fs
        if not gs:
            return None
        out = []
        a = st.copy()
        if self.assume(a, ("cmp", "eq", V(i)), True):
            out.append((a, ZERO))
        b = st.copy()
        ok = self.assume(b, ("cmp", "le", K(1).sub(V(i))), True)
        for f in gs:
            ok = ok and self.assume(b, ("cmp", "le", rewrite(f, lambda x: V(i).add(-1) if x == i else None)), True)
        if ok:
            e = self.pinned(b, i)
            if e is None:
                return None
            # the last arrival number says the same
            b.dec = st.dec + (("le", K(1).sub(e)),)
            out.append((b, e))
        return out

    def finish(self, fr, L, S0, G, ctx, good, leaves, oth, i):
        # star bodies of the accumulators
        bodies = {}
        for key in ctx.accs:
            alts = []
            for b, growth, _ in good:
                alts.append((b.dec[len(G.dec):], growth.get(key, ())))
            common = None
            for d, _ in alts:
                common = set(d) if common is None else common & set(d)
            alts = [(tuple(x for x in d if x not in common), g) for d, g in alts]
            if all(g == alts[0][1] for _, g in alts):
                body = alts[0][1]
            else:
                ps = [list(g) for _, g in alts]
                pre = []
                while all(ps) and all(p[0] == ps[0][0] for p in ps):
                    pre.append(ps[0][0])
                    for p in ps:
                        p.pop(0)
                suf = []
                while all(ps) and all(p[-1] == ps[0][-1] for p in ps):
                    suf.insert(0, ps[0][-1])
                    for p in ps:
                        p.pop()
                body = tuple(pre) + (("alt", tuple((d, tuple(p)) for (d, _), p in zip(alts, ps))),) + tuple(suf)
            bodies[key] = norm_parts(body)

        def close(st, e=None):
            iv = e if e is not None else V(i)

            def fix(x, memo):
                return x
            st2 = St()
            memo = {}

            def repl(x):
                if isinstance(x, tuple):
                    if len(x) == 3 and x[0] == "acc" and x[1][0] == ctx.lid:
                        return star(i, iv, bodies[x[1]])
                return None
            st2 = map_state(st, repl)
            # lengths of accumulators
            lens = {}
            for key, body in bodies.items():
                lens[("acclen", key)] = part_len(star(i, iv, body)) if body else ZERO

            def f(a):
                if a == i and e is not None:
                    return e
                if isinstance(a, tuple) and a in lens:
                    return lens[a]
                return None
            return st2.rewrite(f)
        res = []
        for o in oth:
            e = self.pinned(o[1], i)
            if e is None:
                two = self.two_exits(o[1], G, good, ctx, i)
                if two is not None:
                    for st, e in two:
                        res.append((o[0], close(st, e)) + tuple(o[2:]))
                    continue
            s = close(o[1], e)
            res.append((o[0], s) + tuple(o[2:]))
        lv = []
        for b, e in leaves:
            lv.append(close(b, e))
        return res, lv


def isseq(v):
    """the iterator state of the library models"""
    return v[1].endswith("::Seq") and len(v[3]) >= 4


def map_state(st, f):
    memo = {}

    def m(x):
        if isinstance(x, (str, int, bool)) or x is None:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        n = f(x)
        if n is not None:
            memo[x] = n
            return n
        if isinstance(x, tuple):
            t = tuple(m(y) for y in x)
            r = x if t == x else t
            if r is not x and r and r[0] == "Q":
                r = ("Q", norm_parts(r[1]))
        elif isinstance(x, Lin):
            t = {}
            out = Lin(x.c)
            for a, v in x.t.items():
                out = out.add(Lin(0, {m(a): v}))
            r = out
        elif isinstance(x, Sym):
            t = m(x.term)
            r = x if t == x.term else Sym(t, x.ty)
        else:
            r = x
        memo[x] = r
        return r
    s = St()
    s.mem = {k: m(v) for k, v in st.mem.items()}
    s.facts = tuple(m(x) for x in st.facts)
    s.neq = tuple(m(x) for x in st.neq)
    s.known = {m(k): v for k, v in st.known.items()}
    s.excl = {m(k): v for k, v in st.excl.items()}
    s.bat = {m(k): v for k, v in st.bat.items()}
    s.dec = tuple(m(x) for x in st.dec)
    return s


class UnknownPart(Unknown):
    """an iterator whose part index was generalised: this cannot be the repeating iteration"""


class CannotJoin(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class NeedResidue(Exception):
    def __init__(self, lin, k, base):
        self.lin, self.k, self.base = lin, k, base


class Fork2(Exception):
    def __init__(self, states):
        self.states = states


class GenCtx:
    """loop generalisation of values"""

    def __init__(self, ip, lid, i, force):
        self.ip, self.lid, self.i, self.force = ip, lid, i, force
        self.accs = {}
        self.acclen = {}
        self.mus = {}

    def mu(self, path, v0):
        self.mus[path] = v0
        f = self.force.get(path)
        if isinstance(f, tuple) and f[0] == "prev":
            return f[1]
        t = ("mu", self.lid, path)
        if isinstance(v0, Lin):
            return V(t)
        ty = v0.ty if isinstance(v0, Sym) else None
        if Interp.isbool(v0):
            return ("at", t)
        return Sym(t, ty)

    def gen(self, path, v0, v1s):
        f = self.force.get(path)
        if f is not None:
            return self.mu(path, v0)
        if self.strict:
            v1s = v1s[:1]       # one kind of iteration repeats
        if all(v == v0 for v in v1s):
            return v0
        if isinstance(v0, Lin) and all(isinstance(v, Lin) for v in v1s):
            ds = {v.sub(v0) for v in v1s}
            d = ds.pop() if len(ds) == 1 else None
            if d is not None and d.isc():
                return v0.add(V(self.i).mul(d.c))
            # the first alternative decides the stride when several are offered
            cs = [v.sub(v0) for v in v1s]
            if cs[0].isc() and cs[0].c:
                return v0.add(V(self.i).mul(cs[0].c))
            return self.mu(path, v0)
        if isQ(v0) and all(isQ(v) for v in v1s):
            return self.genq(path, v0, v1s)
        if isA(v0) and isseq(v0) and all(isA(v) and v[1] == v0[1] for v in v1s) and v1s and all(v1s[0][3][k] == v0[3][k] for k in (0, 1, 3)):
            # iterations that stay in the part; the others are last ones
            return ("A", v0[1], v0[2], v0[3][:2] + (self.gen(path + (2,), v0[3][2], [v[3][2] for v in v1s if all(v[3][k] == v0[3][k] for k in (0, 1, 3))]),) + v0[3][3:])
        if isA(v0) and all(isA(v) and v[1:3] == v0[1:3] and len(v[3]) == len(v0[3]) for v in v1s):
            return ("A", v0[1], v0[2], tuple(self.gen(path + (k,), v0[3][k], [v[3][k] for v in v1s]) for k in range(len(v0[3]))))
        if isinstance(v0, tuple) and v0 and v0[0] == "R" and all(isinstance(v, tuple) and v and v[0] == "R" for v in v1s):
            return ("R", self.gen(path + ("R",), v0[1], [v[1] for v in v1s]))
        if isinstance(v0, tuple) and v0 and v0[0] == "C" and all(isinstance(v, tuple) and v and v[0] == "C" and v[1] == v0[1] for v in v1s):
            return ("C", v0[1], tuple(self.gen(path + (k,), v0[2][k], [v[2][k] for v in v1s]) for k in range(len(v0[2]))))
        return self.mu(path, v0)

    def acc(self, path, growths=()):
        key = (self.lid, path)
        self.accs[key] = path
        ls = {parts_len(g) for g in (growths[:1] if self.strict else growths)}
        if len(ls) == 1 and list(ls)[0].isc():
            # every iteration adds the same number of elements
            c = ls.pop().c
            self.acclen[key] = c
            return ("acc", key, V(self.i).mul(c))
        l = V(("acclen", key))
        self.ip.bounds.setdefault(("acclen", key), (0, 1 << 62))
        return ("acc", key, l)

    def growth(self, old, new):
        """suffix of new after old (part lists), or None"""
        n = len(old)
        if n == 0:
            return new
        if len(new) >= n and new[:n] == old:
            return new[n:]
        # the last part may have been extended in place (merged slices/strings/reps)
        if len(new) >= n and new[:n - 1] == old[:n - 1]:
            a, b = old[-1], new[n - 1]
            if a[0] == "k" and b[0] == "k" and b[1].startswith(a[1]):
                return (("k", b[1][len(a[1]):]),) + new[n:]
            if a[0] == "s" and b[0] == "s" and a[1:3] == b[1:3]:
                return (("s", a[1], a[3], b[3]),) + new[n:]
            if a[0] == "rep" and b[0] == "rep" and a[1] == b[1]:
                return (("rep", a[1], b[2].sub(a[2])),) + new[n:]
        return None

    def genq(self, path, v0, v1s):
        o = v0[1]
        gs = [self.growth(o, v[1]) for v in v1s]
        if gs[0] is not None if self.strict else all(g is not None for g in gs):
            # constant growth of lengths gives an affine length
            return ("Q", o + (self.acc(path, gs),))
        # prefix fill of a repeated tail:  [.. rep(v,n)] -> [.. units rep(v,n-k)]
        if o and o[-1][0] == "rep":
            pre, rep = o[:-1], o[-1]
            ok, gg = [], []
            for v in v1s:
                p = v[1]
                if p and p[-1][0] == "rep" and p[-1][1] == rep[1]:
                    g = self.growth(pre, p[:-1]) if pre else p[:-1]
                    d = rep[2].sub(p[-1][2])
                    if g is not None and d.isc():
                        ok.append(d.c)
                        gg.append(g)
                        continue
            if ok:
                return ("Q", pre + (self.acc(path, gg[:1]), ("rep", rep[1], rep[2].sub(V(self.i).mul(ok[0])))))
        # the same for a symbolic tail that is overwritten from its start
        if o and o[-1][0] == "s":
            pre, sl = o[:-1], o[-1]
            ok, gg = [], []
            for v in v1s:
                p = v[1]
                if p and p[-1][0] == "s" and p[-1][1] == sl[1] and p[-1][3] == sl[3]:
                    g = self.growth(pre, p[:-1]) if pre else p[:-1]
                    d = p[-1][2].sub(sl[2])
                    if g and d.isc() and d.c > 0:
                        ok.append(d.c)
                        gg.append(g)
            if ok:
                return ("Q", pre + (self.acc(path, gg[:1]), ("s", sl[1], sl[2].add(V(self.i).mul(ok[0])), sl[3])))
        # same shape with affine bounds
        if all(len(v[1]) == len(o) for v in v1s):
            out = []
            for k, p in enumerate(o):
                q = [v[1][k] for v in v1s]
                if all(x == p for x in q):
                    out.append(p)
                elif p[0] == "s" and all(x[0] == "s" and x[1] == p[1] for x in q):
                    out.append(("s", p[1], self.gen(path + (k, "lo"), p[2], [x[2] for x in q]), self.gen(path + (k, "hi"), p[3], [x[3] for x in q])))
                elif p[0] == "u" and all(x[0] == "u" for x in q):
                    out.append(("u", self.gen(path + (k, "u"), p[1], [x[1] for x in q])))
                elif p[0] == "rep" and all(x[0] == "rep" and x[1] == p[1] for x in q):
                    out.append(("rep", p[1], self.gen(path + (k, "n"), p[2], [x[2] for x in q])))
                else:
                    return self.mu(path, v0)
            return ("Q", tuple(out))
        return self.mu(path, v0)

    def nxt(self, x):
        return rewrite(x, lambda a: V(self.i).add(1) if a == self.i else None)

    def check(self, path, g, v, mism, growth, muv):
        f = self.force.get(path)
        if f is not None:
            if isinstance(f, tuple) and f[0] == "prev":
                if self.nxt(g) != v:
                    mism.append(path)
                return
            muv[path] = v
            return
        if path in self.mus:
            muv[path] = v
            return
        accp = None
        if isQ(g):
            for k, p in enumerate(g[1]):
                if p[0] == "acc" and p[1][0] == self.lid:
                    accp = k
        if accp is None and self.nxt(g) == v:
            return
        if isQ(g) and isQ(v):
            if accp is not None:
                pre = g[1][:accp + 1]
                suf = tuple(self.nxt(p) for p in g[1][accp + 1:])
                suf = norm_parts(suf)
                r = v[1]
                if r[:accp + 1] == pre:
                    r = r[accp + 1:]
                    if not suf or r[len(r) - len(suf):] == suf:
                        gr = r[:len(r) - len(suf)]
                        key = g[1][accp][1]
                        if key in self.acclen and parts_len(gr) != K(self.acclen[key]):
                            mism.append(path)
                            return
                        growth[key] = gr
                        return
                    # tail of zero length is dropped by normalisation
                    if len(suf) == 1 and suf[0][0] == "rep":
                        mism.append(path)
                        return
                mism.append(path)
                return
            if len(g[1]) == len(v[1]):
                for k, (p, q) in enumerate(zip(g[1], v[1])):
                    if self.nxt(p) == q:
                        continue
                    if p[0] == q[0] == "s" and p[1] == q[1]:
                        self.check(path + (k, "lo"), p[2], q[2], mism, growth, muv)
                        self.check(path + (k, "hi"), p[3], q[3], mism, growth, muv)
                    elif p[0] == q[0] == "u":
                        self.check(path + (k, "u"), p[1], q[1], mism, growth, muv)
                    else:
                        mism.append(path)
                        return
                return
            mism.append(path)
            return
        if isA(g) and isA(v) and g[1:3] == v[1:3] and len(g[3]) == len(v[3]):
            for k in range(len(g[3])):
                self.check(path + (k,), g[3][k], v[3][k], mism, growth, muv)
            return
        if isinstance(g, tuple) and g and g[0] == "R" and isinstance(v, tuple) and v and v[0] == "R":
            self.check(path + ("R",), g[1], v[1], mism, growth, muv)
            return
        if isinstance(g, tuple) and g and g[0] == "C" and isinstance(v, tuple) and v and v[0] == "C" and g[1] == v[1]:
            for k in range(len(g[2])):
                self.check(path + (k,), g[2][k], v[2][k], mism, growth, muv)
            return
        mism.append(path)
