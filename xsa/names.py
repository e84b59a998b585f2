"""Abstract interpretation of the functions that turn names into identifiers.

Domain: a text is known by whether it is empty, which classes of characters it
may begin with and hold, which words it is or is not, and which stretches of
which texts it was made of (letter case and underscores apart).  Positions in a
text are symbols with an order between them.  Paths are kept apart by the
branches taken; loops run to a fixpoint with joins at their heads.  Nothing is
executed."""
import re

from .engine import Unknown, Budget, Callee

U, L, D, US, O, N = 1, 2, 4, 8, 16, 32          # A-Z a-z 0-9 _ other ASCII, beyond ASCII
ALL = 63
WORD = U | L | D | US
KEYWORDS = frozenset("""abstract as async await become box break const continue crate do dyn else enum extern false final fn for gen if impl in let loop
macro match mod move mut override priv pub ref return self Self static struct super trait true try type typeof unsafe unsized use virtual where while
yield""".split())
WORDS = KEYWORDS | {"_", ""}
NOTRAW = frozenset(("crate", "self", "super", "Self"))


def cls(ch):
    if "A" <= ch <= "Z":
        return U
    if "a" <= ch <= "z":
        return L
    if "0" <= ch <= "9":
        return D
    if ch == "_":
        return US
    return O if ord(ch) < 128 else N


def maskof(t):
    m = 0
    for ch in t:
        m |= cls(ch)
    return m


# text: ("S", content, empt, first, rest, notin, exact, sid)
def S(content, empt, first, rest, notin=frozenset(), exact=None, sid=None):
    if empt == "e":
        first = rest = 0
    return ("S", content, empt, first, rest, notin, exact, sid)


def const(t):
    return S((("c", t),) if t else (), "n" if t else "e", cls(t[0]) if t else 0, maskof(t[1:]), frozenset(), frozenset((t,)), ("const", t))


EMPTY = const("")
O_ = ("O",)
UNIT = ("A", "tuple", 0, ())
TRUE, FALSE = ("B", True), ("B", False)
NONE = ("A", "Option", 0, ())


def Some(v):
    return ("A", "Option", 1, (v,))


def isS(v):
    return isinstance(v, tuple) and v[:1] == ("S",)


def end(b):
    return "$" + b


def subst(v, m):
    """identifiers renamed throughout a value"""
    if isinstance(v, tuple):
        if v[:1] in (("c",), ("const",)):
            return v
        out = tuple(subst(x, m) for x in v)
        return v if all(a is b for a, b in zip(out, v)) else out
    if isinstance(v, str):
        return m.get(v, v)
    return v


def ids_of(v, out):
    if isinstance(v, tuple):
        if v[:1] not in (("c",), ("const",)):
            for x in v:
                ids_of(x, out)
    elif isinstance(v, str) and (v[:1] in "\x01$"):
        out.add(v)
    return out


NOTHING = frozenset((None,))


class State:
    __slots__ = ("env", "le", "lo", "bases", "void", "words", "vague")

    def __init__(self):
        self.env = {}           # (frame, local) -> value
        self.le = frozenset()   # (a, b, strict)
        self.lo = {}            # position -> least value
        self.bases = {}         # text whose positions are spoken of -> text
        self.void = frozenset()  # roots known to hold no letter or digit
        self.words = {}         # roots known to be one word
        self.vague = frozenset()  # conditions on the way here that are not followed

    def copy(self):
        s = State()
        s.env, s.le, s.lo, s.bases, s.void, s.words = dict(self.env), self.le, dict(self.lo), dict(self.bases), self.void, dict(self.words)
        s.vague = self.vague
        return s

    def doubtful(self):
        """Whether the way here may be no way at all.  One condition that holds
        of some of the letters a text may hold and not of others can go either
        way; of two, one may rule the other out."""
        return None in self.vague or len(self.vague) > 1

    def key(self):
        return (tuple(sorted(self.env.items(), key=repr)), self.le, tuple(sorted(self.lo.items())), tuple(sorted(self.bases.items(), key=repr)), tuple(sorted(self.void, key=repr)), tuple(sorted(self.words.items())), self.vague)

    # ---- identifiers
    def rename(self, m):
        m = dict(m)
        for a, b in list(m.items()):
            if isinstance(a, str) and a.startswith("\x01B") and isinstance(b, str):
                m.setdefault(end(a), end(b))
        self.env = {k: subst(v, m) for k, v in self.env.items()}
        self.bases = {m.get(b, b): subst(v, m) for b, v in self.bases.items()}
        self.void = frozenset(tuple(m.get(x, x) for x in v) if isinstance(v, tuple) else m.get(v, v) for v in self.void)
        self.le = frozenset((m.get(a, a), m.get(b, b), s) for a, b, s in self.le if m.get(a, a) != m.get(b, b))
        lo = {}
        for a, n in self.lo.items():
            a = m.get(a, a)
            if isinstance(a, str):
                lo[a] = max(lo.get(a, 0), n)
        self.lo = lo

    def uses(self):
        out = set()
        for v in self.env.values():
            ids_of(v, out)
        todo = list(out)
        while todo:
            x = todo.pop()
            b = x[1:] if x[:1] == "$" else x
            if b in self.bases:
                new = ids_of(self.bases[b], set()) | {b}
                todo += new - out
                out |= new
        return out

    def fresh(self, name):
        name = "\x01" + name
        if name not in self.uses():
            return name
        m = {}
        n = name
        while n in self.uses():
            m[n] = n + "'"
            n += "'"
            if len(m) > 4:
                raise Unknown("too many values of one place are alive")
        # the oldest first
        for a in sorted(m, key=len, reverse=True):
            self.rename({a: m[a]})
        return name

    def base(self, site, s):
        """a text whose positions are going to be spoken of"""
        for b, v in self.bases.items():
            if s[7] is not None and v[7] == s[7]:
                return b
        self.env["base", site] = s
        b = self.fresh("B" + site)
        self.bases[b] = self.env.pop(("base", site))
        return b

    def gc(self):
        u = self.uses()
        u |= {end(b) for b in self.bases if b in u}
        self.bases = {b: v for b, v in self.bases.items() if b in u or end(b) in u}
        self.lo = {a: n for a, n in self.lo.items() if a in u and n > 0}
        self.void = frozenset(v for v in self.void if not isinstance(v, tuple) or all(x in u or isinstance(x, int) or x[:1] == "$" for x in v[1:]))
        self.le = frozenset((a, b, s) for a, b, s in self.closure() if (a in u or isinstance(a, int)) and (b in u or isinstance(b, int)))

    # ---- order
    def closure(self):
        r = {}
        for a, b, s in self.le:
            r[a, b] = r.get((a, b), False) or s
        ns = set(x for e in r for x in e)
        if len(ns) > 40:
            raise Unknown("too many positions")
        for k in ns:
            for i in ns:
                if (i, k) in r:
                    for j in ns:
                        if (k, j) in r and i != j:
                            r[i, j] = r.get((i, j), False) or r[i, k] or r[k, j]
        return frozenset((a, b, s) for (a, b), s in r.items())

    def leq(self, a, b, strict=False):
        if a == b:
            return not strict
        if isinstance(a, int) and isinstance(b, int):
            return a < b if strict else a <= b
        if isinstance(a, int) and isinstance(b, str):
            n = self.low(b)
            if (a < n) if strict else (a <= n):
                return True
        return any(x == a and y == b and (s or not strict) for x, y, s in self.closure())

    def tied(self, a, b):
        """whether anything at all is known of how two positions lie"""
        near, todo = {a}, [a]
        while todo:
            x = todo.pop()
            for p, q, s in self.le:
                for y in ((q,) if p == x else (p,) if q == x else ()):
                    if isinstance(y, str) and y not in near:
                        near.add(y)
                        todo.append(y)
        return b in near

    def low(self, x):
        if isinstance(x, int):
            return x
        n = self.lo.get(x, 0)
        if x[:1] == "$" and x[1:] in self.bases and self.bases[x[1:]][2] == "n":
            n = max(n, 1)
        for a, b, s in self.closure():
            if b == x and isinstance(a, int):
                n = max(n, a + s)
            elif b == x and a in self.lo:
                n = max(n, self.lo[a] + s)
            elif b == x and s:
                n = max(n, 1)
        return n

    def add_le(self, a, b, strict=False):
        if a != b:
            self.le |= {(a, b, strict)}

    def equate(self, a, b):
        """two positions are found to be the same; False if that cannot be"""
        if a == b:
            return True
        if self.leq(a, b, True) or self.leq(b, a, True):
            return False
        if isinstance(a, int) and isinstance(b, int):
            return False
        if isinstance(a, int) or (isinstance(a, str) and a[:1] == "$"):
            a, b = b, a
        if isinstance(a, int):
            a, b = b, a
        # a is a symbol
        if a[:1] == "$":
            if isinstance(b, int):
                if b == 0:
                    return self.mark_empty(self.bases.get(a[1:]))
                self.lo[a] = max(self.lo.get(a, 0), b)
                self.add_le(a, b)
                self.add_le(b, a)
                return True
            raise Unknown("lengths of two texts compared")
        lo = self.low(a)
        if isinstance(b, int) and lo > b:
            return False
        self.rename({a: b})
        if isinstance(b, str):
            self.lo[b] = max(self.lo.get(b, 0), lo)
        return True

    # ---- content
    def solid(self, sid):
        """part of a text is found to hold a letter or a digit: not to be forgotten,
        for it may be left out"""
        if sid is None or ("solid", 0) in self.env:
            return
        todo = list(self.env.values())
        while todo:
            v = todo.pop()
            if isS(v):
                c = self.norm(v[1]) if v[7] == sid else None
                if c and len(c) == 1 and c[0][0] == "s" and c[0][2:4] != (0, end(c[0][1])):
                    self.env["solid", 0] = v
                    return
            elif isinstance(v, tuple) and v[:1] not in (("c",), ("const",)):
                todo += v

    def blurred(self, c):
        """whether stretches whose ends are not followed may be all of the text"""
        if not any("≈" in p for a in c if a[0] == "s" for p in a[2:4] if isinstance(p, str)):
            return False
        v = self.env.get(("solid", 0))
        v = self.norm(v[1]) if v is not None and isS(v) else None
        if not v or len(v) != 1 or v[0][0] != "s":
            return True
        _, b, lo, hi, _ = v[0]
        return not all(a[0] == "s" and a[1] == b and (self.leq(a[3], lo) or self.leq(hi, a[2])) for a in c)

    def mark_empty(self, s):
        if s is None:
            return True
        if s[2] == "n":
            return False
        c = self.norm(s[1])
        self.refine(s[7], lambda x: S((), "e", 0, 0, frozenset(), frozenset(("",)), x[7]))
        for b, v in list(self.bases.items()):
            if v == s:
                self.bases[b] = S((), "e", 0, 0, frozenset(), frozenset(("",)), s[7])
        return self.void_content(c)

    def void_content(self, c):
        """what holds when a content has no letter or digit"""
        if c and len(c) == 1 and c[0][0] == "s":
            _, b, lo, hi, t = c[0]
            if lo == 0 and hi == end(b):
                if b.startswith("\x01X"):
                    self.void |= {b}
            elif t:
                self.void |= {(b, lo, hi)}
            elif self.leq(lo, hi, True):
                return False
            else:
                return self.equate(hi, lo)
        return True

    def refine(self, sid, f):
        """f over every text known to be the same one"""
        if sid is None:
            return
        def go(v):
            if isS(v):
                return f(v) if v[7] == sid else v
            if isinstance(v, tuple) and v[:1] not in (("c",), ("const",)):
                return tuple(go(x) for x in v)
            return v
        self.env = {k: go(v) for k, v in self.env.items()}
        self.bases = {k: go(v) for k, v in self.bases.items()}

    def norm(self, c):
        """stretches that follow each other become one; whole texts become what they were made of"""
        if c is None:
            return None
        for _ in range(40):
            out = []
            changed = False
            for a in c:
                if a[0] == "c":
                    t = a[1].replace("_", "").lower()
                    if not t:
                        changed = True
                        continue
                    if out and out[-1][0] == "c":
                        out[-1] = ("c", out[-1][1] + t)
                        changed = True
                    else:
                        changed |= t != a[1]
                        out.append(("c", t))
                    continue
                _, b, lo, hi, t = a
                if lo == hi or b in self.void or (b, lo, hi) in self.void or (b in self.bases and self.bases[b][2] == "e"):
                    changed = True
                    continue
                if b in self.words and lo == 0 and hi == end(b):
                    out.append(("c", self.words[b]))
                    changed = True
                    continue
                if out and out[-1][0] == "s" and out[-1][1] == b and out[-1][3] == lo:
                    out[-1] = ("s", b, out[-1][2], hi, max(t, out[-1][4]))
                    changed = True
                    continue
                for v in self.void:
                    if isinstance(v, tuple) and v[0] == b and (v[1] == hi or v[2] == lo):
                        a = ("s", b, lo, v[2], 1) if v[1] == hi else ("s", b, v[1], hi, 1)
                        break
                if a[2:4] != (lo, hi):
                    changed = True
                    out.append(a)
                    continue
                if lo == 0 and hi == end(b) and not b.startswith("\x01X") and b in self.bases:
                    k = self.bases[b][1]
                    if k is None:
                        return None
                    out += [x if x[0] == "c" else x[:4] + (max(t, x[4]),) for x in k]
                    changed = True
                    continue
                out.append(a)
            c = tuple(out)
            if not changed:
                return c
        raise Unknown("a content without an end")


def squash(st, c):
    """constant beginnings and ends stay as they are written"""
    i = 0
    while i < len(c) and c[i][0] == "c":
        i += 1
    r = st.norm(c[i:])
    return None if r is None else c[:i] + r


def changed(c):
    """the content after a change of letter case or loss of underscores"""
    return None if c is None else tuple(a if a[0] == "c" else a[:4] + (1,) for a in c)


class Names:
    def __init__(self, D, W, consts):
        """consts(dump, id) -> value of a constant"""
        self.D, self.W, self.consts = D, W, consts
        self.models = {}
        for b in W.bodies.values():
            if b["path"].startswith("models::"):
                self.models[b["path"][8:]] = b
        self.infos = {}
        self.steps = 0
        self.visited = set()
        self.sites = {}          # where identifiers are made -> [problem, ...]
        self.open = []
        self.depth = 0
        self.panics = []

    # ================================================================= bodies
    def info(self, b):
        k = (b["D"].name, b["id"])
        if k not in self.infos:
            self.infos[k] = Info(b)
        return self.infos[k]

    def call_body(self, st, b, args, fid):
        """-> [(state, value)]"""
        self.depth += 1
        if self.depth > 40:
            raise Unknown("%s: calls without end" % b["path"])
        self.visited.add(b["path"])
        st = st.copy()
        for i, a in enumerate(args):
            st.env[fid, i + 1] = a
        info = self.info(b)
        heads = {}
        work = [(0, st)]
        outs, seen = [], set()
        rounds = 0
        while work:
            bb, st = work.pop()
            self.steps += 1
            if self.steps > 60000:
                raise Budget("names: too many steps")
            if bb in info.heads:
                rounds += 1
                if rounds > 600:
                    raise Unknown("loop in %s does not come to a fixpoint" % b["path"])
                live = info.live[bb] | info.taken
                for k in [k for k in st.env if k[0] == fid and k[1] not in live]:
                    del st.env[k]
                st.gc()
                hk = (bb, self.shape(st))
                old = heads.get(hk)
                if old is not None:
                    new = join(old, st, "%s:%d" % (fid, bb))
                    if new.key() == old.key():
                        continue
                    st = new
                heads[hk] = st
                st = st.copy()
            for x in self.block(st, b, bb, fid):
                if x[0] == "ret":
                    s, v = x[1], x[2]
                    for k in [k for k in s.env if k[0] == fid]:
                        del s.env[k]
                    s.env["ret", fid] = v
                    s.gc()
                    v = s.env.pop(("ret", fid))
                    kk = (s.key(), v)
                    if kk not in seen:
                        seen.add(kk)
                        outs.append((s, v))
                else:
                    work.append((x[1], x[2]))
        self.depth -= 1
        return outs

    def shape(self, st):
        return tuple((k, shape(v)) for k, v in sorted(st.env.items(), key=repr))

    def block(self, st, b, bb, fid):
        bl = b["blocks"][bb]
        for s in bl["s"]:
            if s[0] == "=":
                v = self.rvalue(st, b, fid, s[2])
                self.put(st, self.place(st, b, fid, s[1]), v)
        t = bl["t"]
        if t[0] == "goto":
            return [("go", t[1], st)]
        if t[0] == "ret":
            return [("ret", st, st.env.get((fid, 0), UNIT))]
        if t[0] == "drop":
            return [("go", t[2], st)]
        if t[0] in ("unreachable", "unwind"):
            return []
        if t[0] == "switch":
            return [("go", k, s) for s, k in self.switch(st, self.operand(st, b, fid, t[1]), t[3], t[4], b["D"].ty(t[2]))]
        if t[0] == "assert":
            return self.do_assert(st, b, fid, t)
        if t[0] == "call":
            args = [self.operand(st, b, fid, a) for a in t[2]]
            f = t[1]
            if f[0] == "k" and "fn" in f[1]:
                r = self.call(st, Callee(f[1]["fn"], b["D"]), args, "%s:%d" % (fid, bb), b["D"].ty(b["locals"][t[3][0]]) if not t[3][1] else None)
            else:
                r = self.apply(st, self.operand(st, b, fid, f), args, "%s:%d" % (fid, bb))
            out = []
            for s, v in r:
                if t[4] is None or t[4] < 0:
                    continue
                self.put(s, self.place(s, b, fid, t[3]), v)
                out.append(("go", t[4], s))
            return out
        raise Unknown("terminator %s" % t[0])

    def do_assert(self, st, b, fid, t):
        # ['assert', cond, expected, target, ...]: bounds and overflow checks
        v = self.operand(st, b, fid, t[1])
        want = t[2]
        tgt = [x for x in t[3:] if isinstance(x, int) and not isinstance(x, bool)]
        if v[0] == "B" and isinstance(v[1], bool):
            return [("go", tgt[0], st)] if v[1] == bool(want) else []
        return [("go", tgt[0], st)]

    # ================================================================= places
    def place(self, st, b, fid, p):
        cur = ("R", fid, p[0], ())
        for e in p[1]:
            if e[0] == "*":
                v = self.get(st, cur)
                cur = v if v[0] == "R" else ("VAL", v)
            elif e[0] == "f":
                if cur[0] == "VAL":
                    cur = ("VAL", self.field(cur[1], e[1]))
                else:
                    cur = cur[:3] + (cur[3] + (e[1],),)
            elif e[0] == "v":
                continue
            elif e[0] in ("i", "ci"):
                raise Unknown("indexing")
            else:
                raise Unknown("projection %r" % (e,))
        return cur

    def field(self, v, i):
        if v[0] == "A":
            if i >= len(v[3]):
                raise Unknown("field of %r" % (v[1],))
            return v[3][i]
        if v[0] == "F":
            return v[2][i]
        if v[0] == "O":
            return O_
        raise Unknown("field of %s" % v[0])

    def get(self, st, pl):
        if pl[0] == "VAL":
            return pl[1]
        v = st.env.get((pl[1], pl[2]))
        if v is None:
            raise Unknown("a value that is not there")
        for i in pl[3]:
            v = self.field(v, i)
        return v

    def put(self, st, pl, v):
        if pl[0] == "VAL":
            raise Unknown("write through a value")
        k = (pl[1], pl[2])
        if pl[3] and k not in st.env:
            raise Unknown("write into nothing")
        st.env[k] = self.with_field(st.env.get(k), pl[3], v)

    def with_field(self, old, path, v):
        if not path:
            return v
        if old[0] == "A":
            fs = list(old[3])
            fs[path[0]] = self.with_field(fs[path[0]], path[1:], v)
            return old[:3] + (tuple(fs),)
        if old[0] == "F":
            fs = list(old[2])
            fs[path[0]] = self.with_field(fs[path[0]], path[1:], v)
            return old[:2] + (tuple(fs),)
        raise Unknown("write into %s" % old[0])

    def load(self, st, v):
        """the value behind references"""
        while v[0] == "R":
            v = self.get(st, v)
        return v

    def cell(self, st, v):
        """the place behind references to references"""
        if v[0] != "R":
            raise Unknown("no place")
        while True:
            w = self.get(st, v)
            if w[0] != "R":
                return v
            v = w

    # ================================================================= values
    def operand(self, st, b, fid, o):
        if o[0] in ("cp", "mv"):
            return self.get(st, self.place(st, b, fid, o[1]))
        return self.constant(st, b, fid, o[1])

    def constant(self, st, b, fid, c):
        ty = b["D"].ty(c["t"]) if "t" in c else None
        if "str" in c:
            return const(c["str"])
        if "int" in c:
            n = int(c["int"])
            if ty is not None and ty.k == "bool":
                return ("B", bool(n))
            if ty is not None and ty.k == "char":
                return char(chr(n))
            if ty is not None and ty.k == "int" and n >= 1 << (ty.bits() - 1):
                n -= 1 << ty.bits()
            return ("I", n)
        if "bytes" in c:
            return ("L", tuple(("I", x) for x in c["bytes"]))
        if "fn" in c:
            return ("F", Callee(c["fn"], b["D"]), ())
        if "zst" in c:
            if ty is not None and ty.k == "closure":
                return ("F", (b["D"].name, ty.raw["body"]), ())
            if ty is not None and ty.k == "fndef":
                return ("F", Callee(ty.raw["c"], ty.D), ())
            return UNIT
        if "promoted" in c or "const" in c:
            return self.consts(b["D"], c.get("promoted", c.get("const")))
        return O_

    def rvalue(self, st, b, fid, r):
        k = r[0]
        if k == "use":
            return self.operand(st, b, fid, r[1])
        if k == "ref":
            pl = self.place(st, b, fid, r[2])
            if pl[0] == "VAL":
                return pl[1]
            v = st.env.get((pl[1], pl[2]))
            return pl
        if k == "cast":
            o = next((x for x in r[1:] if isinstance(x, list) and x and x[0] in ("cp", "mv", "k")), None)
            v = self.operand(st, b, fid, o)
            if v[0] == "C":
                return v
            return v
        if k == "agg":
            h = r[1]
            vals = tuple(self.operand(st, b, fid, o) for o in r[2])
            if h[0] == "tuple":
                return ("A", "tuple", 0, vals)
            if h[0] == "array":
                return ("L", vals)
            if h[0] == "closure":
                return ("F", (b["D"].name, b["D"].ty(h[1]).raw["body"]), vals)
            if h[0] == "adt":
                ty = b["D"].ty(h[1])
                n = ty.p.rsplit("::", 1)[-1]
                return ("A", ty.p if ty.p.startswith("models::") else n, h[2], vals)
            return O_
        if k == "disc":
            v = self.load(st, self.get(st, self.place(st, b, fid, r[1])))
            if v[0] == "A":
                return ("I", v[2])
            if v[0] == "O":
                return ("I", None)
            raise Unknown("discriminant of %s" % v[0])
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, b, fid, r[2]), self.operand(st, b, fid, r[3]), "%s:%s" % (fid, r[1]))
        if k == "un":
            v = self.operand(st, b, fid, r[2])
            if r[1] == "Not" and v[0] == "B":
                return neg(v)
            if "Metadata" in r[1] or "Len" in r[1]:
                v = self.load(st, v)
                if v[0] == "L":
                    return ("I", len(v[1]))
            return ("I", None)
        if k == "len":
            v = self.load(st, self.get(st, self.place(st, b, fid, r[1])))
            return ("I", len(v[1]) if v[0] == "L" else None)
        raise Unknown("rvalue %s" % k)

    def binop(self, st, op, a, b, site):
        ov = op.endswith("WithOverflow") or op.endswith("Overflow")
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        wrap = lambda v: ("A", "tuple", 0, (v, FALSE)) if ov else v
        if a[0] == "C" or b[0] == "C":
            if op in ("Eq", "Ne"):
                r = self.char_eq(a, b)
                return r if op == "Eq" else neg(r)
            return ("B", self.char_cmp(op, a, b))
        if a[0] == "B" and b[0] == "B":
            if op in ("BitAnd", "BitOr"):
                for x, y in ((a, b), (b, a)):
                    if x[1] is True:
                        return y if op == "BitAnd" else TRUE
                    if x[1] is False:
                        return FALSE if op == "BitAnd" else y
                return both(a[1], b[1]) if op == "BitAnd" else neg(both(neg(a)[1], neg(b)[1]))
            if op in ("Eq", "Ne"):
                if isinstance(b[1], bool):
                    return a if b[1] == (op == "Eq") else neg(a)
                if isinstance(a[1], bool):
                    return b if a[1] == (op == "Eq") else neg(b)
            return ("B", None)
        if a[0] != "I" or b[0] != "I":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return ("B", None)
            raise Unknown("%s of %s and %s" % (op, a[0], b[0]))
        x, y = a[1], b[1]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if x is None or y is None:
                return ("B", None)
            return self.icmp(st, op, x, y)
        if x is None or y is None:
            return wrap(("I", None))
        if isinstance(x, int) and isinstance(y, int):
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(op)
            if r is None or r < 0:
                return wrap(("I", None))
            return wrap(("I", r))
        if op == "Add" and (isinstance(x, int) or isinstance(y, int)):
            if isinstance(x, int):
                x, y = y, x
            if y == 0:
                return wrap(("I", x))
            lo = st.low(x)
            st.env["add", site] = ("I", x)
            n = st.fresh("+" + site)
            x = st.env.pop(("add", site))[1]
            st.lo[n] = lo + y
            st.add_le(x, n, True)
            return wrap(("I", n))
        return wrap(("I", None))

    def icmp(self, st, op, x, y):
        if op in ("Gt", "Ge"):
            return self.icmp(st, {"Gt": "Lt", "Ge": "Le"}[op], y, x)
        if op == "Ne":
            return neg(self.icmp(st, "Eq", x, y))
        if op == "Lt":
            return neg(self.icmp(st, "Le", y, x))
        if op == "Le":
            if st.leq(x, y):
                return TRUE
            if st.leq(y, x, True):
                return FALSE
            return ("B", ("le", x, y))
        if x == y:
            return TRUE
        if st.leq(x, y, True) or st.leq(y, x, True):
            return FALSE
        return ("B", ("ieq", x, y))

    def char_eq(self, a, b):
        if a[0] != "C" or b[0] != "C":
            return ("B", None)
        if b[4] is None:
            a, b = b, a
        if b[4] is None:
            return ("B", None)
        if a[4] is not None:
            return ("B", a[4] == b[4])
        m = cls(b[4])
        if not a[1] & m:
            return FALSE
        if m == US:
            return self.char_cls(a, US)
        return ("B", ("ceq", a[3], b[4]))

    def char_cls(self, a, m):
        if not a[1] & ~m:
            return TRUE
        if not a[1] & m:
            return FALSE
        return ("B", ("cls", a[3], m))

    def char_cmp(self, op, a, b):
        """order between characters: decided by ranges"""
        rng = {U: (65, 90), L: (97, 122), D: (48, 57), US: (95, 95), O: (0, 127), N: (128, 0x10ffff)}
        if a[0] != "C" or b[0] != "C":
            return None
        if a[4] is None and b[4] is None:
            return None
        def holds(x, y):
            return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
        if a[4] is not None and b[4] is not None:
            return holds(ord(a[4]), ord(b[4]))
        c = a if a[4] is None else b
        k = ord(b[4] if a[4] is None else a[4])
        yes = no = 0
        for m, (l, h) in rng.items():
            if c[1] & m:
                f = (lambda x: holds(x, k)) if a[4] is None else (lambda x: holds(k, x))
                r = {f(l), f(h)} | ({f(k)} if l <= k <= h else set())
                if r == {True}:
                    yes |= m
                elif r == {False}:
                    no |= m
                elif m in (O, N):
                    return None
                else:
                    return ("some", "%s %s %d" % (op, c[3], k))
        if not no:
            return True
        if not yes:
            return False
        return ("cls", c[3], yes)

    # ================================================================= branches
    def switch(self, st, v, cases, other, ty):
        if v[0] == "B":
            out = []
            tgt = {True: other, False: other}
            for n, k in cases:
                tgt[bool(int(n))] = k
            for w in (True, False):
                for s in self.cases(st, v[1], w):
                    out.append((s, tgt[w]))
            return out
        if v[0] == "I":
            x = v[1]
            if isinstance(x, int):
                for n, k in cases:
                    n = int(n)
                    if ty.k == "int" and n >= 1 << (ty.bits() - 1):
                        n -= 1 << ty.bits()
                    if n == x:
                        return [(st, k)]
                return [(st, other)]
            out = []
            rest = st.copy()
            if x is None:
                rest.vague |= NOTHING
            st = rest.copy() if x is None else st
            for n, k in cases:
                if x is None:
                    out.append((st.copy(), k))
                    continue
                p = self.icmp(rest, "Eq", x, int(n))
                s = self.assume(rest, p[1], True)
                if s is not None:
                    out.append((s, k))
                rest = self.assume(rest, p[1], False)
                if rest is None:
                    return out
            out.append((rest, other))
            return out
        if v[0] == "C":
            out, rest, c = [], st.copy(), v
            for n, k in cases:
                p = self.char_eq(c, char(chr(int(n))))
                s = self.assume(rest, p[1], True)
                if s is not None:
                    out.append((s, k))
                rest = self.assume(rest, p[1], False)
                if rest is None:
                    return out
                if p[1] == ("cls", c[3], US):
                    c = c[:1] + (c[1] & ~US,) + c[2:]
            out.append((rest, other))
            return out
        if v[0] == "O":
            st = st.copy()
            st.vague |= NOTHING
            return [(st.copy(), k) for k in set([k for _, k in cases] + [other])]
        raise Unknown("switch on %s" % v[0])

    def cases(self, st, p, w):
        """the states in which p is w"""
        if isinstance(p, tuple) and p[0] == "not":
            return self.cases(st, p[1], not w)
        if isinstance(p, tuple) and p[0] == "and":
            out = [] if w else self.cases(st, p[1], False)
            for s in self.cases(st, p[1], True):
                out += self.cases(s, p[2], w)
            return out
        s = self.assume(st, p, w)
        return [] if s is None else [s]

    def assume(self, st, p, w):
        if p is None:
            st = st.copy()
            st.vague |= NOTHING
            return st
        if isinstance(p, bool):
            return st.copy() if p == w else None
        if p[0] == "not":
            return self.assume(st, p[1], not w)
        st = st.copy()
        k = p[0]
        if k == "some":
            st.vague |= {p[1]}
            if w and len(p) > 2:
                st.solid(p[2])
            return st
        if k == "and":
            if w:
                s = self.assume(st, p[1], True)
                return None if s is None else self.assume(s, p[2], True)
            return st
        if k == "le":
            if w:
                st.add_le(p[1], p[2])
            else:
                st.add_le(p[2], p[1], True)
                if isinstance(p[2], int) and isinstance(p[1], str):
                    st.lo[p[1]] = max(st.lo.get(p[1], 0), p[2] + 1)
            return st
        if k == "ieq":
            if w:
                return st if st.equate(p[1], p[2]) else None
            for a, b in ((p[1], p[2]), (p[2], p[1])):
                if isinstance(a, str) and b == st.low(a):
                    st.lo[a] = b + 1
                elif st.leq(a, b):
                    st.add_le(a, b, True)
            return st
        if k in ("cls", "ceq"):
            cid = p[1]
            m = p[2] if k == "cls" else cls(p[2])
            if k == "ceq" and not w and m != US:
                st.vague |= {"not " + p[2]}
            if cid is not None:
                def f(c):
                    if w:
                        return ("C", c[1] & m, c[2], c[3], p[2] if k == "ceq" else c[4])
                    return ("C", c[1] & ~m if k == "cls" or m == US else c[1], c[2], c[3], c[4])
                dead = [False]
                heads = {}

                def go(v):
                    if isinstance(v, tuple):
                        if v[:1] == ("C",) and v[3] == cid:
                            r = f(v)
                            dead[0] |= not r[1]
                            a = v[2]
                            if a and len(a) == 1 and a[0][0] == "s" and a[0][2] == 0 and not a[0][4]:
                                heads[a[0][1]] = heads.get(a[0][1], 63) & r[1]
                            return r
                        if v[:1] not in (("c",), ("const",)):
                            return tuple(go(x) for x in v)
                    return v
                st.env = {a: go(v) for a, v in st.env.items()}
                # the first letter of a text
                for b, fm in heads.items():
                    if b in st.bases:
                        def h(s, fm=fm):
                            if s[2] == "n" and not s[3] & fm:
                                dead[0] = True
                            return S(s[1], "n", s[3] & fm, s[4], s[5], filt(s[6], lambda x: x and cls(x[0]) & fm), s[7])
                        t = st.bases[b]
                        st.refine(t[7], h)
                        if t[7] is None:
                            st.bases[b] = h(t)
                if dead[0]:
                    return None
            return st
        sid = p[1]
        dead = [False]

        def ref(f):
            def g(s):
                r = f(s)
                if r is None:
                    dead[0] = True
                    return s
                return r
            st.refine(sid, g)
        if k == "in":
            ws = p[2]
            if w:
                void = []

                def f(s):
                    e = frozenset(x for x in (s[6] & ws if s[6] is not None else ws) if possible(s, x))
                    if not e:
                        return None
                    void.append((s[1], e))
                    return S(s[1], "e" if e == {""} else "n" if "" not in e else s[2], s[3] & mask1(e), s[4] & maskr(e), s[5], e, s[7])
                ref(f)
                if not dead[0] and all(x.strip("_") for _, e in void for x in e):
                    st.solid(sid)
                if not dead[0]:
                    for c, e in void:
                        c = st.norm(c)
                        if c and len(c) == 1 and c[0][0] == "s" and c[0][2] == 0 and c[0][3] == end(c[0][1]):
                            if all(not x.strip("_") for x in e):
                                st.void |= {c[0][1]}
                            elif len(e) == 1:
                                st.words[c[0][1]] = next(iter(e)).replace("_", "").lower()
            else:
                def f(s):
                    e = None if s[6] is None else s[6] - ws
                    if e is not None and not e:
                        return None
                    return S(s[1], "n" if "" in ws and s[2] == "?" else s[2], s[3], s[4], s[5] | (ws - {""} if s[2] == "n" else ws), e, s[7])
                ref(f)
        elif k == "first":
            m = p[2]
            if w:
                ref(lambda s: None if not s[3] & m or s[2] == "e" else S(s[1], "n", s[3] & m, s[4], s[5], filt(s[6], lambda x: x and cls(x[0]) & m), s[7]))
            else:
                ref(lambda s: None if s[2] == "n" and not s[3] & ~m else S(s[1], s[2] if s[3] & ~m else "e", s[3] & ~m, s[4], s[5], filt(s[6], lambda x: not x or not cls(x[0]) & m), s[7]))
        elif k == "has":
            m = p[2]
            if w:
                ref(lambda s: None if not (s[3] | s[4]) & m else S(s[1], "n", s[3], s[4], s[5], filt(s[6], lambda x: maskof(x) & m), s[7]))
            else:
                ref(lambda s: None if s[2] == "n" and not s[3] & ~m else S(s[1], s[2] if s[3] & ~m else "e", s[3] & ~m, s[4] & ~m, s[5], filt(s[6], lambda x: not maskof(x) & m), s[7]))
        elif k == "empty":
            if w:
                s0 = p[2]
                if not st.mark_empty(s0):
                    return None
            else:
                ref(lambda s: None if s[2] == "e" else S(s[1], "n", s[3], s[4], s[5] - {""}, filt(s[6], lambda x: x), s[7]))
        else:
            raise Unknown("condition %r" % (p,))
        return None if dead[0] else st

    # ================================================================= calls
    def apply(self, st, f, args, site):
        """call a function value"""
        ptr = f if f[0] == "R" else None
        f = self.load(st, f)
        if f[0] != "F":
            raise Unknown("call of a value")
        if isinstance(f[1], Callee):
            return self.call(st, f[1], args, site, None)
        name, bid = f[1]
        b = (self.D if self.D.name == name else self.W).bodies.get(bid)
        if b is None:
            raise Unknown("closure body missing")
        fid = site + ">" + str(bid)
        st = st.copy()
        by_ref = b["argc"] >= 1 and b["D"].ty(b["locals"][1]).k == "ref"
        tmp = None
        if by_ref and ptr is not None:
            me = self.cell(st, ptr)
        elif by_ref:
            tmp = ("h", fid)
            st.env[tmp] = f
            me = ("R", "h", fid, ())
        else:
            me = f
        out = []
        for s, v in self.call_body(st, b, [me] + list(args), fid):
            if tmp is not None:
                s.env.pop(tmp, None)
            out.append((s, v))
        return out

    def run_model(self, st, name, args, site):
        b = self.models.get(name)
        if b is None:
            raise Unknown("no model of %s" % name)
        return self.call_body(st, b, args, site + ">m" + name)

    def charfn(self, st, f, site):
        """a pattern as a set of classes of characters"""
        f0 = self.load(st, f)
        if f0[0] == "C":
            if f0[4] == "_":
                return US
            if f0[4] is None:
                raise Unknown("a letter as a pattern")
            return cls(f0[4]) * 64
        if f0[0] == "L":
            m = 0
            for x in f0[1]:
                m |= self.charfn(st, x, site)
            return m & ~((m & 63) << 6)
        if isS(f0) and f0[6] == frozenset(("_",)):
            return US
        if f0[0] != "F":
            raise Unknown("pattern %s" % f0[0])
        m = 0
        for bit in (U, L, D, US, O, N):
            if isinstance(f0[1], Callee):
                r = self.call(st, f0[1], [("C", bit, None, "\x01pat", None)], site, None)
            else:
                r = self.apply(st, f, [("C", bit, None, "\x01pat", None)], site)
            vs = set(v for _, v in r)
            if vs == {TRUE}:
                m |= bit
            elif vs != {FALSE}:
                if bit not in (O, N) and any(v[0] != "B" or v[1] is None for v in vs):
                    raise Unknown("a pattern that is not known")
                m |= bit * 64           # may be either
        return m

    def call(self, st, c, args, site, dty):
        p = c.p
        name = p.rsplit("::", 1)[1]
        if c.raw.get("ctor"):
            ty = c.D.ty(c.raw["ctor"][0])
            return [(st, ("A", ty.p.rsplit("::", 1)[-1], c.raw["ctor"][1], tuple(args)))]
        if c.b >= 0 and c.raw.get("rcrate") == "rpcgen":
            return self.call_body(st, c.D.bodies[c.b], args, site + ">" + str(c.b))
        if name in ("call", "call_mut", "call_once") and "::Fn" in p:
            t = args[1]
            if t[0] != "A":
                raise Unknown("arguments of a call")
            return self.apply(st, args[0], list(t[3]), site)
        st = st.copy()
        h = getattr(self, "f_" + name, None)
        if h is not None:
            r = h(st, c, args, site, dty)
            if r is not NotImplemented:
                return r
        if c.raw.get("crate") == "proc_macro2" or "span" in name or "Span" in p:
            return [(st, O_)]
        if name in ("or", "unwrap_or_else", "unwrap_or") and self.load(st, args[0])[0] == "O":
            return [(st, O_)]
        if "Option::<T>::or" == p[-len("Option::<T>::or"):]:
            return [(st, O_)]
        raise Unknown("call of %s" % p)

    # ---- the same value
    def same(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "IdentFragmentAdapter":
            v = self.load(st, v[3][0])
        return [(st, v)]

    f_deref = f_to_string = f_to_owned = f_clone = f_into = f_as_str = f_as_ref = f_borrow = f_must_use = f_into_string = f_into_boxed_str = f_cloned = f_copied = f_by_ref = f_as_mut_str = f_into_owned = f_from_utf8_lossy = f_identity = same

    def f_from(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if isS(v):
            return [(st, v)]
        if v[0] == "C":
            return [(st, self.of_char(st, v, site))]
        return NotImplemented

    def f_to_string(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "C":
            return [(st, self.of_char(st, v, site))]
        if v[0] == "A" and v[1] == "models::Once" and v[3][0][2] == 1:
            return [(st, self.of_char(st, v[3][0][3][0], site))]
        if isS(v):
            return [(st, v)]
        return NotImplemented

    f_to_owned = f_to_string

    def f_as_str(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "T" and v[1] == "chars":
            return [(st, self.slice(st, v[2], v[3], end(v[2]), site))]
        return self.same(st, c, args, site, dty)

    def f_new(self, st, c, args, site, dty):
        if "String" in c.p:
            return [(st, EMPTY)]
        if "Arguments" in c.p:
            return [(st, self.template(st, args, site))]
        if "Vec" in c.p:
            return [(st, ("V", EMPTY, "e", None))]
        if c.p.endswith("Ident::new"):
            return self.ident(st, self.load(st, args[0]), site)
        return NotImplemented

    def f_new_raw(self, st, c, args, site, dty):
        s = self.text(st, args[0])
        return self.ident(st, self.cat(st, [const("r#"), s], site), site)

    def f_with_capacity(self, st, c, args, site, dty):
        return self.f_new(st, c, args, site, dty)

    def f_default(self, st, c, args, site, dty):
        if dty is not None and dty.p == "std::string::String":
            return [(st, EMPTY)]
        return NotImplemented

    def f_from_str(self, st, c, args, site, dty):
        if "Arguments" in c.p:
            return [(st, self.text(st, args[0]))]
        return NotImplemented

    f_from_str_nonconst = f_from_str

    # ---- formatting
    def f_new_display(self, st, c, args, site, dty):
        return self.f_to_string(st, c, [self.load(st, args[0])], site, dty) if self.load(st, args[0])[0] != "A" else self.same(st, c, args, site, dty)

    def template(self, st, args, site):
        t = self.load(st, args[0])
        a = self.load(st, args[1])
        if t[0] != "L" or a[0] != "L":
            raise Unknown("a format template")
        b = [x[1] for x in t[1]]
        parts, i, n = [], 0, 0
        while i < len(b):
            x = b[i]
            i += 1
            if x == 0:
                break
            if x < 0x80:
                parts.append(const(bytes(b[i:i + x]).decode()))
                i += x
            elif x == 0x80:
                ln = b[i] | b[i + 1] << 8
                parts.append(const(bytes(b[i + 2:i + 2 + ln]).decode()))
                i += 2 + ln
            else:
                if x & 7:
                    raise Unknown("format options")
                if x & 8:
                    n = b[i] | b[i + 1] << 8
                    i += 2
                parts.append(self.text(st, a[1][n]))
                n += 1
        return self.cat(st, parts, site)

    def f_format(self, st, c, args, site, dty):
        return [(st, self.text(st, args[0]))]

    def f_write_fmt(self, st, c, args, site, dty):
        return self.append(st, args[0], self.text(st, args[1]), site, ("A", "Result", 0, (UNIT,)))

    # ---- the identifier
    def f_mk_ident(self, st, c, args, site, dty):
        return self.ident(st, self.load(st, args[0]), site)

    def ident(self, st, s, site):
        if not isS(s):
            raise Unknown("an identifier made of %s" % s[0])
        return [(st, ("A", "Ident", 0, (s,)))]

    # ---- texts
    def text(self, st, v):
        v = self.load(st, v)
        if v[0] == "A" and v[1] == "IdentFragmentAdapter":
            v = self.load(st, v[3][0])
        if v[0] == "A" and v[1] == "Ident":
            raise Unknown("an identifier used as text")
        if v[0] == "C":
            return self.of_char(st, v, None)
        if not isS(v):
            raise Unknown("text expected, not %s" % v[0])
        return v

    def of_char(self, st, v, site):
        sid = None
        if v[4] is not None and v[2] is None:
            return const(v[4])
        if site is not None:
            sid = st.fresh("h" + site)
        return S(v[2], "n", v[1], 0, frozenset(), frozenset((v[4],)) if v[4] is not None else None, sid)

    def cat(self, st, parts, site):
        parts = [p for p in parts if p[2] != "e"]
        if not parts:
            return EMPTY
        if len(parts) == 1:
            out = parts[0]
            if site is not None and out[7] is None:
                out = out[:7] + (st.fresh("s" + site),)
            return out
        out = parts[0]
        for q in parts[1:]:
            a = out
            content = None if a[1] is None or q[1] is None else squash(st, a[1] + q[1])
            empt = "n" if "n" in (a[2], q[2]) else "?"
            first = a[3] | (q[3] if a[2] != "n" else 0)
            rest = a[4] | q[4] | (q[3] if a[2] != "e" else 0)
            ex = None
            if a[6] is not None and q[6] is not None and len(a[6]) * len(q[6]) <= 200:
                ex = frozenset(x + y for x in a[6] for y in q[6])
            ni = frozenset()
            if a[6] is not None and len(a[6]) == 1:
                t = next(iter(a[6]))
                ni = frozenset(t + y for y in q[5] | {""} if not possible(q, y)) | {w for w in WORDS if not w.startswith(t) or not possible(q, w[len(t):])}
            elif q[6] is not None and len(q[6]) == 1:
                t = next(iter(q[6]))
                ni = frozenset(y + t for y in a[5] | {""} if not possible(a, y)) | {w for w in WORDS if not w.endswith(t) or not possible(a, w[:len(w) - len(t)])}
            out = S(content, empt, first, rest, ni, ex, None)
        if site is not None:
            n = st.fresh("s" + site)
            # names that were in use have been renamed: the content may speak of none of them
            out = out[:7] + (n,)
        return out

    def case(self, st, s, up, site):
        f = (lambda m: m & ~L | (U if m & L else 0)) if up else (lambda m: m & ~U | (L if m & U else 0))
        ex = None if s[6] is None else frozenset(x.upper() if up else x.lower() for x in s[6])
        if s[6] is not None and len(s[6]) == 1 and s[7] is not None and s[7][:1] == ("const",):
            return const(next(iter(ex)))
        n = st.fresh("u" + site)
        return S(changed(s[1]), s[2], f(s[3]), f(s[4]), frozenset(), ex, n)

    def f_to_ascii_lowercase(self, st, c, args, site, dty):
        return self.recase(st, args[0], False, site)

    def f_to_ascii_uppercase(self, st, c, args, site, dty):
        return self.recase(st, args[0], True, site)

    def f_to_lowercase(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        r = self.recase(st, args[0], False, site)
        if v[0] == "C":
            return [(s, ("A", "models::Once", 0, (Some(x),))) for s, x in r]
        return r

    def f_to_uppercase(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        r = self.recase(st, args[0], True, site)
        if v[0] == "C":
            return [(s, ("A", "models::Once", 0, (Some(x),))) for s, x in r]
        return r

    def f_make_ascii_lowercase(self, st, c, args, site, dty):
        k = self.cell(st, args[0])
        (s, v), = self.recase(st, k, False, site)
        self.put(s, k, v)
        return [(s, UNIT)]

    def f_make_ascii_uppercase(self, st, c, args, site, dty):
        k = self.cell(st, args[0])
        (s, v), = self.recase(st, k, True, site)
        self.put(s, k, v)
        return [(s, UNIT)]

    def recase(self, st, a, up, site):
        v = self.load(st, a)
        if isS(v):
            before = v
            r = self.case(st, v, up, site)
            return [(st, r)]
        if v[0] == "C":
            m = v[1]
            m = (m & ~L | (U if m & L else 0)) if up else (m & ~U | (L if m & U else 0))
            t = None if v[4] is None else v[4].upper() if up else v[4].lower()
            return [(st, ("C", m, changed(v[2]), None, t))]
        raise Unknown("letter case of %s" % v[0])

    def append(self, st, ptr, s, site, r=UNIT):
        k = self.cell(st, ptr)
        old = self.text(st, k)
        # names may be renamed while the new text is named: keep both within reach
        st.env["app", site] = ("A", "tuple", 0, (old, s))
        n = st.fresh("a" + site)
        old, s = st.env.pop(("app", site))[3]
        v = self.cat(st, [old, s], None)
        if v is not old and v is not s:
            v = v[:7] + (n,)
        self.put(st, k, v)
        return [(st, r)]

    def f_push_str(self, st, c, args, site, dty):
        k = self.cell(st, args[0])
        if self.get(st, k)[0] == "V":
            return self.f_push(st, c, args, site, dty)
        return self.append(st, args[0], self.text(st, args[1]), site)

    def f_push(self, st, c, args, site, dty):
        k = self.cell(st, args[0])
        v = self.get(st, k)
        if v[0] == "V":
            x = self.load(st, args[1])
            kind = "c" if x[0] == "C" else "s"
            if v[3] not in (None, kind):
                raise Unknown("a mixed list")
            s = self.text(st, x)
            st.env["app", site] = ("A", "tuple", 0, (v[1], s))
            n = st.fresh("v" + site)
            old, s = st.env.pop(("app", site))[3]
            r = self.cat(st, [old, s], None)
            if r is not old and r is not s:
                r = r[:7] + (n,)
            self.put(st, k, ("V", r, "n", kind))
            return [(st, UNIT)]
        return self.append(st, args[0], self.text(st, args[1]), site)

    def f_write_str(self, st, c, args, site, dty):
        return self.append(st, args[0], self.text(st, args[1]), site, ("A", "Result", 0, (UNIT,)))

    f_write_char = f_write_str

    def f_insert(self, st, c, args, site, dty):
        if self.load(st, args[1]) != ("I", 0):
            raise Unknown("insertion")
        k = self.cell(st, args[0])
        self.put(st, k, self.cat(st, [self.text(st, args[2]), self.text(st, k)], None))
        return [(st, UNIT)]

    f_insert_str = f_insert

    def f_add(self, st, c, args, site, dty):
        a = self.load(st, args[0])
        if isS(a):
            st.env["app", site] = ("A", "tuple", 0, (a, self.text(st, args[1])))
            n = st.fresh("a" + site)
            x, y = st.env.pop(("app", site))[3]
            v = self.cat(st, [x, y], None)
            return [(st, v if v is x or v is y else v[:7] + (n,))]
        return NotImplemented

    def f_add_assign(self, st, c, args, site, dty):
        if isS(self.load(st, args[0])):
            return self.append(st, args[0], self.text(st, args[1]), site)
        return NotImplemented

    def f_len(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "L":
            return [(st, ("I", len(v[1])))]
        if not isS(v):
            raise Unknown("length of %s" % v[0])
        if v[6] is not None and len(v[6]) == 1:
            return [(st, ("I", len(next(iter(v[6])))))]
        st.env["app", site] = v
        b = st.base(site, v)
        st.env.pop(("app", site))
        return [(st, ("I", end(b)))]

    def f_is_empty(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "V":
            return [(st, ("B", None if v[2] == "?" else v[2] == "e"))]
        if v[0] == "L":
            return [(st, ("B", not v[1]))]
        v = self.text(st, v)
        if v[2] != "?":
            return [(st, ("B", v[2] == "e"))]
        return [(st, ("B", ("empty", v[7], v)))]

    def f_eq(self, st, c, args, site, dty):
        a, b = self.load(st, args[0]), self.load(st, args[1])
        if a[0] == "C" and b[0] == "C":
            return [(st, self.char_eq(a, b))]
        if a[0] == "I" and b[0] == "I":
            return [(st, ("B", None) if None in (a[1], b[1]) else self.icmp(st, "Eq", a[1], b[1]))]
        if isS(a) and isS(b):
            return [(st, self.text_eq(a, b))]
        if a[0] == "A" and b[0] == "A" and a[1] == b[1] == "Option":
            if a[2] != b[2]:
                return [(st, FALSE)]
            if a[2] == 0:
                return [(st, TRUE)]
            return self.f_eq(st, c, [a[3][0], b[3][0]], site, dty)
        return [(st, ("B", None))]

    def f_ne(self, st, c, args, site, dty):
        return [(s, neg(v)) for s, v in self.f_eq(st, c, args, site, dty)]

    def text_eq(self, a, b):
        if b[6] is None or len(b[6]) != 1:
            a, b = b, a
        if b[6] is None or len(b[6]) != 1:
            return ("B", None)
        return self.member(a, b[6])

    def member(self, a, ws):
        ws = frozenset(x for x in ws if possible(a, x))
        if not ws:
            return FALSE
        if a[6] is not None and a[6] <= ws:
            return TRUE
        return ("B", ("in", a[7], ws))

    def f_contains(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "L":
            x = self.load(st, args[1])
            ws = [self.load(st, w) for w in v[1]]
            if isS(x) and all(isS(w) and w[6] is not None and len(w[6]) == 1 for w in ws):
                return [(st, self.member(x, frozenset().union(*[w[6] for w in ws]) if ws else frozenset()))]
            if x[0] == "C" and all(w[0] == "C" and w[4] is not None for w in ws):
                return [(st, ("B", None))]
            raise Unknown("membership")
        if isS(v):
            w = self.word_pattern(st, args[1])
            p = self.load(st, args[1])
            if w is None and isS(p) and p[6] is not None and len(p[6]) == 1 and next(iter(p[6])) not in ("", "_"):
                w = next(iter(p[6]))
            if w is not None:
                return [(st, FALSE if maskof(w) & ~(v[3] | v[4]) or v[2] == "e" else ("B", ("some", "has %s %s" % (v[7], w))))]
            m = self.charfn(st, args[1], site)
            return [(st, self.has(v, m))]
        if v[0] == "A" and "Range" in v[1]:
            x = self.load(st, args[1])
            a, b = v[3][0], v[3][1]
            if x[0] == "C" and a[0] == "C" and b[0] == "C":
                p, q = self.char_cmp("Ge", x, a), self.char_cmp("Le" if "Inclusive" in v[1] else "Lt", x, b)
                return [(st, both(p, q))]
        return NotImplemented

    def has(self, s, m):
        sure, may = m & 63, (m & 63) | (m >> 6)
        if not (s[3] | s[4]) & may:
            return FALSE
        if sure == may:
            if s[2] == "n" and not s[3] & ~sure:
                return TRUE
            return ("B", ("has", s[7], sure))
        return ("B", ("some", "has %s %d" % (s[7], m)))

    def f_starts_with(self, st, c, args, site, dty):
        s = self.text(st, args[0])
        pat = self.load(st, args[1])
        w = self.word_pattern(st, args[1])
        if w is not None:
            if s[2] == "e" or not cls(w[0]) & s[3] or maskof(w[1:]) & ~s[4]:
                return [(st, FALSE)]
            return [(st, ("B", ("some", "%s starts %s" % (site, w), s[7])))]
        if isS(pat) and pat[6] is not None and pat[6] != frozenset(("_",)):
            return [(st, ("B", None))]
        m = self.charfn(st, args[1], site)
        sure, may = m & 63, (m & 63) | (m >> 6)
        if not s[3] & may or s[2] == "e":
            return [(st, FALSE)]
        if sure == may or not s[3] & (may & ~sure):
            if s[2] == "n" and not s[3] & ~sure:
                return [(st, TRUE)]
            return [(st, ("B", ("first", s[7], sure)))]
        return [(st, ("B", ("some", "%s starts %d" % (site, m)) + ((s[7],) if not (m & 63 | m >> 6) & ~(U | L | D) else ())))]

    def f_ends_with(self, st, c, args, site, dty):
        s = self.text(st, args[0])
        w = self.word_pattern(st, args[1])
        have = s[3] | s[4]
        if w is not None:
            may = not maskof(w) & ~have
        else:
            m = w = self.charfn(st, args[1], site)
            may = have & (m & 63 | m >> 6)
        if s[2] == "e" or not may:
            return [(st, FALSE)]
        return [(st, ("B", ("some", "%s ends %s" % (site, w)) + ((s[7],) if isinstance(w, str) or not (w & 63 | w >> 6) & ~(U | L | D) else ())))]

    def f_eq_ignore_ascii_case(self, st, c, args, site, dty):
        self.text(st, args[0])
        return [(st, ("B", None))]

    f_is_char_boundary = f_eq_ignore_ascii_case

    def f_replace(self, st, c, args, site, dty):
        s = self.text(st, args[0])
        m = self.charfn(st, args[1], site)
        to = self.text(st, args[2])
        if m != US or to[6] is None or any(x.strip("_") for x in to[6]):
            raise Unknown("replacement")
        tm = 0 if to[6] == frozenset(("",)) else US
        first = s[3] | s[4] if not tm else s[3]
        n = st.fresh("r" + site)
        return [(st, S(changed(s[1]), "n" if s[2] == "n" and not (s[3] & US and not tm) else "?" if s[2] != "e" else "e",
                       first & ~US | (tm if (s[3] & US) else 0), s[4] & ~US | (tm if s[4] & US else 0), frozenset(), None, n))]

    def trim(self, st, args, site, start):
        s = self.text(st, args[0])
        w = self.word_pattern(st, args[1])
        if w is not None:
            return [(x, s if y is None else y) for x, y in self.without(st, s, w, site, start, False)]
        m = self.charfn(st, args[1], site)
        if m != US:
            raise Unknown("trimming letters")
        if not (s[3] | s[4]) & US:
            return [(st, s)]
        n = st.fresh("t" + site)
        first = (s[3] | s[4]) & ~US if start else s[3]
        return [(st, S(changed(s[1]), "?", first, s[4], frozenset(), None, n))]

    def word_pattern(self, st, a):
        """the one text a pattern stands for, if it holds a letter or a digit"""
        p = self.load(st, a)
        if isS(p) and p[6] is not None and len(p[6]) == 1:
            w = next(iter(p[6]))
            return w if w.strip("_") else None
        if p[0] == "C" and p[4] not in (None, "_"):
            return p[4]
        return None

    def without(self, st, s, w, site, start, once):
        """a text with w taken off one end: (state, None where it is not there)"""
        have = s[3] | s[4]
        if maskof(w) & ~have or s[2] == "e" or (start and not cls(w[0]) & s[3]):
            return [(st, None)]
        if s[6] is not None:
            raise Unknown("an affix of one of a list of texts")
        st.env["app", site] = s
        t = st.copy()
        b = self.base_of(t, s, site)
        q = t.fresh("x" + site)
        t.add_le(q, end(b), not start)
        if start:
            t.lo[q] = len(w)
        lo, hi = (q, end(b)) if start else (0, q)
        y = self.slice(t, b, lo, hi, site)
        st.env.pop(("app", site))
        t.env.pop(("app", site))
        t.vague |= {"affix " + site}
        return [(st, None), (t, y)]

    def f_strip_suffix(self, st, c, args, site, dty, start=False):
        w = self.word_pattern(st, args[1])
        if w is None:
            return NotImplemented
        return [(x, NONE if y is None else Some(y)) for x, y in self.without(st, self.text(st, args[0]), w, site, start, True)]

    def f_strip_prefix(self, st, c, args, site, dty):
        return self.f_strip_suffix(st, c, args, site, dty, True)

    def f_trim_start_matches(self, st, c, args, site, dty):
        return self.trim(st, args, site, True)

    def f_trim_end_matches(self, st, c, args, site, dty):
        return self.trim(st, args, site, False)

    def f_trim_matches(self, st, c, args, site, dty):
        return self.trim(st, args, site, True)

    # ---- slices
    def slice(self, st, b, lo, hi, site):
        """the stretch of a text between two positions"""
        s = st.bases[b]
        if lo == 0 and hi == end(b):
            return s
        first = s[3] if lo == 0 else (s[4] if st.low(lo) >= 1 else s[3] | s[4])
        rest = s[4] | (s[3] if st.low(lo) == 0 and lo != 0 else 0)
        empt = "n" if st.leq(lo, hi, True) else "e" if lo == hi else "?"
        if hi == end(b) and lo == 0:
            empt = s[2]
        n = st.fresh("p" + site)
        return S((("s", b, lo, hi, 0),), empt, first, rest, frozenset(), None, n)

    def f_index(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        r = self.load(st, args[1])
        if not isS(v):
            raise Unknown("index of %s" % v[0])
        if r[0] != "A":
            raise Unknown("index by %s" % r[0])
        return self.cut(st, v, r, site)

    def cut(self, st, v, r, site):
        st.env["app", site] = ("A", "tuple", 0, (v, r))
        b = self.base_of(st, v, site)
        v, r = st.env.pop(("app", site))[3]
        lo, hi = 0, end(b)
        k = r[1]
        if k == "Range":
            lo, hi = r[3][0][1], r[3][1][1]
        elif k == "RangeFrom":
            lo = r[3][0][1]
        elif k == "RangeTo":
            hi = r[3][0][1]
        elif k != "RangeFull":
            raise Unknown("index by %s" % k)
        if lo is None or hi is None:
            raise Unknown("a slice at an unknown position")
        ends = st.leq(hi, end(b))
        if not ends or not st.leq(lo, hi):
            if isinstance(lo, int) and lo >= 1 and v[2] != "e" and hi == end(b) and lo == 1 and st.low(end(b)) >= 1:
                pass
            else:
                if not all(isinstance(x, int) or st.tied(x, end(b)) for x in (lo, hi)):
                    raise Unknown("a slice at positions not known to be of the text")
                if st.doubtful():
                    raise Unknown("a slice behind a condition that is not known")
                self.panics.append("a slice between positions that may be out of order")
        st.env["app", site] = v
        x = self.slice(st, b, lo, hi, site)
        st.env.pop(("app", site))
        return [(st, x)]

    def base_of(self, st, v, site):
        """the text whose positions count the characters of v"""
        c = v[1]
        if v[7] is not None and isinstance(v[7], str) and v[7].startswith("\x01X"):
            return v[7]
        return st.base(site, v)

    def f_split_at(self, st, c, args, site, dty):
        v = self.text(st, args[0])
        i = self.load(st, args[1])
        out = []
        (s, a), = self.cut(st, v, ("A", "RangeTo", 0, (i,)), site + "a")
        s.env["app2", site] = a
        (s, b), = self.cut(s, v, ("A", "RangeFrom", 0, (i,)), site + "b")
        a = s.env.pop(("app2", site))
        return [(s, ("A", "tuple", 0, (a, b)))]

    def f_find(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if isS(v):
            m = self.charfn(st, args[1], site)
            st.env["app", site] = v
            b = self.base_of(st, v, site)
            q = st.fresh("f" + site)
            v = st.env.pop(("app", site))
            none = self.assume(st, self.has(v, m)[1], False)
            out = []
            some = self.assume(st, self.has(v, m)[1], True)
            if some is not None:
                some.add_le(q, end(b), True)
                if not v[3] & (m & 63 | m >> 6):
                    some.lo[q] = 1
                out.append((some, Some(("I", q))))
            if none is not None:
                out.append((none, NONE))
            return out
        return self.f_any(st, c, args, site, dty, "find")

    # ---- iterators over texts
    def positions(self, st, args, site):
        v = self.load(st, args[0])
        if v[0] == "V" and v[3] in ("c", None):
            v = v[1]
        v = self.text(st, v)
        st.env["app", site] = v
        b = self.base_of(st, v, site)
        st.env.pop(("app", site))
        return b

    def f_chars(self, st, c, args, site, dty):
        return [(st, ("T", "chars", self.positions(st, args, site), 0))]

    def f_char_indices(self, st, c, args, site, dty):
        return [(st, ("T", "char_indices", self.positions(st, args, site), 0))]

    def f_split(self, st, c, args, site, dty):
        m = self.charfn(st, args[1], site)
        return [(st, ("T", "split", self.positions(st, args, site), 0, m, False))]

    def f_splitn(self, st, c, args, site, dty):
        (st, t), = self.f_split(st, c, [args[0], args[2]], site, dty)
        return [(st, ("A", "models::SplitN", 0, (t, args[1])))]

    def f_split_inclusive(self, st, c, args, site, dty):
        m = self.charfn(st, args[1], site)
        return [(st, ("T", "split_inclusive", self.positions(st, args, site), 0, m))]

    def f_match_indices(self, st, c, args, site, dty):
        m = self.charfn(st, args[1], site)
        return [(st, ("T", "match_indices", self.positions(st, args, site), 0, m))]

    def f_iter(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "L":
            return [(st, ("T", "list", v[1], ("at", 0)))]
        if v[0] == "V" and v[3] == "c":
            return self.f_chars(st, c, args, site, dty)
        raise Unknown("iteration over %s" % v[0])

    def f_into_iter(self, st, c, args, site, dty):
        v = args[0]
        if v[0] == "R":
            w = self.load(st, v)
            if w[0] in ("L", "V"):
                return self.f_iter(st, c, args, site, dty)
            return [(st, v)]
        if v[0] in ("L", "V"):
            return self.f_iter(st, c, args, site, dty)
        return [(st, v)]

    def adapter(self, n, extra=()):
        def f(st, c, args, site, dty):
            return [(st, ("A", "models::" + n, 0, tuple(args) + tuple(extra)))]
        return f

    def f_map(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "Option":
            if v[2] == 0:
                return [(st, NONE)]
            return [(s, Some(x)) for s, x in self.apply(st, args[1], [v[3][0]], site)]
        return self.adapter("Map")(st, c, args, site, dty)

    def f_enumerate(self, st, c, args, site, dty):
        return self.adapter("Enumerate", (("I", 0),))(st, c, args, site, dty)

    def f_filter(self, st, c, args, site, dty):
        return self.adapter("Filter")(st, c, args, site, dty)

    def f_peekable(self, st, c, args, site, dty):
        return self.adapter("Peekable", (NONE,))(st, c, args, site, dty)

    def f_peek(self, st, c, args, site, dty):
        return self.run_model(st, "Peekable_peek", args, site)

    def f_chain(self, st, c, args, site, dty):
        b = self.f_into_iter(st, c, [args[1]], site, dty)[0][1]
        return [(st, ("A", "models::Chain", 0, (Some(args[0]), b)))]

    def f_skip(self, st, c, args, site, dty):
        return self.adapter("Skip")(st, c, args, site, dty)

    def f_once(self, st, c, args, site, dty):
        return [(st, ("A", "models::Once", 0, (Some(args[0]),)))]

    def f_flat_map(self, st, c, args, site, dty):
        return self.adapter("FlatMap", (NONE,))(st, c, args, site, dty)

    def f_filter_map(self, st, c, args, site, dty):
        return self.adapter("FilterMap")(st, c, args, site, dty)

    def f_zip(self, st, c, args, site, dty):
        return self.adapter("Zip")(st, c, args, site, dty)

    def f_next(self, st, c, args, site, dty):
        k = self.cell(st, args[0])
        it = self.get(st, k)
        if it[0] == "A" and it[1] in ("models::Take", "models::SplitN"):
            n = it[3][1][1]
            if not isinstance(n, int) or n > 12:
                raise Unknown("a number of pieces")
            if n == 0:
                return [(st, NONE)]
            inner = k[:3] + (k[3] + (0,),)
            if it[1] == "models::SplitN" and n == 1:
                t = it[3][0]
                if t[5]:
                    return [(st, NONE)]
                piece = self.slice(st, t[2], t[3], end(t[2]), site + "l")
                t = self.get(st, inner)
                self.put(st, inner, t[:3] + (end(t[2]), t[4], True))
                return [(st, Some(piece))]
            out = []
            for s, v in self.f_next(st, c, [inner], site, dty):
                if v[0] != "A" or v[2] == 1:
                    self.put(s, k[:3] + (k[3] + (1,),), ("I", n - 1))
                out.append((s, v))
            return out
        if it[0] == "A" and it[1].startswith("models::"):
            return self.run_model(st, it[1][8:] + "_next", [k], site)
        if it[0] != "T":
            raise Unknown("next of %s" % (it[1] if it[0] == "A" else it[0]))
        kind = it[1]
        if kind == "list":
            i = it[3][1]
            if i >= len(it[2]):
                return [(st, NONE)]
            self.put(st, k, ("T", "list", it[2], ("at", i + 1)))
            return [(st, Some(it[2][i]))]
        b = it[2]
        base = st.bases[b]
        cur = it[3]
        out = []
        # the end
        if kind != "split":
            s = st.copy()
            if kind in ("chars", "char_indices", "split_inclusive"):
                ok = not (base[2] == "n" and cur == 0) and s.equate_end(b, cur)
            else:
                ok = True
            if ok:
                out.append((s, NONE))
        elif it[5]:
            return [(st, NONE)]
        # one more
        if base[2] == "e" and kind != "split":
            return out
        if kind in ("chars", "char_indices"):
            s = st.copy()
            if cur == 0:
                s.nonempty(b)
            q = s.fresh("q" + site)
            it = self.get(s, k)
            cur = it[3]
            base = s.bases[b]
            m = base[3] if cur == 0 else base[4] if s.low(cur) >= 1 else base[3] | base[4]
            if cur == end(b) or not m:
                return out
            s.add_le(cur, q, True)
            s.add_le(q, end(b))
            s.lo[q] = max(1, s.low(cur) + 1) if isinstance(cur, int) or s.low(cur) else 1
            self.put(s, k, ("T", kind, b, q))
            ch = ("C", m, (("s", b, cur, q, 0),), q, None)
            out.append((s, Some(ch if kind == "chars" else ("A", "tuple", 0, (("I", cur), ch)))))
            return out
        m = it[4]
        sure, may = m & 63, (m & 63) | (m >> 6)
        there = (base[3] | base[4]) & may
        if kind == "match_indices":
            if not there:
                return out
            s = st.copy()
            s.nonempty(b)
            q = s.fresh("q" + site)
            e = s.fresh("e" + site)
            it = self.get(s, k)
            cur = it[3]
            s.add_le(cur, q)
            s.add_le(q, e, True)
            s.add_le(q, end(b), True)
            s.add_le(e, end(b))
            s.lo[e] = 1
            if cur == 0 and not s.bases[b][3] & may:
                s.lo[q] = 1
            if s.low(cur) > 0:
                s.lo[q] = s.low(cur)
            self.put(s, k, ("T", kind, b, e, m))
            piece = S((("s", b, q, e, 0),), "n", there, 0)
            out.append((s, Some(("A", "tuple", 0, (("I", q), piece)))))
            return out
        if kind == "split_inclusive":
            s = st.copy()
            if cur == end(b):
                return out
            s.nonempty(b) if cur == 0 else None
            q = s.fresh("q" + site)
            cur = self.get(s, k)[3]
            s.add_le(cur, q, True)
            s.add_le(q, end(b))
            s.lo[q] = 1
            self.put(s, k, ("T", kind, b, q, m))
            piece = self.slice(s, b, cur, q, site)
            out.append((s, Some(piece[:2] + ("n",) + piece[3:])))
            return out
        if kind == "split":
            # up to a separator, or the rest
            if there:
                s = st.copy()
                q = s.fresh("q" + site)
                cur = self.get(s, k)[3]
                s.add_le(cur, q)
                s.add_le(q, end(b), True)
                piece = self.slice(s, b, cur, q, site)
                piece = S(changed(piece[1]), piece[2], piece[3] & ~sure, piece[4] & ~sure, piece[5], None, piece[7])
                if m == US:
                    nxt = q          # what is skipped is an underscore
                else:
                    s.env["piece", site] = piece
                    nxt = s.fresh("e" + site)
                    piece = s.env.pop(("piece", site))
                    s.add_le(q, nxt, True)
                    s.add_le(nxt, end(b))
                self.put(s, k, ("T", kind, b, nxt, m, False))
                out.append((s, Some(piece)))
            s = st.copy()
            cur = self.get(s, k)[3]
            piece = self.slice(s, b, cur, end(b), site + "l")
            if piece is not s.bases[b] or there:
                piece = S(changed(piece[1]) if cur != 0 else piece[1], piece[2] if cur == 0 else "?", piece[3] & ~sure, piece[4] & ~sure, frozenset(), None, s.fresh("z" + site))
                if piece[2] == "n" and not piece[3]:
                    return out
            self.put(s, k, ("T", kind, b, end(b), m, True))
            out.append((s, Some(piece)))
            return out
        raise Unknown("next of %s" % kind)

    # ---- whole iterations
    def owned(self, st, v, site):
        """an iterator by value"""
        return v

    def f_fold(self, st, c, args, site, dty):
        return self.run_model(st, "fold", args, site)

    def f_for_each(self, st, c, args, site, dty):
        return self.run_model(st, "for_each", args, site)

    def f_any(self, st, c, args, site, dty, n=None):
        n = n or "any"
        a0 = args[0]
        if a0[0] != "R":
            st.env["it", site] = a0
            a0 = ("R", "it", site, ())
        out = []
        for s, v in self.run_model(st, n, [a0, args[1]], site):
            s.env.pop(("it", site), None)
            out.append((s, v))
        return out

    def f_all(self, st, c, args, site, dty):
        return self.f_any(st, c, args, site, dty, "all")

    def f_collect(self, st, c, args, site, dty):
        p = dty.p if dty is not None else None
        it = args[0]
        if p == "std::string::String":
            return self.run_model(st, "collect_concat_str", [it], site)
        if p == "std::vec::Vec":
            return self.run_model(st, "collect_vec", [it], site)
        return NotImplemented

    def f_extend(self, st, c, args, site, dty):
        it = self.f_into_iter(st, c, [args[1]], site, dty)[0][1]
        return self.run_model(st, "extend_string_str", [args[0], it], site)

    def f_concat(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "V":
            return [(st, v[1])]
        if v[0] == "L":
            return [(st, self.cat(st, [self.text(st, x) for x in v[1]], site))]
        return NotImplemented

    def f_join(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        sep = self.text(st, args[1])
        if v[0] != "V" or sep[6] is None or any(x.strip("_") for x in sep[6]):
            raise Unknown("join")
        s = v[1]
        if sep[6] == frozenset(("",)):
            return [(st, s)]
        n = st.fresh("j" + site)
        return [(st, S(changed(s[1]), "?", s[3] | s[4] | US, s[3] | s[4] | US, frozenset(), None, n))]

    # ---- characters
    def charclass(self, st, args, m, maybe=0):
        v = self.load(st, args[0])
        if v[0] != "C":
            raise Unknown("class of %s" % v[0])
        if v[4] is not None:
            return [(st, ("B", bool(cls(v[4]) & m)) if not cls(v[4]) & maybe else ("B", None))]
        if v[1] & maybe:
            return [(st, ("B", None))]
        return [(st, self.char_cls(v, m))]

    def f_is_uppercase(self, st, c, args, site, dty):
        return self.charclass(st, args, U, N)

    def f_is_lowercase(self, st, c, args, site, dty):
        return self.charclass(st, args, L, N)

    def f_is_alphabetic(self, st, c, args, site, dty):
        return self.charclass(st, args, U | L, N)

    def f_is_numeric(self, st, c, args, site, dty):
        return self.charclass(st, args, D, N)

    def f_is_alphanumeric(self, st, c, args, site, dty):
        return self.charclass(st, args, U | L | D, N)

    def f_is_ascii_uppercase(self, st, c, args, site, dty):
        return self.charclass(st, args, U)

    def f_is_ascii_lowercase(self, st, c, args, site, dty):
        return self.charclass(st, args, L)

    def f_is_ascii_alphabetic(self, st, c, args, site, dty):
        return self.charclass(st, args, U | L)

    def f_is_ascii_digit(self, st, c, args, site, dty):
        return self.charclass(st, args, D)

    def f_is_ascii_alphanumeric(self, st, c, args, site, dty):
        return self.charclass(st, args, U | L | D)

    def f_is_ascii(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "C":
            return self.charclass(st, args, 31)
        return [(st, TRUE if not (v[3] | v[4]) & N else ("B", None))]

    def f_is_digit(self, st, c, args, site, dty):
        if self.load(st, args[1]) == ("I", 10):
            return self.charclass(st, args, D)
        return NotImplemented

    def f_is_ascii_punctuation(self, st, c, args, site, dty):
        return self.charclass(st, args, US, O)

    def f_len_utf8(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        return [(st, ("I", 1 if not v[1] & N else None))]

    # ---- options
    def f_unwrap_or(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "Option":
            return [(st, v[3][0] if v[2] == 1 else args[1])]
        return NotImplemented

    def f_unwrap_or_default(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "Option":
            if v[2] == 1:
                return [(st, v[3][0])]
            if dty is not None and dty.p == "std::string::String":
                return [(st, EMPTY)]
        return NotImplemented

    def f_unwrap_or_else(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "Option":
            return [(st, v[3][0])] if v[2] == 1 else self.apply(st, args[1], [], site)
        return NotImplemented

    def option_test(self, st, args, want, site):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "Option":
            if len(args) == 1:
                return [(st, ("B", (v[2] == 1) == want))]
            if v[2] == 0:
                return [(st, ("B", not want))]
            return self.apply(st, args[1], [v[3][0]], site)
        return NotImplemented

    def f_is_some(self, st, c, args, site, dty):
        return self.option_test(st, args, True, site)

    def f_is_none(self, st, c, args, site, dty):
        return self.option_test(st, args, False, site)

    def f_is_some_and(self, st, c, args, site, dty):
        return self.option_test(st, args, True, site)

    def f_is_none_or(self, st, c, args, site, dty):
        return self.option_test(st, args, False, site)

    def f_map_or(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "Option":
            return self.apply(st, args[2], [v[3][0]], site) if v[2] == 1 else [(st, args[1])]
        return NotImplemented

    def f_map_or_else(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "Option":
            return self.apply(st, args[2], [v[3][0]], site) if v[2] == 1 else self.apply(st, args[1], [], site)
        return NotImplemented

    def f_unwrap(self, st, c, args, site, dty):
        v = self.load(st, args[0])
        if v[0] == "A" and v[1] == "Option":
            if v[2] == 1:
                return [(st, v[3][0])]
            if st.doubtful():
                raise Unknown("an unwrap behind a condition that is not known")
            self.panics.append("unwrap of nothing")
            return []
        if v[0] == "A" and v[1] == "Result" and v[2] == 0:
            return [(st, v[3][0])]
        return NotImplemented

    f_expect = f_unwrap

    def f_take(self, st, c, args, site, dty):
        k = args[0]
        if k[0] == "R":
            v = self.get(st, k)
            if v[0] == "A" and v[1] == "Option":
                self.put(st, k, NONE)
                return [(st, v)]
            if isS(v):
                self.put(st, k, EMPTY)
                return [(st, v)]
        if k[0] in ("A", "T") and len(args) == 2:
            return self.adapter("Take")(st, c, args, site, dty)
        return NotImplemented

    def f_replace_(self, *a):
        return NotImplemented


def equate_end(self, b, cur):
    """the position turns out to be the end of the text"""
    if cur == end(b):
        return True
    if cur == 0:
        s = self.bases[b]
        if s[2] == "n":
            return False
        c = s[1]
        self.mark_empty(s)
        if b.startswith("\x01X"):
            self.void |= {b}
        return True
    if self.leq(cur, end(b), True):
        return False
    self.rename({cur: end(b)})
    return True


def nonempty(self, b):
    s = self.bases[b]
    if s[2] == "?":
        if s[7] is not None:
            self.refine(s[7], lambda x: x[:2] + ("n",) + x[3:] if x[2] == "?" else x)
        self.bases[b] = self.bases[b][:2] + ("n",) + self.bases[b][3:]


State.equate_end = equate_end
State.nonempty = nonempty


def char(ch):
    return ("C", cls(ch), (("c", ch),), None, ch)


def neg(v):
    if v[1] is None:
        return v
    if isinstance(v[1], bool):
        return ("B", not v[1])
    if v[1][0] == "not":
        return ("B", v[1][1])
    return ("B", ("not", v[1]))


def both(p, q):
    if p is False or q is False:
        return FALSE
    if p is True:
        return ("B", q)
    if q is True:
        return ("B", p)
    if p is None or q is None:
        return ("B", None)
    if p[0] == q[0] == "cls" and p[1] == q[1]:
        m = p[2] & q[2]
        return ("B", ("cls", p[1], m)) if m else FALSE
    return ("B", ("and", p, q))


def possible(s, x):
    """may a text be this word"""
    if s[6] is not None and x not in s[6]:
        return False
    if x in s[5]:
        return False
    if not x:
        return s[2] != "n"
    if s[2] == "e":
        return False
    return bool(cls(x[0]) & s[3]) and not maskof(x[1:]) & ~s[4]


def mask1(e):
    m = 0
    for x in e:
        if x:
            m |= cls(x[0])
    return m


def maskr(e):
    m = 0
    for x in e:
        m |= maskof(x[1:])
    return m


def filt(e, f):
    return None if e is None else frozenset(x for x in e if f(x))


# ----------------------------------------------------------------- joins
def shape(v):
    k = v[0]
    if k == "A" and v[1] in ("models::Take", "models::SplitN"):
        return (v[1], v[3][1][1], shape(v[3][0]))
    if k == "A":
        return (v[1], v[2]) + tuple(shape(x) for x in v[3])
    if k == "I":
        return ("I", "z" if v[1] == 0 and v[1] is not False else "n" if isinstance(v[1], (int, str)) else "?")
    if k == "S":
        return ("S", v[2] == "e")
    if k == "T":
        if v[1] == "list":
            return ("T", "list", v[3])
        return ("T", v[1], v[2], v[3] == 0, v[3] == end(v[2])) + v[5:]
    if k == "V":
        return ("V", v[2] == "e", v[3])
    if k == "B":
        return ("B", v[1] if isinstance(v[1], bool) else None)
    if k == "F":
        return ("F",) + tuple(shape(x) for x in v[2])
    if k == "R":
        return v
    return (k,)


def positions_of(v, path, out):
    """the positions a value holds, in a fixed order"""
    k = v[0] if isinstance(v, tuple) and v else None
    if k == "I":
        out.append((path, v[1]))
    elif k == "T" and v[1] != "list":
        out.append((path, v[3]))
    elif k == "A":
        for i, x in enumerate(v[3]):
            positions_of(x, path + (i,), out)
    elif k == "F":
        for i, x in enumerate(v[2]):
            positions_of(x, path + (i,), out)


def join(old, new, site):
    old, new = old.copy(), new.copy()
    mark = "\x01φ%s@" % site
    # what the new state calls by the names of this join is of the round before
    m = {}
    for x in new.uses():
        if x.startswith(mark):
            m[x] = x + "'"
    for a in sorted(m, key=len, reverse=True):
        new.rename({a: m[a]})
    pairs = {}
    keys = [k for k in sorted(old.env, key=repr) if k in new.env]
    for k in keys:
        a, b = [], []
        positions_of(old.env[k], (), a)
        positions_of(new.env[k], (), b)
        if [p for p, _ in a] != [p for p, _ in b]:
            continue
        for (p, x), (_, y) in zip(a, b):
            if x == y or x is None or y is None:
                continue
            if (x, y) not in pairs:
                pairs[x, y] = mark + "%s.%s.%s" % (k[0], k[1], "-".join(map(str, p)))
    out = State()
    J = Joiner(old, new, pairs, mark)
    for k in keys:
        J.loc = "%s.%s" % k
        out.env[k] = J.value(old.env[k], new.env[k])
    todo = True
    seen = set()
    while todo:
        todo = False
        for b in list(ids_of(tuple(out.env.values()) + tuple(out.bases.values()), set())):
            b = b[1:] if b[:1] == "$" else b
            if b in seen:
                continue
            if b in old.bases and b in new.bases:
                seen.add(b)
                J.loc = "b" + b
                out.bases[b] = J.value(old.bases[b], new.bases[b])
                todo = True
    # the order that holds on both sides
    sides = {}
    for (x, y), p in pairs.items():
        sides[p] = (x, y)
    known = set(x for st in (old, new) for e in st.le for x in e[:2]) | set(old.lo) | set(new.lo) | set(x for p in pairs for x in p)
    ends = {end(b) for b in out.bases}
    ids = {x for x in out.uses() if x in known} | set(sides) | ends | {0, 1}
    for i in ids:
        sides.setdefault(i, (i, i))
    le = set()
    for i in ids:
        for j in ids:
            if i != j and isinstance(j, str) or isinstance(i, str) and i != j:
                (a1, a2), (b1, b2) = sides[i], sides[j]
                if old.leq(a1, b1) and new.leq(a2, b2):
                    le.add((i, j, old.leq(a1, b1, True) and new.leq(a2, b2, True)))
    out.le = frozenset(le)
    for i in ids:
        if isinstance(i, str):
            n = min(old.low(sides[i][0]), new.low(sides[i][1]))
            if n:
                out.lo[i] = min(n, 3)
    out.void = old.void & new.void
    out.vague = old.vague | new.vague
    out.words = {b: w for b, w in old.words.items() if new.words.get(b) == w}
    out.gc()
    return out


class Joiner:
    def __init__(self, old, new, pairs, mark):
        self.old, self.new, self.pairs, self.mark = old, new, pairs, mark
        self.loc = ""
        self.sids = {}          # the same two texts make the same one

    def pos(self, x, y):
        return x if x == y else self.pairs.get((x, y))

    def value(self, a, b):
        if a == b:
            return a
        if a[0] != b[0]:
            return O_
        k = a[0]
        if k == "I":
            return ("I", self.pos(a[1], b[1]) if None not in (a[1], b[1]) else None)
        if k == "C":
            return ("C", a[1] | b[1], self.content(a[2], b[2]), a[3] if a[3] == b[3] else None, a[4] if a[4] == b[4] else None)
        if k == "B":
            return ("B", None)
        if k == "S":
            return self.text(a, b)
        if k == "A" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            return a[:3] + (tuple(self.value(x, y) for x, y in zip(a[3], b[3])),)
        if k == "F" and a[1] == b[1]:
            return a[:2] + (tuple(self.value(x, y) for x, y in zip(a[2], b[2])),)
        if k == "T" and a[1:3] == b[1:3] and a[4:] == b[4:]:
            p = self.pos(a[3], b[3])
            if p is None:
                return O_
            return a[:3] + (p,) + a[4:]
        if k == "V" and a[3] == b[3]:
            return ("V", self.text(a[1], b[1]), a[2] if a[2] == b[2] else "?", a[3])
        return O_

    def text(self, a, b):
        if a == b:
            return a
        c = self.content(a[1], b[1])
        empt = a[2] if a[2] == b[2] else "?"
        ex = a[6] | b[6] if a[6] is not None and b[6] is not None and len(a[6] | b[6]) < 200 else None
        no = frozenset(x for x in a[5] | b[5] if not possible(a, x) and not possible(b, x))
        if a[7] == b[7]:
            sid = a[7]
        else:
            sid = self.mark + "t" + self.loc
            if a[7] is not None and b[7] is not None:
                sid = self.sids.setdefault((a[7], b[7]), sid)
        return S(c, empt, a[3] | b[3], a[4] | b[4], no, ex, sid)

    def content(self, a, b):
        if a is None or b is None:
            return None
        x, y = self.old.norm(a), self.new.norm(b)
        if x is None or y is None:
            return None
        if x == y:
            return a if a == b else x
        # the stretch grows with a position
        t = lambda c: tuple(e if e[0] == "c" else e[:4] + (1,) for e in c)
        for (p, q), phi in sorted(self.pairs.items(), key=lambda e: e[1]):
            cand = subst(y, {q: phi}) if isinstance(q, str) else None
            if cand is None or cand == y:
                continue
            back = self.old.norm(subst(cand, {phi: p}))
            if back == x:
                return cand
            if back is not None and t(back) == t(x):
                return t(cand)
        if t(x) == t(y):
            return t(x)
        return self.aligned(x, y)

    def aligned(self, x, y):
        """stretch by stretch, with positions of their own; one that is missing
        is taken for one without length"""
        def like(a, b):
            return a == b if a[0] == "c" or b[0] == "c" else a[1] == b[1]
        n, m = len(x), len(y)
        if max(n, m) > 4:
            return None
        if n < m:
            gaps = [i for i in range(m) if m - n == 1 and y[i][0] == "s" and all(like(a, b) for a, b in zip(x, y[:i] + y[i + 1:]))]
            if not gaps:
                return None
            best = max(gaps, key=lambda i: sum(a == b for a, b in zip(x, y[:i] + y[i + 1:])))
            x = x[:best] + (("s", y[best][1], 0, 0, 0),) + x[best:]
        elif m < n:
            gaps = [i for i in range(n) if n - m == 1 and x[i][0] == "s" and all(like(a, b) for a, b in zip(x[:i] + x[i + 1:], y))]
            if not gaps:
                return None
            best = max(gaps, key=lambda i: sum(a == b for a, b in zip(x[:i] + x[i + 1:], y)))
            y = y[:best] + (("s", x[best][1], 0, 0, 0),) + y[best:]
        elif not all(like(a, b) for a, b in zip(x, y)):
            return None
        out = []
        for i, (a, b) in enumerate(zip(x, y)):
            if a[0] == "c":
                out.append(a)
                continue
            ps = []
            for p, q, k in ((a[2], b[2], "l"), (a[3], b[3], "h")):
                if p != q:
                    if (p, q) not in self.pairs:
                        self.pairs[p, q] = self.mark + "%s≈%d%s" % (self.loc, i, k)
                    p = self.pairs[p, q]
                ps.append(p)
            out.append(("s", a[1], ps[0], ps[1], max(a[4], b[4])))
        return tuple(out)


class Info:
    """loop heads and live locals of a body"""

    def __init__(self, b):
        n = len(b["blocks"])
        succ = [succs(bl["t"]) for bl in b["blocks"]]
        self.heads = set()
        color = [0] * n
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            x, it = stack[-1]
            y = next(it, None)
            if y is None:
                color[x] = 2
                stack.pop()
            elif color[y] == 0:
                color[y] = 1
                stack.append((y, iter(succ[y])))
            elif color[y] == 1:
                self.heads.add(y)
        self.taken = set()
        gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]
        for i, bl in enumerate(b["blocks"]):
            def use(l):
                if l not in kill[i]:
                    gen[i].add(l)
            for s in bl["s"]:
                if s[0] == "=":
                    locs_r(s[2], use, self.taken)
                    if s[1][1]:
                        use(s[1][0])
                    else:
                        kill[i].add(s[1][0])
            t = bl["t"]
            if t[0] == "call":
                locs_r(t[1], use, self.taken)
                for a in t[2]:
                    locs_r(a, use, self.taken)
                if t[3][1]:
                    use(t[3][0])
                else:
                    kill[i].add(t[3][0])
            elif t[0] in ("switch", "assert"):
                locs_r(t[1], use, self.taken)
            elif t[0] == "ret":
                use(0)
        self.live = [set() for _ in range(n)]
        again = True
        while again:
            again = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= self.live[s]
                l = gen[i] | (o - kill[i])
                if l != self.live[i]:
                    self.live[i] = l
                    again = True


def succs(t):
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "drop":
        return [t[2]]
    if t[0] == "switch":
        return [k for _, k in t[3]] + [t[4]]
    if t[0] == "call":
        return [t[4]] if t[4] is not None and t[4] >= 0 else []
    if t[0] == "assert":
        return [x for x in t[3:] if isinstance(x, int) and not isinstance(x, bool)][:1]
    return []


def locs_r(r, use, taken):
    """the locals an rvalue or operand mentions"""
    if not isinstance(r, list):
        return
    if r and r[0] in ("cp", "mv"):
        use(r[1][0])
        return
    if r and r[0] == "k":
        return
    if r and r[0] == "ref":
        use(r[2][0])
        if not any(p[0] == "*" for p in r[2][1]):
            taken.add(r[2][0])
        return
    if r and r[0] in ("disc", "len"):
        use(r[1][0])
        return
    for x in r:
        locs_r(x, use, taken)


# ----------------------------------------------------------------- the properties
X = "\x01X"
WHOLE = (("s", X, 0, end(X), 0),)


def words_ok(w):
    """a word as an identifier; None or what is wrong"""
    raw = w.startswith("r#")
    t = w[2:] if raw else w
    if not t:
        return "is empty"
    if t == "_":
        return "is `%s`" % w
    if not (t[0] == "_" or t[0].isascii() and t[0].isalpha()) or not all(ch == "_" or ch.isascii() and ch.isalnum() for ch in t):
        return "is `%s`" % w
    if raw and t in NOTRAW:
        return "is `r#%s`, which Rust does not allow" % t
    if not raw and t in KEYWORDS:
        return "is the keyword `%s`" % t
    return None


def invalid(s):
    if s[6] is not None:
        for w in sorted(s[6], key=repr):
            r = words_ok(w)
            if r:
                return r
        return None
    if s[2] != "n":
        return "may be empty"
    if s[1] and s[1][0] == ("c", "r#"):
        raise Unknown("`r#` before names that are not listed")
    if s[3] & D:
        return "may begin with a digit"
    if s[3] & ~WORD or s[4] & ~WORD:
        return "may hold a character identifiers do not have"
    if possible(s, "_"):
        return "may be `_`"
    k = [w for w in sorted(KEYWORDS) if possible(s, w)]
    if k:
        return "may be the keyword `%s`" % k[0]
    return None


class NameCheck:
    """identifiers made by a shape (a composition of the generator's functions on names)"""

    def __init__(self, D, W, bodies):
        """bodies: path -> body of the functions on names"""
        from .engine import Interp, strip, isQ
        self.strip, self.isQ = strip, isQ
        self.D, self.W, self.bodies = D, W, bodies
        self.ip = Interp([D, W])
        self.n = Names(D, W, self.const)
        self.cache = {}

    def const(self, D, bid):
        return self.conv(self.ip.eval_const_body(D, bid))

    def conv(self, v):
        v0 = v
        v = self.strip(v)
        if self.isQ(v):
            if all(p[0] == "k" for p in v[1]):
                return const("".join(p[1] for p in v[1])) if v[1] else ("L", ())
            if all(p[0] == "u" for p in v[1]):
                return ("L", tuple(self.conv(p[1]) for p in v[1]))
        if hasattr(v, "isc") and v.isc():
            return ("I", v.c)
        if isinstance(v, tuple) and v and v[0] == "A" and v[1] == "tuple":
            return ("A", "tuple", 0, tuple(self.conv(x) for x in v[3]))
        if isinstance(v, tuple) and v and v[0] == "b" and isinstance(v[1], bool):
            return ("B", v[1])
        raise Unknown("constant %s" % (repr(v0)[:80],))

    def root(self):
        st = State()
        x = S(WHOLE, "n", U | L | US, WORD, frozenset(), None, X)
        st.bases[X] = x
        st.env["root", 0] = x
        return st, x

    def outcomes(self, q):
        """[(state, text)] of a shape"""
        if q in self.cache:
            return self.cache[q]
        outs = [(self.root()[0], EMPTY)]
        n = 0
        for p in q[1]:
            new = []
            for st, acc in outs:
                for s, t in self.part(st, p):
                    new.append((s, self.n.cat(s, [acc, t], "part%d" % n)))
            outs = new
            n += 1
        self.cache[q] = outs
        return outs

    def part(self, st, p):
        if p[0] == "k":
            return [(st, const(p[1]))]
        if p[0] != "s" or p[2] != 0 and not (hasattr(p[2], "isc") and p[2].isc() and p[2].c == 0):
            raise Unknown("a part of a name")
        t = p[1]
        if t[0] == "name":
            return [(st, st.bases[X])] if X in st.bases else [(st, self.root()[1])]
        if t[0] == "dec":
            return [(st, S((("c", "0"),), "n", D | (0 if t[1] else O), D, frozenset(), None, None))]
        if t[0] != "sf":
            raise Unknown("a name made of %s" % (t[0],))
        b = self.bodies.get(t[1])
        if b is None:
            raise Unknown("function %s" % t[1])
        out = []
        if len(t[2][1]) == 0:
            ins = [(self.root()[0], EMPTY)]
        else:
            ins = self.outcomes(t[2])
        for s, x in ins:
            s = s.copy()
            s.env["in", t[1]] = x
            for s2, v in self.n.call_body(s, b, [x], "f" + t[1]):
                s2.env.pop(("in", t[1]), None)
                if v[0] == "A" and v[1] == "Ident":
                    v = v[3][0]
                if not isS(v):
                    raise Unknown("%s yields no text" % t[1])
                out.append((s2, v))
        if not out:
            raise Unknown("%s never returns" % t[1])
        return out

    def valid(self, q):
        """what is wrong with identifiers of this shape, if anything"""
        vague = None
        for st, s in self.outcomes(q):
            r = invalid(s)
            if r and not st.doubtful():
                return r
            vague = vague or r
        if vague:
            raise Unknown("a condition that is not known may keep it from happening: %s" % vague)
        return None

    def spelling(self, role, q):
        vague, sure, lost = [], [], False
        for st, s in self.outcomes(q):
            bad = vague if st.doubtful() else sure
            c = s[1]
            if c and c[0][0] == "c" and c[0][1].startswith("r#"):
                c = (("c", c[0][1][2:]),) + c[1:]
            c, w = st.norm(c), st.norm(WHOLE)
            if c is None or st.blurred(c):
                lost = True
            elif tuple(a if a[0] == "c" else a[:4] for a in c) != tuple(a if a[0] == "c" else a[:4] for a in w):
                bad.append("loses, adds or reorders letters or digits of the name")
            elif role == "const" and any(a[0] == "s" and a[4] for a in c):
                bad.append("changes the letter case of a constant")
            if role == "field" and (s[3] | s[4]) & U and (s[6] is None or any(x != x.lower() for x in s[6])):
                bad.append("may hold a capital letter")
            if role in ("type", "variant") and s[3] & L and not (s[6] is not None and all(x.startswith("r#") and cls(x[2]) != L for x in s[6])):
                bad.append("may begin with a small letter")
        if lost and not sure:
            raise Unknown("what a name is made of")
        if vague and not sure:
            raise Unknown("a condition that is not known may keep it from happening: %s" % sorted(set(vague)))
        return sorted(set(sure))
