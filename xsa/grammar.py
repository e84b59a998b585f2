"""Parsers as grammars.

A parser function built from nom combinators is evaluated (engine.py, with the
combinators interpreted as grammar operators) to a parsing expression with the
value it yields; functions that sequence parsers by hand give the same
expressions, from the order of the attempts on their paths.  Expressions are
put in a normal form (rules inlined, sequences flattened, classes merged,
alternatives left-factored and, where they exclude each other, sorted), so
that they can be compared with a written grammar.

Parsing is that of nom's complete parsers: ordered choice, greedy repetition."""
import re
from .engine import *
from .engine import Callee, map_state
from . import models

ALPHA = frozenset(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
DIGIT = frozenset(map(ord, "0123456789"))
HEX = frozenset(map(ord, "0123456789abcdefABCDEF"))
OCT = frozenset(map(ord, "01234567"))
BLANK = frozenset(map(ord, " \t"))
SPACE = frozenset(map(ord, " \t\r\n"))
ALL = frozenset(range(128)) | {0xFFFF}          # 0xFFFF stands for every character outside ASCII
CLASSES = {"alpha": ALPHA, "alphanumeric": ALPHA | DIGIT, "digit": DIGIT, "hex_digit": HEX, "oct_digit": OCT,
           "bin_digit": frozenset(map(ord, "01")), "space": BLANK, "multispace": SPACE}


class Item:
    __slots__ = ("k", "id", "d", "tags")

    def __init__(self, k, id, d, tags=()):
        self.k, self.id, self.d, self.tags = k, id, d, tags

    def __repr__(self):
        return "%s%s" % (self.k, self.d)


class Exp:
    """items in sequence, and the value they yield (a term over item outputs)"""
    __slots__ = ("items", "value")

    def __init__(self, items, value=UNIT):
        self.items = list(items)
        self.value = value

    def __repr__(self):
        return "<%s => %r>" % (" ".join(map(repr, self.items)), self.value)


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


ids = Ids()


def out(i, ty=None):
    return Sym(("o", i), ty)


def item(k, d, tags=()):
    return Item(k, ids(), d, tags)


def text_of(items, ty=None):
    it = item("rec", Exp(items))
    return Exp([it], out(it.id, ty))


# ------------------------------------------------------------------ building
class Build(Interp):
    """evaluates parser functions to expressions"""

    def __init__(self, D, W):
        super().__init__([D, W])
        models.install(self, W)
        self.Dg = D
        self.models.update(NOM)
        self.pmodels[:0] = [(re.compile(r"^nom::"), m_nom)]
        self.stack_nt = []
        self.panics = []
        self.memo = {}
        self.tstr = next((D.ty(i) for i in range(len(D.j["types"])) if D.ty(i).k == "ref" and D.ty(i).sub().k == "str"), None)
        self.tries = {}
        self.nts = set()
        self.cuts = {}

    @staticmethod
    def tup(t):
        return [t.D.ty(x) for x in t.raw["ts"]]

    # parser values --------------------------------------------------------
    def rule(self, body):
        """expression of a parser function of the crate"""
        key = body["path"]
        self.nts.add(key)
        rty = body["D"].ty(body["locals"][0])
        oty = self.tup(rty.args()[0])[1]
        if key in self.stack_nt and (self.cut(key) or not any(self.cut(k) for k in self.stack_nt[self.stack_nt.index(key):])):
            it = item("ref", key)
            return Exp([it], out(it.id, oty))
        self.stack_nt.append(key)
        try:
            e = self.body(lambda ip, st: ip.exec_fn(st, body, [Sym(("in",), self.tstr)]), key)
        finally:
            self.stack_nt.pop()
        if mentions_ref(e, key):
            it = item("mu", (key, e))
            return Exp([it], out(it.id, oty))
        return e

    def cut(self, key):
        """recursion is cut at the rules that yield a type, wherever it was entered"""
        if key not in self.cuts:
            b = next(b for b in self.Dg.bodies.values() if b["path"] == key)
            self.cuts[key] = self.tup(b["D"].ty(b["locals"][0]).args()[0])[1].s.endswith("TypeSpecifier")
        return self.cuts[key]

    def body(self, run, what):
        """expression of code that tries parsers one after the other"""
        st = St()
        # the functions on the way here are being evaluated independently
        saved, self.stack = self.stack, []
        try:
            outs = run(self, st)
        finally:
            self.stack = saved
        paths = []
        for o in outs:
            if o[0] == "panic" or o[1] == "panic":
                raise Unknown("%s: a parser that may panic" % what)
            s = o[0] if isinstance(o[0], St) else o[1]
            v = strip(o[2])
            paths.append((s, v))
        return self.tree([(s.dec, s, v) for s, v in paths], 0, ("in",), what)

    def tree(self, paths, k, pos, what):
        """decision tree of parser attempts -> expression; pos: where the input stands"""
        if len(paths) == 1 and len(paths[0][0]) <= k:
            _, s, v = paths[0]
            if not isA(v, RESULT):
                raise Unknown("%s: result %r" % (what, v))
            if v[2] == 1:
                return Exp([item("fail", ())])
            t = strip(v[3][0])
            if not isA(t, "tuple") or len(t[3]) != 2:
                raise Unknown("%s: result %r" % (what, v))
            r = strip(t[3][0])
            if isQ(r) and len(r[1]) == 1 and r[1][0][0] == "s":
                r = Sym(r[1][0][1], None)
            if not isinstance(r, Sym) or r.term != pos:
                raise Unknown("%s: leaves the input at %r, not after what it parsed" % (what, r))
            return Exp([], self.snap(s, t[3][1]))
        d = paths[0][0][k] if len(paths[0][0]) > k else None
        if d is not None and d[0] == "at" and isinstance(d[1], tuple) and d[1][0] in ("in", "eq"):
            return self.decided(paths, k, pos, what, d[1])
        if d is None or d[0] != "at" or not (isinstance(d[1], tuple) and d[1][0] == "pok"):
            raise Unknown("%s: decides on %r" % (what, d))
        yes = [p for p in paths if p[0][k] == ("at", d[1], True)]
        no = [p for p in paths if p[0][k] == ("at", d[1], False)]
        if len(yes) + len(no) != len(paths):
            raise Unknown("%s: order of attempts" % what)
        if d[1][2] != pos:
            raise Unknown("%s: parses at %r while the input stands at %r" % (what, d[1][2], pos))
        e = self.tries[d[1][1]]
        a = self.tree(yes, k + 1, ("rest", d[1][1], pos), what)
        b = self.tree(no, k + 1, pos, what) if no else Exp([item("fail", ())])
        first = Exp(e.items + a.items, a.value)
        if len(b.items) == 1 and b.items[0].k == "fail":
            return first
        it = item("alt", [first, b] if not can_fail(a) else [first, Exp([item("look", (e2copy(e), True))] + b.items, b.value)])
        return Exp([it], out(it.id))

    def decided(self, paths, k, pos, what, c):
        """the paths part on whether a parsed text is one of some constants"""
        ids_ = about(c, set())
        if len(ids_) != 1:
            raise Unknown("%s: decides on %r" % (what, c))
        me = ("o", ids_.pop())
        sub = {}
        for t in (True, False):
            ps = [p for p in paths if p[0][k] == ("at", c, t)]
            sub[t] = self.tree(ps, k + 1, pos, what) if ps else Exp([item("fail", ())])
        if sum(p[0][k][:2] == ("at", c) for p in paths) != len(paths):
            raise Unknown("%s: order of decisions" % what)
        dead = [t for t in sub if len(sub[t].items) == 1 and sub[t].items[0].k == "fail"]
        if len(dead) != 1:
            raise Unknown("%s: goes on in two ways, depending on %r" % (what, c))
        live = not dead[0]
        ks = set()
        texts(c, ks)
        try:
            dflt = holds(("at", c), None, me) == live
            g = item("guard", (me[1], dflt, frozenset(x for x in ks if (holds(("at", c), x, me) == live) != dflt)))
        except Unknown as u:
            g = witnessed([((), ("at", c) if live else ("not", ("at", c)))], me, ks, u)
        e = sub[live]
        if e.items and e.items[0].k == "guard" and e.items[0].d[0] == me[1]:
            return Exp([both(g, e.items[0])] + e.items[1:], e.value)
        return Exp([g] + e.items, e.value)

    def attempt(self, st, p, pos):
        """try parser p at input position pos: outcomes"""
        e = self.peg(p)
        pos = strip(pos)
        n = 0
        while isinstance(pos, tuple) and pos and pos[0] == "P" and n < 5:
            pos = strip(self.read(st, pos[1], pos[2]))
            n += 1
        if isQ(pos) and len(pos[1]) == 1 and pos[1][0][0] == "s" and pos[1][0][2] == ZERO:
            pos = Sym(pos[1][0][1], None)
        if not isinstance(pos, Sym) or pos.term[0] not in ("in", "rest"):
            raise Unknown("parses something other than the rest of the input: %r" % (pos,))
        n = ids()
        self.tries[n] = e
        c = ("pok", n, pos.term)
        s1, s2 = st.copy(), st.copy()
        self.assume(s1, ("at", c), True)
        self.assume(s2, ("at", c), False)
        return [(s1, "ret", Ok(A("tuple", 0, Sym(("rest", n, pos.term), self.tstr), e.value))),
                (s2, "ret", Err(A("nom::Err", 1, Sym(("perr", n), None))))]

    # loops of attempts -----------------------------------------------------
    def do_loop(self, fr, L, S0):
        S = self.prune(fr, S0.copy(), L.head)
        outs = self.once(fr, L, S.copy())
        backs = [o[1] for o in outs if o[0] == "back"]
        n = len(S.dec)
        if not any(d[0] == "at" and isinstance(d[1], tuple) and d[1][0] == "pok" for b in backs for d in b.dec[n:]):
            return super().do_loop(fr, L, S0)
        for b in backs:
            self.prune(fr, b, L.head)
        # the position, and the lists that grow
        lid = ids()
        posn = [None]
        acc = {}

        def gen(path, v, vs):
            if all(x == v for x in vs):
                return v
            p = self.as_pos(v)
            if p is not None and all(self.as_pos(x) is not None for x in vs):
                if posn[0] not in (None, p):
                    raise Unknown("%s: a loop over two positions" % fr.body["path"])
                posn[0] = p
                return Sym(("in", lid), self.tstr)
            if isQ(v) and all(isQ(x) and x[1][:len(v[1])] == v[1] for x in vs):
                t = ("grown", lid, path)
                acc[path] = (t, v[1])
                self.bounds.setdefault(("len", t), (0, 1 << 62))
                return ("Q", v[1] + (("s", t, ZERO, V(("len", t))),))
            if isA(v) and all(isA(x) and x[1:3] == v[1:3] and len(x[3]) == len(v[3]) for x in vs):
                return ("A", v[1], v[2], tuple(gen(path + (k,), v[3][k], [x[3][k] for x in vs]) for k in range(len(v[3]))))
            if isinstance(v, tuple) and v and v[0] == "R" and all(isinstance(x, tuple) and x and x[0] == "R" for x in vs):
                return ("R", gen(path + ("R",), v[1], [x[1] for x in vs]))
            raise Unknown("%s: a loop that changes %r" % (fr.body["path"], v))
        G = S.copy()
        for r, v in S.mem.items():
            vs = [b.mem[r] for b in backs if r in b.mem]
            if any(x != v for x in vs):
                G.mem[r] = gen((r,), v, vs)
        if posn[0] is None:
            raise Unknown("%s: a loop that does not move on" % fr.body["path"])
        outs = self.once(fr, L, G.copy())
        backs = [o[1] for o in outs if o[0] == "back"]
        exits = [o for o in outs if o[0] != "back"]
        grow = {}
        paths = []

        def chk(path, g, v):
            """-> how the cell grew, or raises"""
            if g == v:
                if path in acc:
                    grow.setdefault(path, []).append(())
                return
            if isinstance(g, Sym) and g.term == ("in", lid) and self.as_pos(v) is not None:
                end.append(self.as_pos(v))
                return
            if isQ(g) and isQ(v) and path in acc and v[1][:len(g[1])] == g[1]:
                grow.setdefault(path, []).append(v[1][len(g[1]):])
                return
            if isA(g) and isA(v) and g[1:3] == v[1:3] and len(g[3]) == len(v[3]):
                for k in range(len(g[3])):
                    chk(path + (k,), g[3][k], v[3][k])
                return
            if isinstance(g, tuple) and g and g[0] == "R" and isinstance(v, tuple) and v and v[0] == "R":
                return chk(path + ("R",), g[1], v[1])
            raise Unknown("%s: a loop that changes %r" % (fr.body["path"], g))
        for b in backs:
            self.prune(fr, b, L.head)
            end = []
            before = {p: len(grow.get(p, ())) for p in acc}
            for r, v in G.mem.items():
                if r in b.mem:
                    chk((r,), v, b.mem[r])
            if len(set(end)) > 1:
                raise Unknown("%s: a loop over two positions" % fr.body["path"])
            v = []
            for p in sorted(acc, key=repr):
                g = grow.get(p, [])
                u = g[-1] if len(g) > before[p] else ()
                if len(u) != 1 or u[0][0] != "u":
                    raise Unknown("%s: a loop that adds %r to a list" % (fr.body["path"], u))
                v.append(u[0][1])
            if len(v) > 1:
                raise Unknown("%s: a loop that fills two lists" % fr.body["path"])
            p = Sym(end[0] if end else ("in", lid), self.tstr)
            paths.append((b.dec[n:], b, Ok(A("tuple", 0, p, v[0] if v else UNIT))))
        for o in exits:
            paths.append((o[1].dec[n:], o[1], Err(UNIT)))
        e = self.tree(paths, 0, ("in", lid), fr.body["path"])
        it = item("rep", (e, 0))
        self.tries[lid] = Exp([it], out(it.id))
        pos = posn[0]
        at = ("rest", lid, pos)

        def f(x):
            if x == ("in", lid):
                return at
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "grown" and x[1] == lid:
                return ("o", it.id)
            return None
        res = []
        stay = [b.dec[n:] for b in backs]
        for o in exits:
            d = o[1].dec
            keep = []
            for k in range(n, len(d)):
                # what only tells an exit from another iteration is known when the repetition has ended
                if d[k][0] == "at" and isinstance(d[k][1], tuple) and d[k][1][0] == "pok" and not d[k][2]:
                    flip = d[n:k] + (("at", d[k][1], True),)
                    if any(x[1].dec[n:k + 1] == flip for x in exits if len(x[1].dec) > k):
                        keep.append(d[k])
                else:
                    keep.append(d[k])
            s = o[1].copy()
            s.dec = d[:n] + tuple(keep)
            s = map_state(s, f)
            s.dec = s.dec[:n] + (("at", ("pok", lid, pos), True),) + s.dec[n:]
            rest = tuple(relabel(x, f) for x in o[2:])
            res.append((o[0], s) + rest)
        return res

    def as_pos(self, v):
        v = strip(v)
        if isQ(v) and len(v[1]) == 1 and v[1][0][0] == "s" and v[1][0][2] == ZERO:
            v = Sym(v[1][0][1], None)
        if isinstance(v, Sym) and isinstance(v.term, tuple) and v.term[0] in ("in", "rest"):
            return v.term
        return None

    def is_rule(self, body):
        if body["argc"] != 1:
            return False
        t, r = body["D"].ty(body["locals"][1]), body["D"].ty(body["locals"][0])
        return t.k == "ref" and t.sub().k == "str" and r.k == "adt" and r.p == RESULT and "nom::Err<" in r.s

    def call_fn(self, st, fr, c, args, dty, atys, sp):
        if re.search(r"ops::(function::)?Fn(Once|Mut)?::call", c.p) and len(args) == 2:
            g = strip(self.snap(st, args[0])) if not isinstance(args[0], Sym) else args[0]
            t = strip(args[1])
            if isA(g) and g[1].startswith("nom::") and g[1] != "nom::Err" and isA(t, "tuple"):
                return self.attempt(st, g, t[3][0])
        if c.b >= 0 and not c.raw.get("ctor"):
            b = c.D.bodies[c.b]
            if b["crate"] == self.Dg.crate and self.is_rule(b) and not (self.stack == [] ):
                return self.attempt(st, ("F", c), args[0])
        return super().call_fn(st, fr, c, args, dty, atys, sp)

    def call_value(self, st, f, args, dty=None, pf=None):
        g = strip(f)
        n = 0
        while isinstance(g, tuple) and g and g[0] == "P" and n < 5:
            g = strip(self.read(st, g[1], g[2]))
            n += 1
        if isA(g) and g[1].startswith("nom::") and g[1] != "nom::Err":
            return self.attempt(st, g, args[0])
        return super().call_value(st, f, args, dty, pf)

    def call(self, st, fr, f, args, dty, atys, sp):
        g = strip(f)
        if isA(g) and g[1].startswith("nom::"):
            return self.attempt(st, g, args[0])
        return super().call(st, fr, f, args, dty, atys, sp)

    # combinators ------------------------------------------------------------
    def peg(self, p):
        p = strip(p)
        if isinstance(p, tuple) and p and p[0] == "P":
            raise Unknown("parser behind a pointer")
        if isinstance(p, tuple) and p[0] == "F":
            c = p[1]
            if c.b >= 0 and not c.raw.get("ctor"):
                b = c.D.bodies[c.b]
                if self.is_rule(b):
                    return self.rule(b)
            if c.rp in ("nom::combinator::eof", "nom::combinator::rest"):
                return self.c_eof() if c.rp.endswith("eof") else text_of([item("rep", (self.cls(ALL), 0))], self.tstr)
            m = re.match(r"^nom::(?:character|bytes)::complete::(\w+)$", c.rp)
            if m:
                return self.leaf(m.group(1))
            raise Unknown("parser " + c.rp)
        if isinstance(p, tuple) and p[0] == "C":
            b = self.dumps[p[1][0]].bodies.get(p[1][1])
            return self.body(lambda ip, st: ip.call_closure(st, p, [Sym(("in",), self.tstr)]), b["path"])
        if isA(p, "tuple"):
            es = [self.peg(x) for x in p[3]]
            return Exp([i for e in es for i in e.items], A("tuple", 0, *[e.value for e in es]))
        if isA(p) and p[1].startswith("nom::"):
            name = p[1][5:]
            f = getattr(self, "c_" + name, None)
            if f is None:
                raise Unknown("combinator nom::" + name)
            return f(*p[3])
        raise Unknown("parser %r" % (p,))

    def cstr(self, x):
        x = strip(x)
        if isQ(x) and all(p[0] == "k" for p in x[1]):
            return "".join(p[1] for p in x[1])
        raise Unknown("text of a parser is not constant: %r" % (x,))

    def leaf(self, name):
        m = re.match(r"^(\w+?)([01])$", name)
        if m and m.group(1) in CLASSES:
            return text_of([item("rep", (Exp([item("cls", CLASSES[m.group(1)])]), int(m.group(2))))], self.tstr)
        if name == "line_ending" or name == "crlf":
            alts = [Exp([item("cls", frozenset([13])), item("cls", frozenset([10]))])]
            if name == "line_ending":
                alts.insert(0, Exp([item("cls", frozenset([10]))]))
            return text_of([item("alt", alts)], self.tstr)
        if name == "not_line_ending":
            return text_of([item("nle", ())], self.tstr)
        if name == "newline":
            return self.cls(frozenset([10]))
        if name == "tab":
            return self.cls(frozenset([9]))
        if name == "anychar":
            return self.cls(ALL)
        raise Unknown("nom parser " + name)

    def cls(self, s):
        it = item("cls", s)
        return Exp([it], out(it.id))

    def c_tag(self, x):
        s = self.cstr(x)
        return Exp([item("cls", frozenset([ord(c)])) for c in s], ("Q", (("k", s),)))

    def c_char(self, x):
        if not (isinstance(x, Lin) and x.isc()):
            raise Unknown("char(%r)" % (x,))
        return Exp([item("cls", frozenset([x.c]))], x)

    def c_one_of(self, x):
        return self.cls(frozenset(map(ord, self.cstr(x))))

    def c_none_of(self, x):
        return self.cls(ALL - frozenset(map(ord, self.cstr(x))))

    def chars(self, f):
        """the characters a predicate accepts"""
        ok = set()
        f = strip(f)
        tys = None
        if isinstance(f, tuple) and f[0] == "C":
            b = self.dumps[f[1][0]].bodies.get(f[1][1])
            tys = b["D"].ty(b["locals"][2]) if b["argc"] >= 2 else None
        for ch in sorted(ALL):
            st = St()
            if ch == 0xFFFF:
                t = ("anych", self.fresh())
                self.bounds[t] = (128, 0x10FFFF)
                v = V(t)
            else:
                v = K(ch)
            saved, self.stack = self.stack, [("apply", "")]
            try:
                r = self.call_value(st, f, [("R", v) if tys is not None and tys.k == "ref" else v])
            finally:
                self.stack = saved
            res = set()
            for s, k, x in r:
                if k != "ret":
                    raise Unknown("a check that may panic")
                x = strip(x)
                if not (isinstance(x, tuple) and x[0] == "b"):
                    y = self.decide(s, x) if hasattr(self, "decide") else None
                    if y is None:
                        raise Unknown("a check of characters that is not decided: %r" % (x,))
                    x = ("b", y)
                res.add(x[1])
            if len(res) != 1:
                raise Unknown("a check of characters with several results")
            if res.pop():
                ok.add(ch)
        return frozenset(ok)

    def c_satisfy(self, f):
        return self.cls(self.chars(f))

    def c_take_while(self, f, n=0):
        return text_of([item("rep", (Exp([item("cls", self.chars(f))]), n))], self.tstr)

    def c_take_while1(self, f):
        return self.c_take_while(f, 1)

    def c_take_till(self, f, n=0):
        return text_of([item("rep", (Exp([item("cls", ALL - self.chars(f))]), n))], self.tstr)

    def c_take_till1(self, f):
        return self.c_take_till(f, 1)

    def c_is_a(self, x):
        return text_of([item("rep", (Exp([item("cls", frozenset(map(ord, self.cstr(x))))]), 1))], self.tstr)

    def c_is_not(self, x):
        return text_of([item("rep", (Exp([item("cls", ALL - frozenset(map(ord, self.cstr(x))))]), 1))], self.tstr)

    def c_take_until(self, x):
        return text_of([item("until", self.cstr(x))], self.tstr)

    def c_alt(self, t):
        t = strip(t)
        if not isA(t, "tuple"):
            raise Unknown("alt of %r" % (t,))
        it = item("alt", [self.peg(x) for x in t[3]])
        return Exp([it], out(it.id))

    def c_or(self, a, b):
        return self.c_alt(A("tuple", 0, a, b))

    def c_and(self, a, b):
        return self.peg(A("tuple", 0, a, b))

    def apply(self, f, v):
        f = strip(f)
        tys = None
        if isinstance(f, tuple) and f[0] == "C":
            b = self.dumps[f[1][0]].bodies.get(f[1][1])
            if b["argc"] >= 2:
                tys = b["D"].ty(b["locals"][2])
        elif isinstance(f, tuple) and f[0] == "F" and f[1].b >= 0:
            b = f[1].D.bodies[f[1].b]
            tys = b["D"].ty(b["locals"][1])
        st = St()
        saved, self.stack = self.stack, [("apply", "")]
        try:
            return self.call_value(st, f, [self.typed(v, tys)])
        finally:
            self.stack = saved

    def no_panic(self, e, outs):
        """a function applied to parsed values returns"""
        for st, k, v in outs:
            if k == "ret":
                continue
            if reachable(st.dec, e):
                self.panics.append(str(v))
            raise Unknown("a mapping that may panic")

    def typed(self, v, t):
        v0 = v
        if t is None:
            return v
        if isinstance(v, Sym) and v.ty is None:
            if t.k == "ref" and t.sub().k == "ref":
                t = t.sub()
            return Sym(v.term, t) if t.k in ("ref", "adt", "param", "str") else self.mk(v.term, t)
        if isA(v, "tuple") and t.k == "tuple":
            ts = self.tup(t)
            if len(ts) == len(v[3]):
                return A("tuple", 0, *[self.typed(x, y) for x, y in zip(v[3], ts)])
        return v0

    def c_map(self, p, f):
        e = self.peg(p)
        r = self.apply(f, e.value)
        self.no_panic(e, r)
        vs = [self.snap(x[0], x[2]) for x in r]
        if len(set(vs)) != 1:
            return Exp(e.items, Sym(("cases", tuple((x[0].dec, v) for x, v in zip(r, vs))), None))
        return Exp(e.items, vs[0])

    def c_value(self, v, p):
        return Exp(self.peg(p).items, v)

    def c_opt(self, p):
        e = self.peg(p)
        it = item("alt", [Exp(e.items, Some(e.value)), Exp([], NONE)])
        return Exp([it], out(it.id))

    def c_peek(self, p):
        e = self.peg(p)
        it = item("look", (e, False))
        return Exp([it], e.value)

    def c_not(self, p):
        return Exp([item("look", (self.peg(p), True))], UNIT)

    def c_eof(self):
        return Exp([item("look", (self.cls(ALL), True))], Q(("k", "")))

    def c_all_consuming(self, p):
        e = self.peg(p)
        return Exp(e.items + [item("look", (self.cls(ALL), True))], e.value)

    def c_recognize(self, p):
        return text_of(self.peg(p).items, self.tstr)

    def c_verify(self, p, f):
        e = self.peg(p)
        r = self.apply(f, ("R", e.value))
        v = strip(e.value)
        if isQ(v) and len(v[1]) == 1 and v[1][0][0] == "s":
            v = Sym(v[1][0][1], None)
        if not (isinstance(v, Sym) and v.term[0] == "o"):
            raise Unknown("a check of something other than parsed text")
        consts = set()
        self.no_panic(e, r)
        for st, k, res in r:
            for d in st.dec:
                texts(d[1], consts)
            texts(res, consts)
        res = {}
        try:
            for x in sorted(consts) + [None]:
                got = {holds(q, x, v.term) for st, k, q in r if all(holds(("at", d[1]) if d[0] == "at" else d, x, v.term) == d[-1] for d in st.dec)}
                if len(got) != 1:
                    raise Unknown("a check with several results")
                res[x] = got.pop()
            dflt = res.pop(None)
            return Exp(e.items + [item("guard", (v.term[1], dflt, frozenset(x for x, y in res.items() if y != dflt)))], e.value)
        except Unknown as u:
            return Exp(e.items + [witnessed([(st.dec, q) for st, k, q in r], v.term, consts, u)], e.value)

    def c_many0(self, p, n=0):
        e = self.peg(p)
        it = item("rep", (e, n))
        return Exp([it], out(it.id))

    def c_many1(self, p):
        return self.c_many0(p, 1)

    c_many0_count = c_many1_count = None

    def c_many_m_n(self, lo, hi, p):
        lo, hi = strip(lo), strip(hi)
        if not (isinstance(lo, Lin) and lo.isc() and isinstance(hi, Lin) and hi.isc()):
            raise Unknown("bounds of a repetition that are no constants")
        if lo.c > 1 or hi.c < 2:
            raise Unknown("a repetition of %d to %d" % (lo.c, hi.c))
        e = self.peg(p)
        if not e.items:
            raise Unknown("a repetition of nothing")
        if hi.c < 1 << 32:
            e = limited(e, hi.c)
        it = item("rep", (e, lo.c))
        return Exp([it], out(it.id))

    def c_take_while_m_n(self, lo, hi, f):
        return text_of(self.c_many_m_n(lo, hi, A("nom::satisfy", 0, f)).items, self.tstr)

    def c_count(self, p, n):
        n = strip(n)
        if not (isinstance(n, Lin) and n.isc() and 0 < n.c < 9):
            raise Unknown("a repetition %r times" % (n,))
        es = [self.peg(p) for _ in range(n.c)]
        return Exp([i for e in es for i in e.items], Q(*[("u", e.value) for e in es]))

    def c_tag_no_case(self, x):
        return text_of([item("cls", frozenset([ord(c.lower()), ord(c.upper())])) for c in self.cstr(x)], self.tstr)

    def c_complete(self, p):
        return self.peg(p)

    def c_success(self, v):
        return Exp([], v)

    def c_fail(self):
        return Exp([item("fail", ())])

    def c_map_opt(self, p, f, kind="std::option::Option", good=1):
        e = self.peg(p)
        r = self.apply(f, e.value)
        if any(k != "ret" or not (isA(strip(q)) and strip(q)[1] == kind) for _, k, q in r):
            raise Unknown("a mapping that may fail")
        vs = {self.snap(s, strip(q)[3][0]) for s, k, q in r if strip(q)[2] == good}
        if len(vs) != 1:
            raise Unknown("a mapping that distinguishes cases")
        if all(strip(q)[2] == good for _, _, q in r):
            return Exp(e.items, vs.pop())
        v = strip(e.value)
        if isQ(v) and len(v[1]) == 1 and v[1][0][0] == "s":
            v = Sym(v[1][0][1], None)
        if not (isinstance(v, Sym) and v.term[0] == "o"):
            raise Unknown("a check of something other than parsed text")
        ks = set()
        for s, _, _ in r:
            for d in s.dec:
                texts(d[1], ks)
        g = witnessed([(s.dec, ("b", strip(q)[2] == good)) for s, _, q in r], v.term, ks, Unknown("a mapping that may fail"))
        return Exp(e.items + [g], vs.pop())

    def c_map_res(self, p, f):
        return self.c_map_opt(p, f, "std::result::Result", 0)

    def c_separated_list1(self, s, p):
        e = self.peg(p)
        r = self.peg(s)
        e2 = self.peg(p)
        it = item("rep", (Exp(r.items + e2.items, e2.value), 0))
        return Exp(e.items + [it], A("cons", 0, e.value, out(it.id)))

    def c_separated_list0(self, s, p):
        e = self.c_separated_list1(s, p)
        it = item("alt", [e, Exp([], A("nil", 0))])
        return Exp([it], out(it.id))

    def c_pair(self, a, b):
        return self.peg(A("tuple", 0, a, b))

    def c_preceded(self, a, b):
        x, y = self.peg(a), self.peg(b)
        return Exp(x.items + y.items, y.value)

    def c_terminated(self, a, b):
        x, y = self.peg(a), self.peg(b)
        return Exp(x.items + y.items, x.value)

    def c_delimited(self, a, b, c):
        x, y, z = self.peg(a), self.peg(b), self.peg(c)
        return Exp(x.items + y.items + z.items, y.value)

    def c_separated_pair(self, a, b, c):
        x, y, z = self.peg(a), self.peg(b), self.peg(c)
        return Exp(x.items + y.items + z.items, A("tuple", 0, x.value, z.value))


def limited(e, n):
    """the body of a repetition that ends after n rounds: marked by a guard, as
    no bound is part of the grammars compared with"""
    return Exp(e.items + [item("guard", (e.items[0].id, True, frozenset(["more than %d in a row" % n])))], e.value)


def relabel(x, f):
    s = St()
    s.mem = {("x",): x}
    return map_state(s, f).mem[("x",)]


def mentions_ref(e, key):
    """the rule calls itself inside its expression"""
    for i in e.items:
        if i.k == "ref" and i.d == key:
            return True
        if i.k == "alt" and any(mentions_ref(x, key) for x in i.d):
            return True
        if i.k in ("rep", "look") and mentions_ref(i.d[0], key) or i.k == "rec" and mentions_ref(i.d, key):
            return True
        if i.k == "mu" and i.d[0] != key and mentions_ref(i.d[1], key):
            return True
    return False


def texts(x, acc):
    """constant strings in a condition"""
    x = strip(x)
    if isQ(x) and x[1] and all(p[0] == "k" for p in x[1]):
        acc.add("".join(p[1] for p in x[1]))
    elif isinstance(x, tuple):
        for y in x:
            texts(y, acc)


def is_text(x, term):
    x = strip(x)
    if isQ(x) and len(x[1]) == 1 and x[1][0][0] == "s":
        return x[1][0][1] == term
    return isinstance(x, Sym) and x.term == term


def holds(c, x, me):
    """truth of a condition on the text `me` when that text is x (None: none of the constants)"""
    if c[0] == "b":
        return c[1]
    if c[0] == "not":
        return not holds(c[1], x, me)
    if c[0] in ("and", "or"):
        y = [holds(z, x, me) for z in c[1:]]
        return all(y) if c[0] == "and" else any(y)
    if c[0] == "at" and isinstance(c[1], tuple) and c[1][0] in ("in", "eq"):
        fs = c[1][1:]
        ks = set()
        for f in fs:
            texts(f, ks)
        if len([f for f in fs if is_text(f, me)]) == 1:
            return x in ks
    raise Unknown("a check that decides on %r" % (c,))


class Maybe(str):
    """marks the accepted set of a check that was only compared on some texts"""


MAYBE = []


def witnessed(paths, me, consts, why):
    """a check on a parsed text that is no plain membership test: its value, by
    constant folding, on some identifiers.  Where it is wrong on one of them it is
    wrong; where it is right on all of them it is not decided (Maybe)."""
    from .rpcl import KEYWORDS
    ws = set()
    for k in set(KEYWORDS) | consts:
        ws |= {k, k.upper(), k.capitalize(), k + "_", "_" + k, k + "s", k[:-1], k[1:], k + "9", k + "_" + k}
    ws |= {"a" * n for n in range(1, 70)} | {"A" * n for n in range(1, 70)} | {"_", "__", "a1", "_1", "a_b", "aB", "T_t"}
    res = {}
    for x in sorted(ws):
        if not re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", x):
            continue
        got = {fold(q, x, me) for dec, q in paths if all(fold_dec(d, x, me) for d in dec)}
        if len(got) != 1:
            raise why
        res[x] = got.pop()
    dflt = res["a_b"]
    m = Maybe("\0maybe")
    MAYBE.append(str(why))
    return item("guard", (me[1], dflt, frozenset([x for x, y in res.items() if y != dflt] + [m])))


def fold_dec(d, x, me):
    if d[0] == "le":
        return fold_val(d[1], x, me) <= 0
    if d[0] == "eq":
        return (fold_val(d[1], x, me) == 0) == d[2]
    if d[0] == "at":
        return fold(("at", d[1]), x, me) == d[2]
    raise Unknown("a decision %r" % (d,))


def fold_val(v, x, me):
    """a value with the parsed text replaced by x: str or int"""
    v = strip(v)
    if isinstance(v, Lin):
        n = v.c
        for a, k in v.t.items():
            n += k * fold_atom(a, x, me)
        return n
    if isinstance(v, Sym):
        return fold_text(v.term, x, me)
    if isQ(v):
        s = ""
        for p in v[1]:
            if p[0] == "k":
                s += p[1]
            elif p[0] == "s":
                t = fold_text(p[1], x, me)
                a, b = fold_val(p[2], x, me), fold_val(p[3], x, me)
                if not 0 <= a <= b <= len(t):
                    raise Unknown("a slice out of its text")
                s += t[a:b]
            else:
                raise Unknown("a part %r of a text" % (p[:2],))
        return s
    raise Unknown("a value %r" % (v,))


def fold_atom(a, x, me):
    if a[0] == "len" and len(a) == 2:
        return len(fold_text(a[1], x, me))
    raise Unknown("a number %r" % (a,))


def fold_text(t, x, me):
    if t == me:
        return x
    if isinstance(t, tuple) and len(t) == 2 and t[0] in ("to_lowercase", "to_uppercase"):
        s = fold_val(t[1], x, me)
        return s.lower() if t[0] == "to_lowercase" else s.upper()
    raise Unknown("a text %r" % (t,))


def fold(c, x, me):
    if c[0] == "b":
        return c[1]
    if c[0] == "not":
        return not fold(c[1], x, me)
    if c[0] in ("and", "or"):
        y = [fold(z, x, me) for z in c[1:]]
        return all(y) if c[0] == "and" else any(y)
    if c[0] == "cmp":
        n = fold_val(c[2], x, me)
        return n <= 0 if c[1] == "le" else n == 0
    if c[0] == "at" and isinstance(c[1], tuple) and len(c[1]) == 3:
        op, a, b = c[1]
        if op == "in" and isinstance(b, tuple):
            return fold_val(a, x, me) in [fold_val(y, x, me) for y in b]
        if op in ("eq", "starts_with", "ends_with", "contains", "eq_ignore_ascii_case"):
            a, b = fold_val(a, x, me), fold_val(b, x, me)
            if isinstance(a, str) and isinstance(b, str):
                return {"eq": a == b, "starts_with": a.startswith(b), "ends_with": a.endswith(b), "contains": b in a,
                        "eq_ignore_ascii_case": a.lower() == b.lower()}[op]
    raise Unknown("a check that decides on %r" % (c,))


def about(c, acc):
    """ids of the parsed texts a condition is about"""
    if isinstance(c, Sym):
        c = c.term
    if isinstance(c, tuple):
        if len(c) == 2 and c[0] == "o" and isinstance(c[1], int):
            acc.add(c[1])
        elif not (len(c) == 2 and c[0] == "len"):
            for x in c:
                about(x, acc)
    elif isinstance(c, Lin):
        for a in c.t:
            about(a, acc)
    return acc


def both(a, b):
    """guard items on one text -> one guard"""
    acc = lambda g, x: (x in g.d[2]) != g.d[1]
    d = a.d[1] and b.d[1]
    return Item("guard", a.id, (a.d[0], d, frozenset(x for x in a.d[2] | b.d[2] if isinstance(x, Maybe) or (acc(a, x) and acc(b, x)) != d)), a.tags)


def m_relist(ip, st, fr, c, args, dty, atys, sp):
    """a list of parsed parts is sorted, filtered ...: not the list that was parsed"""
    k = models.cell(ip, st, args[0])
    a = ip.as_seq(models.rd(ip, st, k))
    name = c.p.rsplit("::", 1)[1]
    if name == "retain":
        el = models.elem_sym(ip, ip.snap(st, a))
        o = ip.call_value(st.copy(), args[1], [("R", el)])
        if all(x[1] == "ret" and x[2] == TRUE for x in o):
            return [(st, "ret", UNIT)]
        if any(x[1] != "ret" for x in o):
            raise Unknown("a filter that may panic")
    models.named_list(ip, st, k, "." + name, a)
    return [(st, "ret", UNIT)]


NOM = {}
for _n in ("dedup", "dedup_by", "dedup_by_key", "retain"):
    NOM["std::vec::Vec::<T, A>::" + _n] = m_relist
for _n in ("sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key"):
    NOM["std::slice::<impl [T]>::" + _n] = NOM["core::slice::<impl [T]>::" + _n] = m_relist


def m_nom(ip, st, fr, c, args, dty, atys, sp):
    m = re.match(r"^nom::(branch|combinator|sequence|multi|bytes::complete|character::complete)::(\w+)$", c.rp)
    if m:
        rty = dty
        name = m.group(2)
        if len(args) == 1 and isinstance(strip(args[0]), Sym) and strip(args[0]).term[0] in ("in", "rest"):
            return ip.attempt(st, ("F", c), args[0])
        return [(st, "ret", A("nom::" + name, 0, *[ip.snap(st, strip(a)) for a in args]))]
    m = re.search(r"^nom::Parser::(\w+)$", c.p)
    if m:
        name = m.group(1)
        me = models.val(ip, st, args[0])
        if name == "parse":
            return ip.attempt(st, me, args[1])
        if name in ("map", "and", "or", "map_res", "map_opt", "complete"):
            return [(st, "ret", A("nom::" + name, 0, me, *[ip.snap(st, strip(a)) for a in args[1:]]))]
    return NotImplemented


def e2copy(e):
    return copy_exp(e, {})


# --------------------------------------------------------------- normal form
def subst(v, m):
    """rename item outputs in a term"""
    if not m:
        return v

    def f(t):
        if isinstance(t, tuple) and len(t) == 2 and t[0] == "o" and t[1] in m:
            return m[t[1]]
        return None
    return resym(v, f)


def resym(v, f):
    if isinstance(v, Sym):
        n = f(v.term)
        if n is not None:
            return n
        t = resym(v.term, f)
        return v if t is v.term else Sym(t, v.ty)
    if isinstance(v, Lin):
        def g(a):
            n = strip(f(a[1])) if a[0] == "len" and len(a) == 2 else None
            return V(("len", n.term)) if isinstance(n, Sym) else None
        return rewrite(v, g)
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "s":
            n = f(v[1])
            if n is not None:
                n = strip(n)
                if isinstance(n, Sym):
                    return ("s", n.term, v[2], resym(v[3], f)) if not isinstance(v[3], Lin) else ("s", n.term, v[2], rewrite(v[3], lambda a: V(("len", n.term)) if a == ("len", v[1]) else None))
                raise Unknown("text replaced by %r" % (n,))
        n = f(v)
        if isinstance(n, Sym):
            return n.term
        out = tuple(resym(x, f) for x in v)
        return v if all(x is y for x, y in zip(out, v)) else out
    return v


def used(v, acc):
    """ids of the outputs a term mentions"""
    def p(x):
        if isinstance(x, Sym):
            p(x.term)
        elif isinstance(x, Lin):
            for a in x.t:
                p(a)
        elif isinstance(x, tuple):
            if len(x) == 2 and x[0] == "o" and isinstance(x[1], int):
                acc.add(x[1])
            else:
                for y in x:
                    p(y)
    p(v)
    return acc


def copy_exp(e, m):
    """a copy with fresh ids; m: old id -> new"""
    items = []
    for i in e.items:
        items.append(copy_item(i, m))
    return Exp(items, subst(e.value, {a: out(b) for a, b in m.items()}))


def copy_item(i, m):
    n = ids()
    d = i.d
    if i.k == "alt":
        d = [copy_exp(x, m) for x in d]
    elif i.k == "rep" or i.k == "look":
        d = (copy_exp(d[0], m), d[1])
    elif i.k == "rec":
        d = copy_exp(d, m)
    elif i.k == "mu":
        d = (d[0], copy_exp(d[1], m))
    elif i.k == "guard":
        d = (m.get(d[0], d[0]),) + d[1:]
    m[i.id] = n
    return Item(i.k, n, d, i.tags)


def can_fail(e):
    return any(item_can_fail(i) for i in e.items)


def item_can_fail(i):
    if i.k == "rep":
        return i.d[1] > 0
    if i.k == "alt":
        return all(can_fail(x) for x in i.d)
    if i.k == "rec":
        return can_fail(i.d)
    return True


def nullable(e, env=()):
    """may match without consuming"""
    return all(item_nullable(i, env) for i in e.items)


def item_nullable(i, env=()):
    k = i.k
    if k in ("look", "guard"):
        return True
    if k == "nle":
        return True
    if k == "until":
        return True
    if k == "cls" or k == "fail":
        return False
    if k == "rep":
        return i.d[1] == 0 or nullable(i.d[0], env)
    if k == "alt":
        return any(nullable(x, env) for x in i.d)
    if k == "rec":
        return nullable(i.d, env)
    if k == "mu":
        return nullable(i.d[1], env)
    if k == "ref":
        return False          # least fixed point: checked by `loops`
    raise Unknown(k)


def first(e):
    """(characters a match may start with, may be empty)"""
    s = frozenset()
    for i in e.items:
        f, n = item_first(i)
        s |= f
        if not n:
            return s, False
    return s, True


def item_first(i):
    k = i.k
    if k == "cls":
        return i.d, False
    if k in ("look", "guard"):
        return frozenset(), True
    if k == "nle":
        return ALL, True
    if k == "until":
        return ALL, True
    if k == "fail":
        return frozenset(), False
    if k == "rep":
        f, n = first(i.d[0])
        return f, n or i.d[1] == 0
    if k == "alt":
        fs = [first(x) for x in i.d]
        return frozenset().union(*[f for f, _ in fs]), any(n for _, n in fs)
    if k == "rec":
        return first(i.d)
    if k == "mu":
        return first(i.d[1])
    if k == "ref":
        return ALL, True
    raise Unknown(k)


def lin(e, n=24):
    """leading character classes of an expression, as far as they are fixed"""
    out = []
    for i in e.items:
        if i.k == "cls":
            out.append(i.d)
        elif i.k == "look" and i.d[1] and len(i.d[0].items) == 1 and i.d[0].items[0].k == "cls":
            out.append(("not", i.d[0].items[0].d))
        elif i.k == "rec":
            o = lin(i.d, n)
            out += o[0]
            if not o[1]:
                return out, False
        elif i.k == "guard":
            continue
        elif i.k == "rep" and i.d[1] == 1 and len(i.d[0].items) == 1 and i.d[0].items[0].k == "cls":
            out.append(i.d[0].items[0].d)
            return out, False
        else:
            f, nl = first(Exp(e.items[e.items.index(i):]))
            if not nl:
                out.append(f)
            return out, False
        if len(out) > n:
            return out, False
    return out, True


def branches(e):
    """the expression with its leading choice distributed"""
    if e.items and e.items[0].k == "mu":
        e = Exp(e.items[0].d[1].items + e.items[1:])
    if e.items and e.items[0].k == "alt":
        return [b for x in e.items[0].d for b in branches(Exp(x.items + e.items[1:]))]
    return [e]


def reserved(a, b):
    """a starts with a whole word that the name b starts with may not be"""
    if len(b.items) < 2 or b.items[0].k != "rec" or b.items[1].k != "guard" or b.items[1].d[0] != b.items[0].id or not b.items[1].d[1]:
        return False
    t = b.items[0].d.items
    if len(t) != 2 or t[0].k != "cls" or t[1].k != "rep" or t[1].d[1] or len(t[1].d[0].items) != 1 or t[1].d[0].items[0].k != "cls":
        return False
    more = t[1].d[0].items[0].d
    w = ""
    for n, i in enumerate(a.items):
        if i.k == "cls" and len(i.d) == 1 and i.d <= more:
            w += chr(min(i.d))
            continue
        if i.k == "look" and i.d[1] and len(i.d[0].items) == 1 and i.d[0].items[0].k == "cls":
            return more <= i.d[0].items[0].d and w in b.items[1].d[2]
        f, nl = first(Exp(a.items[n:]))
        return not nl and not (f & more) and w in b.items[1].d[2]
    return False


def disjoint(a, b):
    """no input is matched by both"""
    x, y = branches(a), branches(b)
    return all(disjoint1(p, q) or reserved(p, q) or reserved(q, p) for p in x for q in y)


def disjoint1(a, b):
    x, fx = lin(a)
    y, fy = lin(b)
    i = j = 0
    while i < len(x) and j < len(y):
        p, q = x[i], y[j]
        if isinstance(p, tuple) and isinstance(q, tuple):
            i += 1
            j += 1
            continue
        if isinstance(p, tuple):
            if q <= p[1]:
                return True
            i += 1
            continue
        if isinstance(q, tuple):
            if p <= q[1]:
                return True
            j += 1
            continue
        if not (p & q):
            return True
        i += 1
        j += 1
    return False


def canon(e, want=True):
    """normal form; want: the value matters"""
    val = e.value if want else UNIT
    items = list(e.items)
    # outer to inner: which outputs are used
    use = used(val, set())
    for i in items:
        if i.k == "guard":
            use.add(i.d[0])
    res = []
    ren = {}
    for i in items:
        for j in canon_item(i, i.id in use, ren):
            res.append(j)
    val = subst(val, ren)
    for j in res:
        if j.k == "guard" and j.d[0] in ren:
            t = strip(ren[j.d[0]])
            j.d = (t.term[1],) + j.d[1:]
    keep = used(val, set()) | {j.d[0] for j in res if j.k == "guard"}
    return Exp(squash(res, keep), val)


def canon_item(i, want, ren):
    k = i.k
    if k in ("cls", "until", "nle", "ref", "fail"):
        return [Item(k, i.id, i.d, i.tags)]
    if k == "guard":
        return [Item(k, i.id, i.d, i.tags)]
    if k == "rec":
        t = textual(i.d)
        if not want:
            return t
        if len(t) == 1 and t[0].k == "rec":
            ren[i.id] = out(t[0].id)
            return t
        return [Item("rec", i.id, Exp(t), i.tags)]
    if k == "rep":
        if not want:
            return textual(Exp([Item(k, i.id, i.d, i.tags)]))
        return [Item(k, i.id, (canon(i.d[0], True), i.d[1]), i.tags)]
    if k == "look":
        return [Item(k, i.id, (Exp(looked(i)), i.d[1]), i.tags)]
    if k == "mu":
        return [Item(k, i.id, (i.d[0], canon(i.d[1], True)), i.tags)]
    if k == "alt":
        if not want:
            return textual(Exp([Item(k, i.id, i.d, i.tags)]))
        bs = []
        for b in i.d:
            b = canon(b, True)
            # an alternative that is itself a choice
            if len(b.items) == 1 and b.items[0].k == "alt" and isinstance(strip(b.value), Sym) and strip(b.value).term == ("o", b.items[0].id):
                bs += b.items[0].d
            elif len(b.items) == 1 and b.items[0].k == "alt":
                # value made from the choice: pushed into its branches
                for x in b.items[0].d:
                    bs.append(Exp(x.items, subst(b.value, {b.items[0].id: x.value})))
            else:
                bs.append(b)
        its, v = factor(i, order(bs), True)
        ren[i.id] = v
        return its
    raise Unknown(k)


def order(bs):
    """alternatives in a canonical order, moving only over ones that exclude each other"""
    bs = [b for b in bs if not any(x.k == "fail" for x in b.items)]
    out = []
    rest = list(bs)
    while rest:
        best = None
        for n, b in enumerate(rest):
            if all(disjoint(b, c) for c in rest[:n]):
                k = key(b)
                if best is None or k < best[0]:
                    best = (k, n)
        out.append(rest.pop(best[1]))
    # alternatives behind one that cannot fail are never tried
    for n, b in enumerate(out):
        if not can_fail(b):
            return out[:n + 1]
    return out


def factor(i, bs, want):
    """left factoring; returns (items, value)"""
    if len(bs) == 1:
        return bs[0].items, bs[0].value
    groups = []
    for b in bs:
        if groups and b.items and groups[-1][0].items and key(Exp(groups[-1][0].items[:1])) == key(Exp(b.items[:1])):
            groups[-1].append(b)
        else:
            groups.append([b])
    if all(len(g) == 1 for g in groups):
        it = Item("alt", i.id, bs, i.tags)
        return [it], out(i.id)
    new = []
    for g in groups:
        if len(g) == 1:
            new.append(g[0])
            continue
        # the guards that go with the item are part of it
        n = 1
        while all(len(b.items) > n for b in g) and len({key(Exp(b.items[:n + 1])) for b in g}) == 1:
            n += 1
        head = g[0].items[:n]
        rests = []
        for b in g:
            m = {}
            pair_ids(b.items[:n], head, m)
            sub = {x: out(y) for x, y in m.items() if x != y}
            its = b.items[n:]
            v = b.value
            if sub:
                its = [ren_item(x, sub) for x in its]
                v = subst(v, sub)
            rests.append(Exp(its, v))
        its, v = factor(Item("alt", ids(), None, i.tags), order(rests), want)
        if not want:
            its = squash(its)
        new.append(Exp(head + its, v))
    if len(new) == 1:
        return new[0].items, new[0].value
    it = Item("alt", i.id, new, i.tags)
    return [it], out(i.id)


def ren_item(i, sub):
    d = i.d
    if i.k == "alt":
        d = [Exp([ren_item(x, sub) for x in e.items], subst(e.value, sub)) for e in d]
    elif i.k in ("rep", "look"):
        d = (Exp([ren_item(x, sub) for x in d[0].items], subst(d[0].value, sub)), d[1])
    elif i.k == "rec":
        d = Exp([ren_item(x, sub) for x in d.items], subst(d.value, sub))
    elif i.k == "mu":
        d = (d[0], Exp([ren_item(x, sub) for x in d[1].items], subst(d[1].value, sub)))
    elif i.k == "guard" and d[0] in sub:
        d = (sub[d[0]].term[1],) + d[1:]
    return Item(i.k, i.id, d, i.tags)


def pair_ids(a, b, m):
    for x, y in zip(a, b):
        m[x.id] = y.id
        if x.k == "alt":
            for p, q in zip(x.d, y.d):
                pair_ids(p.items, q.items, m)
        elif x.k in ("rep", "look"):
            pair_ids(x.d[0].items, y.d[0].items, m)
        elif x.k == "rec":
            pair_ids(x.d.items, y.d.items, m)
        elif x.k == "mu":
            pair_ids(x.d[1].items, y.d[1].items, m)


def textual(e):
    """items of an expression of which only the matched text matters"""
    res = []
    for i in e.items:
        k = i.k
        guard_ids = {x.d[0] for x in e.items if x.k == "guard"}
        if k == "rec":
            t = textual(i.d)
            if i.id in guard_ids:
                res.append(Item("rec", i.id, Exp(t), i.tags))
            else:
                res += t
        elif k == "rep":
            b = textual(i.d[0])
            n = i.d[1]
            if len(b) == 1 and b[0].k == "rep" and b[0].d[1] == 1:
                b = b[0].d[0].items          # (x+)* = x*, (x+)+ = x+
            if len(b) == 1 and b[0].k == "alt":
                # choices of classes and of repeated classes
                cl = [one_class(x) for x in b[0].d]
                if all(c is not None for c in cl):
                    b = [Item("cls", ids(), frozenset().union(*cl), i.tags)]
            res.append(Item("rep", i.id, (Exp(b), n), i.tags))
        elif k == "alt":
            bs = []
            for x in i.d:
                t = textual(x)
                if len(t) == 1 and t[0].k == "alt":
                    bs += t[0].d
                else:
                    bs.append(Exp(t))
            cl = [b.items[0].d if len(b.items) == 1 and b.items[0].k == "cls" else None for b in bs]
            if all(c is not None for c in cl):
                res.append(Item("cls", i.id, frozenset().union(*cl), i.tags))
                continue
            bs = order(bs)
            if len(bs) == 2 and not bs[1].items and len(bs[0].items) == 1 and bs[0].items[0].k == "rep":
                r = bs[0].items[0]
                res.append(Item("rep", r.id, (r.d[0], 0), i.tags))
                continue
            its, v = factor(i, bs, False)
            res += its
        elif k == "look":
            t = looked(i)
            res.append(Item("look", i.id, (Exp(t), i.d[1]), i.tags))
        elif k == "mu":
            res.append(Item(k, i.id, (i.d[0], Exp(textual(i.d[1]))), i.tags))
        else:
            res.append(Item(k, i.id, i.d, i.tags))
    return squash(res)


def looked(i):
    """what a lookahead looks for: only whether it matches, so repetitions count once"""
    t = textual(i.d[0])
    if t and t[-1].k == "rep":
        r = t.pop()
        if r.d[1] == 1:
            t += r.d[0].items
    if t and t[-1].k == "alt":
        cl = [one_class(x) for x in t[-1].d]
        if all(c is not None for c in cl):
            t[-1] = Item("cls", ids(), frozenset().union(*cl), i.tags)
    return t


def one_class(e):
    if len(e.items) == 1:
        i = e.items[0]
        if i.k == "cls":
            return i.d
        if i.k == "rep" and i.d[1] == 1 and len(i.d[0].items) == 1 and i.d[0].items[0].k == "cls":
            return i.d[0].items[0].d
    return None


def squash(items, keep=frozenset()):
    """greedy repetitions that follow themselves match nothing: c* c* = c*, c c* = c+"""
    res = []
    for i in items:
        if i.id in keep or res and res[-1].id in keep:
            res.append(i)
            continue
        if res and i.k == "rep" and i.d[1] == 0:
            p = res[-1]
            c = Exp(i.d[0].items)
            if p.k == "rep" and key(Exp(p.d[0].items)) == key(c):
                continue
            n = len(c.items)
            if len(c.items) == 1 and p.k == "cls" and c.items[0].k == "cls" and p.d == c.items[0].d:
                res[-1] = Item("rep", i.id, (i.d[0], 1), i.tags)
                continue
        if res and i.k == "rep" and i.d[1] == 0 and len(i.d[0].items) == 1 and i.d[0].items[0].k == "cls":
            # (c+ | d) e* = (c | d) e* when c and d are in e
            p = res[-1]
            cl = [one_class(x) for x in p.d] if p.k == "alt" else [one_class(Exp([p]))] if p.k == "rep" else [None]
            if all(c is not None and c <= i.d[0].items[0].d for c in cl):
                res[-1] = Item("cls", p.id, frozenset().union(*cl), p.tags)
        res.append(i)
    # blank-and-comment segments: [c* (x+ | nothing)] directly repeated
    n = 0
    while n + 3 < len(res):
        if res[n].k == "rep" and res[n].d[1] == 0 and res[n + 1].k in ("alt", "rep"):
            if not keep & {x.id for x in res[n:n + 4]} and key(Exp(res[n:n + 2])) == key(Exp(res[n + 2:n + 4])):
                del res[n + 2:n + 4]
                continue
        n += 1
    # ... and after a repetition that ends with the same segment
    n = 0
    while n + 2 < len(res):
        r = res[n]
        if r.k == "rep" and r.d[1] >= 1:
            t = r.d[0].items[-2:]
            if len(t) == 2 and not keep & {x.id for x in res[n + 1:n + 3]} and t[0].k == "rep" and t[0].d[1] == 0 and t[1].k in ("alt", "rep") and key(Exp(t)) == key(Exp(res[n + 1:n + 3])):
                del res[n + 1:n + 3]
                continue
        n += 1
    return res


# ---------------------------------------------------------------------- keys
def show_cls(s):
    if s == SPACE:
        return "blank"
    if len(s) > 100:
        return "[^%s]" % "".join(sorted(map(chr, ALL - s)))
    if s == ALPHA:
        return "[a-zA-Z]"
    if s == DIGIT:
        return "[0-9]"
    t = "".join(map(chr, sorted(s)))
    return repr(t) if len(s) == 1 else "[%s]" % t


def key(e, want=True):
    """a text that is the same for equal expressions"""
    num, stk = {}, []
    return key_exp(e, num, stk)


def key_exp(e, num, stk):
    s = " ".join(key_item(i, num, stk) for i in e.items)
    v = key_val(e.value, num)
    return s if v == "()" else "%s {%s}" % (s, v)


def key_item(i, num, stk):
    k = i.k
    num[i.id] = len(num)
    if k == "cls":
        return show_cls(i.d)
    if k == "until":
        return "until(%r)" % i.d
    if k == "nle":
        return "line"
    if k == "fail":
        return "fail"
    if k == "ref":
        return "^%d" % (len(stk) - 1 - stk.index(i.d)) if i.d in stk else "^" + str(i.d)
    if k == "guard":
        return "unless-in" + repr((num.get(i.d[0]), i.d[1], sorted(x for x in i.d[2] if not isinstance(x, Maybe))))
    if k == "rec":
        return "<%s>" % key_exp(i.d, num, stk)
    if k == "rep":
        return "(%s)%s" % (key_exp(i.d[0], num, stk), "*+"[i.d[1]])
    if k == "look":
        return "%s(%s)" % ("!" if i.d[1] else "&", key_exp(i.d[0], num, stk))
    if k == "mu":
        stk.append(i.d[0])
        r = "mu(%s)" % key_exp(i.d[1], num, stk)
        stk.pop()
        return r
    if k == "alt":
        return "(%s)" % " / ".join(key_exp(x, num, stk) for x in i.d)
    raise Unknown(k)


def key_val(v, num):
    v = strip(v)
    if isinstance(v, Sym):
        t = v.term
        if t[0] == "o":
            return "$%s" % num.get(t[1], "?")
        if t[0] == "cases":
            return "one of %s" % ", ".join(key_val(x[1], num) for x in t[1])
        return plain(t, num)
    if isQ(v):
        if len(v[1]) == 1 and v[1][0][0] == "s" and v[1][0][2] == ZERO:
            return key_val(Sym(v[1][0][1], None), num)
        if all(p[0] == "k" for p in v[1]):
            return repr("".join(p[1] for p in v[1]))
        if v[1] and v[1][0][0] == "u":
            return "cons.0(%s,%s)" % (key_val(v[1][0][1], num), key_val(("Q", v[1][1:]), num))
        if not v[1]:
            return "nil.0()"
        return plain(v, num)
    if isA(v):
        if v[1] == "box" or v[1].endswith("::Box"):
            return "Box(%s)" % ",".join(key_val(x, num) for x in v[3])
        if v[1] == "tuple":
            return "(%s)" % ",".join(key_val(x, num) for x in v[3])
        n = v[1].rsplit("::", 1)[-1]
        return "%s.%s(%s)" % (n, v[2], ",".join(key_val(x, num) for x in v[3]))
    if isinstance(v, Lin) and v.isc():
        return str(v.c)
    if isinstance(v, tuple) and v and v[0] == "b":
        return "true" if v[1] else "false"
    return plain(v, num)


def plain(v, num):
    return re.sub(r"\('o', (\d+)\)", lambda m: "$%s" % num.get(int(m.group(1)), "?"), repr(v))


# ---------------------------------------------------------------- comparison
class Cmp:
    """where an expression differs from the expected one"""

    def __init__(self):
        self.s1, self.s2 = [], []
        self.more = []

    def diff(self, a, b, tags=()):
        """a: found, b: expected; None or (tags, text)"""
        (k1,), (k2,) = self.keys([a], [b])
        if k1 == k2:
            return None
        return self.exp(a, b, tags) or (tags, "found %s, expected %s" % (k1[:300], k2[:300]))

    def exp(self, a, b, tags):
        first = lost = None
        for n in range(max(len(a.items), len(b.items))):
            x = a.items[n] if n < len(a.items) else None
            y = b.items[n] if n < len(b.items) else None
            t = merge(tags, y.tags) if y is not None else tags
            if x is None or y is None or not self.eq(x, y):
                if x is None:
                    return first or (t, "expected %s at the end, found nothing" % self.s(y))
                if y is None:
                    return first or (tags, "found %s where nothing more is expected" % self.s(x))
                try:
                    r = self.inside(x, y, t) if x.k == y.k else None
                except Unknown as e:
                    lost = lost or e
                    continue
                r = r or (t, "found %s, expected %s" % (self.s(x), self.s(y)))
                if len(a.items) != len(b.items):
                    return r
                if first is not None:
                    self.more.append(r)
                first = first or r
        if first is not None:
            return first
        if lost is not None:
            raise lost
        va, vb = self.v(a), self.v(b)
        if va != vb and "one of " in va and not any(definite(x, y) for x, y in [(self.num(a), self.num(b))]):
            raise Unknown("a mapping that distinguishes cases")
        if va != vb:
            return merge(tags, *[y.tags for y in b.items]), "yields %s, expected %s" % (va[:300], vb[:300])
        return None

    def eq(self, x, y):
        return key_item(x, {}, list(self.s1)) == key_item(y, {}, list(self.s2))

    def s(self, i):
        return key(Exp([i]))[:200]

    def keys(self, x, y):
        return [key_exp(e, {}, list(self.s1)) for e in x], [key_exp(e, {}, list(self.s2)) for e in y]

    def v(self, e):
        num = {}
        for i in e.items:
            key_item(i, num, [])
        return key_val(e.value, num)

    def num(self, e):
        num = {}
        for i in e.items:
            key_item(i, num, [])
        return subst(e.value, {i: out(-1 - n) for i, n in num.items()})

    def inside(self, x, y, t):
        if x.k == "alt":
            ka, kb = self.keys(x.d, y.d)
            extra = [e for e, k in zip(x.d, ka) if k not in kb]
            miss = [e for e, k in zip(y.d, kb) if k not in ka]
            if not extra and not miss:
                return t, "the alternatives %s are tried in another order" % "; ".join(k[:60] for k in ka)
            if len(extra) == 1 and len(miss) == 1:
                return self.exp(extra[0], miss[0], t)
            # pair the alternatives that start alike
            first = None
            for e in miss:
                for f in extra:
                    if e.items and f.items and key(Exp(e.items[:1])) == key(Exp(f.items[:1])):
                        r = self.exp(f, e, t)
                        if r is not None:
                            if first is not None:
                                self.more.append(r)
                            first = first or r
                            break
            if first is not None:
                return first
            tg = merge(t, *[i.tags for e in miss for i in e.items])
            if not miss:
                return tg, "an alternative that is not expected: %s" % key(extra[0])[:300]
            if not extra:
                return tg, "no alternative %s" % key(miss[0])[:300]
            return tg, "found the alternative %s, expected %s" % (key(extra[0])[:200], key(miss[0])[:200])
        if x.k in ("rep", "look") and x.d[1] == y.d[1]:
            return self.exp(x.d[0], y.d[0], t)
        if x.k == "rec":
            return self.exp(x.d, y.d, t)
        if x.k == "mu":
            self.s1.append(x.d[0])
            self.s2.append(y.d[0])
            try:
                return self.exp(x.d[1], y.d[1], t)
            finally:
                self.s1.pop()
                self.s2.pop()
        return None


def definite(a, b, dec=()):
    """the values are not the same, whatever the parsed outputs are (those on
    which a path has decided being as it has decided)"""
    a, b = strip(a), strip(b)
    if isinstance(a, Sym) and a.term[0] == "cases":
        return any(reachable(d) and definite(v, b, dec + d) for d, v in a.term[1])
    if isA(a) and isA(b) and a[1] == b[1]:
        return a[2] != b[2] or any(definite(x, y, dec) for x, y in zip(a[3], b[3]))
    for x, y in ((a, b), (b, a)):
        if isA(x) and isinstance(y, Sym):
            return any(d[:2] == ("is", y.term) and isinstance(x[2], int) and d[2] != x[2] for d in dec)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a.sub(b).isc() and a != b
    q = [x if isQ(x) else Q(("s", x.term, ZERO, V(("len", x.term)))) if isinstance(x, Sym) else None for x in (a, b)]
    if all(q) and (isQ(a) or isQ(b)):
        d = parts_len(q[0][1]).sub(parts_len(q[1][1]))
        fs = [K(0)] + [f[1] for f in dec if f[0] == "le"]
        return any((x.add(1).sub(f)).isc() and x.add(1).sub(f).c <= 0 for x in (d, d.neg()) for f in fs)
    return False


def reachable(dec, e=None):
    """the decisions hold for some parsed text: they are about what an option is,
    and about the lengths of single texts and lists"""
    import itertools
    cs = {}
    at = [d for d in dec if d[0] == "at"]
    if at:
        ids_ = set()
        for d in at:
            about(d[1], ids_)
        if len(ids_) != 1:
            return False
        me = ("o", ids_.pop())
        mine = at + [d for d in dec if d[0] in ("le", "eq") and about(d[1], set()) | {a[1][1] for a in (d[1].t if isinstance(d[1], Lin) else ()) if a[0] == "len" and len(a) == 2 and len(a[1]) == 2} == {me[1]}]
        try:
            if not any(all(fold_dec(d, x, me) for d in mine) for x in texts_of(me[1], e)):
                return False
        except Unknown:
            return False
        dec = [d for d in dec if d not in mine]
    for d in dec:
        if d[0] == "le" or d[0] == "eq" and isinstance(d[1], Lin):
            if len(d[1].t) != 1:
                return False
            (a, k), = d[1].t.items()
            if a[0] != "len" or len(a) != 2 or a[1][0] != "o":
                return False
            cs.setdefault(a[1], []).append((d[0], d[1].c, k, d[2] if d[0] == "eq" else True))
        elif d[0] not in ("is", "isnt"):
            return False
    for t, l in cs.items():
        lo = least(t[1], e)
        if not any(all((c + k * n <= 0 if op == "le" else (c + k * n == 0) == w) for op, c, k, w in l) for n in itertools.chain(range(lo, lo + 70), (1000, 100000))):
            return False
    return True


def texts_of(i, e):
    """some of the texts a parsed text can be"""
    def gen(e, n):
        t = ""
        for y in e.items:
            if y.k == "cls":
                t += "z" if ord("z") in y.d else chr(min(y.d))
            elif y.k == "rep":
                t += gen(y.d[0], 0) * (y.d[1] + n)
            elif y.k == "alt":
                t += gen(y.d[0], n)
            elif y.k == "rec":
                t += gen(y.d, n)
            else:
                raise Unknown("a text of %s" % y.k)
        return t
    for x in e.items if e is not None else ():
        if x.id == i and x.k == "rec":
            for n in range(70):
                yield gen(x.d, n)


def least(i, e):
    """a length from which on every length of the parsed text or list occurs"""
    for x in e.items if e is not None else ():
        if x.id == i:
            if x.k == "rep":
                return x.d[1]
            if x.k == "rec" and all(y.k == "cls" or y.k == "rep" and len(y.d[0].items) == 1 and y.d[0].items[0].k == "cls" for y in x.d.items) and x.d.items[-1:] and x.d.items[-1].k == "rep":
                return sum(1 if y.k == "cls" else y.d[1] for y in x.d.items)
    return 1000


def merge(*ts):
    r = ()
    for t in ts:
        r += tuple(x for x in t if x not in r)
    return r


def loops(e, stack=()):
    """rules that may call themselves, and repetitions that may go on, without consuming input"""
    bad = []

    def exp(e, fresh):
        """fresh: rules entered since input was last consumed; returns what is left of it"""
        for i in e.items:
            fresh = it(i, fresh)
        return fresh

    def it(i, fresh):
        if i.k in ("cls",):
            return frozenset()
        if i.k == "ref":
            if i.d in fresh:
                bad.append("rule %s calls itself before it consumes input" % i.d)
            return frozenset()
        if i.k == "mu":
            exp(i.d[1], fresh | {i.d[0]})
            return fresh if item_nullable(i) else frozenset()
        if i.k == "alt":
            for x in i.d:
                exp(x, fresh)
        elif i.k == "rep":
            if nullable(i.d[0]):
                bad.append("repeats something that may match nothing: %s" % key(i.d[0])[:120])
            exp(i.d[0], fresh)
        elif i.k == "look":
            exp(i.d[0], fresh)
        elif i.k == "rec":
            exp(i.d, fresh)
        return fresh if item_nullable(i) else frozenset()
    exp(e, frozenset())
    return bad
