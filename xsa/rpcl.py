"""The specification language: the grammar rpcgen's parser must have, and its check."""
from .grammar import *
from . import frontend, models
from .judge import Report

KEYWORDS = ("bool case const default double quadruple enum float hyper int opaque string struct switch typedef union unsigned "
            "void program version").split()
PROPS = ("G01", "G02", "G03", "G04", "G05", "G06", "G07")
P_ = "parser::"


class Ref:
    """the expected grammar (RFC 4506 section 6, char and short, RFC 5531 programs)"""

    def __init__(self, D):
        self.D = D
        self.adts = {}
        for i in range(len(D.j["types"])):
            t = D.ty(i)
            if t.k == "adt" and t.p:
                self.adts.setdefault(t.p, t)
        self.stk = []

    # AST values, by name
    def mk(self, ty, var, *fs, **kw):
        t = self.adts.get(P_ + ty)
        if t is None:
            raise Unknown("no type %s%s" % (P_, ty))
        vs = t.raw["v"]
        n = 0 if var is None else next((i for i, v in enumerate(vs) if v["n"] == var), None)
        if n is None:
            raise Unknown("no variant %s::%s" % (ty, var))
        if kw:
            names = [x[0] for x in vs[n]["f"]]
            if sorted(names) != sorted(kw):
                raise Unknown("fields of %s" % ty)
            fs = [kw[x] for x in names]
        return A(P_ + ty, n, *fs)

    # expressions
    def rule(self, name, tags, f):
        if name in self.stk and (name == "type_specifier" or "type_specifier" not in self.stk[self.stk.index(name):]):
            it = item("ref", name, tags)
            return Exp([it], out(it.id))
        self.stk.append(name)
        e = f()
        self.stk.pop()
        for i in e.items:
            tag(i, tags)
        if mentions_ref(e, name):
            it = item("mu", (name, e), tags)
            return Exp([it], out(it.id))
        return e

    def lit(self, s):
        return Exp([item("cls", frozenset([ord(c)])) for c in s])

    def seq(self, *es, value=None):
        es = [self.lit(e) if isinstance(e, str) else e for e in es]
        v = value(*[e.value for e in es]) if value else UNIT
        return Exp([i for e in es for i in e.items], v)

    def alt(self, *es):
        it = item("alt", [self.lit(e) if isinstance(e, str) else e for e in es])
        return Exp([it], out(it.id))

    def opt(self, e):
        if isinstance(e, str):
            e = self.lit(e)
        return self.alt(Exp(e.items, Some(e.value)), Exp([], NONE))

    def rep(self, e, n):
        it = item("rep", (e, n))
        return Exp([it], out(it.id))

    def cls(self, s, n=None):
        it = item("cls", s)
        e = Exp([it], out(it.id))
        return e if n is None else self.rep(e, n)

    def text(self, *es):
        return text_of(self.seq(*es).items)

    def word(self, s):
        return self.seq(s, Exp([item("look", (self.cls(ALPHA | DIGIT | {ord("_")}), True))]))

    def sep(self, p, s):
        a, b, c = p(), s(), p()
        it = item("rep", (Exp(b.items + c.items, c.value), 0))
        return Exp(a.items + [it], A("cons", 0, a.value, out(it.id)))

    # lexical
    def b0(self):
        return self.cls(SPACE, 0)

    def b1(self):
        return self.cls(SPACE, 1)

    def c0(self):
        def f():
            com = Exp(self.seq("/*", Exp([item("until", "*/")]), "*/", self.b0()).items)
            return Exp(self.seq(self.b0(), self.opt(self.rep(com, 1))).items)
        return self.rule("blanks and comments", ("G02",), f)

    def ident(self):
        def f():
            e = self.text(self.cls(ALPHA | {95}), self.cls(ALPHA | DIGIT | {95}, 0))
            return Exp(e.items + [item("guard", (e.items[0].id, True, frozenset(KEYWORDS)))], e.value)
        return self.rule("identifier", ("G03",), f)

    def constant(self):
        def f():
            dec = self.text(self.opt("-"), self.cls(frozenset(map(ord, "123456789"))), self.cls(DIGIT, 0))
            hx = self.text(self.cls(HEX, 1))
            oc = self.text(self.cls(OCT, 1))
            C = lambda v, x: self.mk("Constant", v, x)
            return self.alt(Exp(dec.items, C("Decimal", dec.value)),
                            self.seq("0x", hx, value=lambda a, b: C("Hex", b)),
                            self.seq("0", oc, value=lambda a, b: C("Octal", b)),
                            self.seq("0", value=lambda a: C("Decimal", Q(("k", "0")))))
        return self.rule("constant", ("G04",), f)

    def value(self):
        def f():
            c, i = self.constant(), self.ident()
            return self.alt(Exp(c.items, self.mk("Value", "Constant", c.value)), Exp(i.items, self.mk("Value", "Identifier", i.value)))
        return self.rule("value", (), f)

    # types
    def type_specifier(self):
        T = lambda v, *x: self.mk("TypeSpecifier", v, *x)

        def f():
            alts = []
            for w, v in (("int", "Int"), ("hyper", "Hyper"), ("char", "Char"), ("short", "Short")):
                alts.append(self.seq("unsigned", self.b1(), self.word(w), value=lambda *_, v=v: T(v, FALSE)))
                alts.append(self.seq(self.word(w), value=lambda *_, v=v: T(v, TRUE)))
            alts.append(self.seq(self.word("unsigned"), value=lambda *_: T("Int", FALSE)))
            for w, v in (("float", "Float"), ("double", "Double"), ("quadruple", "Quadruple"), ("bool", "Bool")):
                alts.append(self.seq(self.word(w), value=lambda *_, v=v: T(v)))
            for w, v, s, b in (("enum", "Enum", "EnumTypeSpec", self.enum_body), ("struct", "Struct", "StructTypeSpec", self.struct_body),
                               ("union", "Union", "UnionTypeSpec", self.union_body)):
                alts.append(self.seq(w, self.b1(), b(), value=lambda a, c, x, v=v, s=s: T(v, self.mk(s, None, body=x))))
            alts.append(self.seq(self.ident(), value=lambda a: T("Identifier", a)))
            return self.alt(*alts)
        return self.rule("type_specifier", ("G05",), f)

    def declaration(self):
        D = lambda v, *x: self.mk("Declaration", v, *x)

        def f():
            arr = lambda: self.seq("[", self.value(), "]", value=lambda a, b, c: b)
            var = lambda: self.seq("<", self.opt(self.value()), ">", value=lambda a, b, c: b)
            named = lambda w: self.seq(w, self.b1(), self.ident(), value=lambda a, b, c: c)
            t = self.type_specifier
            return self.alt(
                self.seq(self.word("void"), value=lambda *_: D("Void")),
                self.seq(named("opaque"), arr(), value=lambda i, v: D("OpaqueFixedArray", i, v)),
                self.seq(named("opaque"), var(), value=lambda i, v: D("OpaqueVariableArray", i, v)),
                self.seq(named("string"), var(), value=lambda i, v: D("String", i, v)),
                self.seq(t(), self.b1(), self.ident(), arr(), value=lambda t, b, i, v: D("FixedArray", t, i, v)),
                self.seq(t(), self.b1(), self.ident(), var(), value=lambda t, b, i, v: D("VariableArray", t, i, v)),
                self.seq(t(), self.b0(), "*", self.b0(), self.ident(), value=lambda t, a, b, c, i: D("OptionVariable", t, i)),
                self.seq(t(), self.b1(), self.ident(), value=lambda t, b, i: D("Variable", t, i)))
        return self.rule("declaration", ("G05",), f)

    # bodies
    def assign(self):
        return self.rule("assign", ("G06",), lambda: self.seq(self.ident(), self.c0(), "=", self.c0(), self.value(),
                         value=lambda i, a, b, c, v: self.mk("Assign", None, identifier=i, value=v)))

    def enum_body(self):
        return self.rule("enum_body", ("G06",), lambda: self.seq("{", self.c0(), self.sep(self.assign, lambda: self.seq(self.c0(), ",", self.c0())),
                         self.c0(), "}", value=lambda a, b, c, d, e: c))

    def struct_body(self):
        def f():
            d = self.seq(self.declaration(), self.c0(), ";", self.c0(), value=lambda d, *_: d)
            return self.seq("{", self.c0(), self.rep(d, 1), self.c0(), "}", value=lambda a, b, c, d, e: c)
        return self.rule("struct_body", ("G06",), f)

    def union_body(self):
        c0 = self.c0

        def f():
            label = self.seq(c0(), self.word("case"), c0(), self.value(), c0(), ":", c0(), value=lambda a, b, c, v, *_: v)
            case = self.seq(self.rep(label, 1), self.declaration(), c0(), ";", c0(),
                            value=lambda v, d, *_: self.mk("CaseSpec", None, values=v, declaration=d))
            dflt = self.seq(c0(), "default", c0(), ":", c0(), self.declaration(), c0(), ";", value=lambda a, b, c, d, e, x, *_: x)
            return self.seq("switch", c0(), "(", c0(), self.declaration(), c0(), ")", c0(), "{", c0(),
                            self.rep(case, 1), self.opt(dflt), c0(), "}",
                            value=lambda *x: self.mk("UnionBody", None, cond=x[4], specs=x[10], default=x[11]))
        return self.rule("union_body", ("G06",), f)

    # definitions
    def definition(self):
        c0, b1 = self.c0, self.b1
        d = lambda v, *x: self.mk("Definition", v, *x)
        t = lambda v, *x: d("Type", self.mk("TypeDef", v, *x))

        def f():
            return self.alt(
                self.seq("const", b1(), self.assign(), c0(), ";", value=lambda a, b, x, *_: d("Constant", x)),
                self.seq("typedef", b1(), self.declaration(), c0(), ";", value=lambda a, b, x, *_: t("Declaration", x)),
                self.seq("enum", b1(), self.ident(), c0(), self.enum_body(), c0(), ";", value=lambda a, b, i, c, x, *_: t("Enum", i, x)),
                self.seq("struct", b1(), self.ident(), c0(), self.struct_body(), c0(), ";", value=lambda a, b, i, c, x, *_: t("Struct", i, x)),
                self.seq("union", b1(), self.ident(), c0(), self.union_body(), c0(), ";", value=lambda a, b, i, c, x, *_: t("Union", i, x)),
                self.seq(self.program(), value=lambda p: d("Program", p)),
                self.seq("%", Exp([item("nle", ())]), self.alt("\n", "\r\n"), value=lambda *_: d("LineComment")))
        return self.rule("definition", ("G06",), f)

    def specification(self):
        return self.rule("specification", ("G02",), lambda: self.rep(self.seq(self.c0(), self.definition(), self.c0(), value=lambda a, x, b: x), 0))

    # programs
    def numbered(self, kw, name, field, body):
        b0 = self.b0
        return self.seq(kw, self.b1(), self.ident(), b0(), "{", b0(), self.rep(body, 1), b0(), "}", b0(), "=", b0(), self.value(), b0(), ";",
                        value=lambda *x: self.mk(name, None, **{"name": x[2], field: x[6], "value": x[12]}))

    def program(self):
        return self.rule("program", ("G07",), lambda: self.numbered("program", "Program", "versions",
                         self.seq(self.version(), self.b0(), value=lambda a, b: a)))

    def version(self):
        return self.rule("version", ("G07",), lambda: self.numbered("version", "Version", "procedures",
                         self.seq(self.procedure(), self.b0(), value=lambda a, b: a)))

    def procedure(self):
        b0 = self.b0

        def ty():
            t = self.type_specifier()
            return self.alt(t, self.seq(self.word("void"), value=lambda *_: self.mk("TypeSpecifier", "Void")))

        def f():
            return self.seq(ty(), self.b1(), self.ident(), b0(), "(", b0(), ty(), b0(), ")", b0(), "=", b0(), self.value(), b0(), ";",
                            value=lambda *x: self.mk("Procedure", None, res_ty=x[0], method=x[2], req_ty=x[6], value=x[12]))
        return self.rule("procedure", ("G07",), f)


def tag(i, tags):
    """rules name their items, innermost first"""
    i.tags = merge(i.tags, tags)
    if i.k == "alt":
        for e in i.d:
            for x in e.items:
                tag(x, tags)
    elif i.k in ("rep", "look"):
        for x in i.d[0].items:
            tag(x, tags)
    elif i.k == "rec":
        for x in i.d.items:
            tag(x, tags)
    elif i.k == "mu":
        for x in i.d[1].items:
            tag(x, tags)


class Parser:
    def __init__(self):
        self.D = Dump(frontend.load("rpcgen.lib"), "rpcgen.lib")
        self.W = Dump(frontend.load("xwitness.lib"), "xwitness.lib")
        self.R = Report()

    def run(self, pid=None):
        self.grammar()
        self.numbers()
        return self.R

    def entry(self):
        """the function that turns a text into definitions"""
        c = []
        for r in self.D.roots:
            b = self.D.bodies[r["b"]]
            if not r.get("pub") or r.get("tr") or b["argc"] != 1:
                continue
            t, o = self.D.ty(b["locals"][1]), self.D.ty(b["locals"][0])
            if t.k == "ref" and t.sub().k == "str" and o.k == "adt" and o.p == RESULT and o.args()[0].s == "std::vec::Vec<parser::Definition>":
                c.append(b)
        if len(c) != 1:
            raise Unknown("no single function from text to definitions")
        return c[0]

    def whole(self, g, body):
        """expression of the inputs the entry function accepts"""
        st = St()
        outs = g.exec_fn(st, body, [Sym(("in",), g.tstr)])
        found = None
        tried = set()
        for s, k, v in outs:
            self.R.paths += 1
            if k != "ret":
                self.R.add(("G01",), "parse", "may panic: %s" % (v,))
                continue
            pok = [d for d in s.dec if d[0] == "at" and isinstance(d[1], tuple) and d[1][0] == "pok"]
            tried |= {d[1][1] for d in pok}
            v = strip(v)
            if not isA(v, RESULT):
                raise Unknown("result %r" % (v,))
            if v[2] == 1:
                if pok and pok[-1][2]:
                    rest = ("rest", pok[-1][1][1], pok[-1][1][2])
                    if not g.prove_le(s, K(1).sub(V(("len", rest)))):
                        self.R.add(("G02",), "parse", "refuses an input that is parsed to its end")
                continue
            if len(pok) != 1 or not pok[0][2] or pok[0][1][2] != ("in",):
                raise Unknown("several attempts")
            rest = ("rest", pok[0][1][1], ("in",))
            if not g.prove_le(s, V(("len", rest))) and not self.at_end(g.tries[pok[0][1][1]]):
                self.R.add(("G02",), "parse", "accepts an input of which something is left")
            found = (g.tries[pok[0][1][1]], g.snap(s, v[3][0]))
        if found is None:
            raise Unknown("accepts nothing")
        e, v = found
        if key(Exp([i for i in e.items], e.value)) != key(Exp(e.items, v)):
            e = Exp(e.items, v)
        its = list(e.items)
        if self.at_end(e):
            its.pop()
        return Exp(its, e.value)

    def at_end(self, e):
        i = e.items[-1] if e.items else None
        return i is not None and i.k == "look" and i.d[1] and key(Exp(textual(i.d[0]))) == show_cls(ALL)

    def grammar(self):
        R = self.R
        g = Build(self.D, self.W)
        ref = Ref(self.D)
        n = {}
        try:
            want = ref.specification()
            count(want, n)
            MAYBE.clear()
            got = self.whole(g, self.entry())
            # each rule by itself as well, for the record
            R.fn(PROPS, *sorted(g.nts))
            a, b = canon(got), canon(want)
            for l in loops(a):
                R.add(("G01",), "grammar", l)
            R.did(("G01",), len(g.nts))
            cmp = Cmp()
            d = cmp.diff(a, b)
            for p in PROPS[1:]:
                R.did((p,), n.get(p, 0))
            R.sample(PROPS, "accepted language, from %d parser functions: %s ..." % (len(g.nts), key(a)[:200]))
            if d is None and MAYBE:
                raise Unknown(MAYBE[0])
            if d is not None and g.strange:
                R.undecided(PROPS, "grammar", "depends on the library function %s" % ", ".join(sorted(g.strange)))
            elif d is not None:
                for tags, msg in [d] + cmp.more[:40]:
                    ps = tuple(t for t in tags if t != "G02") or ("G02",)
                    R.add(ps, "grammar", msg)
        except Unknown as e:
            R.undecided(PROPS, "grammar", str(e)[:400])
        for x in g.panics:
            R.add(("G01",), "grammar", "a function applied to parsed text may panic: %s" % x)

    # ------------------------------------------------------------ numbers
    def numbers(self):
        """the value of a constant is its text read in its base"""
        R = self.R
        seen = set()
        for r in self.D.roots:
            if r.get("tr") != "std::convert::TryFrom" or r["name"] != "try_from":
                continue
            b = self.D.bodies[r["b"]]
            t = unref(self.D.ty(b["locals"][1]))
            if t.p != P_ + "Constant":
                continue
            to = self.D.ty(r["self"])
            seen.add(to.s)
            for v, radix in (("Decimal", 10), ("Hex", 16), ("Octal", 8)):
                ip = Interp([self.D, self.W])
                models.install(ip, self.W)
                st = St()
                txt = Q(("s", ("digits",), K(0), V(("len", ("digits",)))))
                h = ("h", ip.fresh())
                n = next(i for i, x in enumerate(t.raw["v"]) if x["n"] == v)
                st.mem[h] = A(t.p, n, txt)
                key = "%s constant as %s" % (v, to.s)
                R.did(("G04",))
                try:
                    outs = ip.exec_fn(st, b, [("P", h, ())])
                    R.saw(("G04",), ip)
                    for s, k, res in outs:
                        R.paths += 1
                        res = strip(res) if res is not None else None
                        want = ("parseint", to.s, txt, K(radix))
                        ok = k == "ret" and isinstance(res, Sym) and res.term == want
                        if k == "ret" and isA(res, RESULT) and isinstance(strip(res[3][0]), (Sym, Lin)):
                            # taken apart and put together again
                            d = s.known.get(want)
                            x = strip(res[3][0])
                            ok = d == res[2] and (x == V(("f", want, 0, 0)) or isinstance(x, Sym) and x.term in (("f", want, d, 0), want))
                        if k != "ret":
                            R.add(("G04", "G01"), key, "may panic: %s" % (res,))
                        elif not ok and ip.strange_in(s, res):
                            R.undecided(("G04",), key, "depends on the library function %s" % ", ".join(ip.strange_in(s, res)))
                        elif not ok:
                            R.add(("G04",), key, "is %s, expected the digits read in base %d" % (repr(res)[:200], radix))
                except Unknown as e:
                    R.undecided(("G04",), key, str(e)[:300])
        if not seen:
            R.undecided(("G04",), "constants", "no conversion of constants to numbers found")


def count(e, n):
    for i in e.items:
        for t in i.tags[:1]:
            n[t] = n.get(t, 0) + 1
        if i.k == "alt":
            for x in i.d:
                count(x, n)
        elif i.k in ("rep", "look"):
            count(i.d[0], n)
        elif i.k == "rec":
            count(i.d, n)
        elif i.k == "mu":
            count(i.d[1], n)
