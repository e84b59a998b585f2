"""The code generator against the Rust code that is documented for each definition."""
import os
from .gen import *
from . import frontend, models
from .judge import Report, judge, Judge

GENFN = "gen_code::gen_code"
P_ = "parser::"


class Build:
    """values of the syntax tree"""

    def __init__(self, D):
        self.D = D
        self.adts = {}
        for i in range(len(D.j["types"])):
            t = D.ty(i)
            if t.k == "adt" and t.p and t.p.startswith(("parser::", "gen_code::")):
                self.adts.setdefault(t.p, t)

    def adt(self, ty):
        t = self.adts.get(ty)
        if t is None:
            raise Unknown("no type %s" % ty)
        return t

    def mk(self, ty, var, *fs, **kw):
        ty = P_ + ty
        vs = self.adt(ty).raw["v"]
        n = 0 if var is None else next((i for i, v in enumerate(vs) if v["n"] == var), None)
        if n is None:
            raise Unknown("no variant %s::%s" % (ty, var))
        names = [x[0] for x in vs[n]["f"]]
        if kw:
            if sorted(names) != sorted(kw):
                raise Unknown("fields of %s" % ty)
            fs = [kw[x] for x in names]
        if len(fs) != len(names):
            raise Unknown("fields of %s::%s" % (ty, var))
        return A(ty, n, *fs)

    def name(self, key):
        t = ("name", key)
        return Q(("s", t, ZERO, V(("len", t))))

    def value(self, v):
        k = v[0]
        if k == "id":
            return self.mk("Value", "Identifier", self.name(v[1]))
        if k == "num":
            return self.mk("Value", "Constant", self.mk("Constant", "Decimal", Q(("k", str(v[1])))))
        return self.mk("Value", "Constant", self.mk("Constant", {"dec": "Decimal", "hex": "Hex", "oct": "Octal"}[k], self.name(v[1])))

    def spec(self, s):
        if s[0] == "Identifier":
            return self.mk("TypeSpecifier", "Identifier", self.name(s[1]))
        if s[0] in ("Int", "Hyper", "Char", "Short"):
            return self.mk("TypeSpecifier", s[0], boolv(s[1]))
        if s[0] in ("Enum", "Struct", "Union"):
            return self.mk("TypeSpecifier", s[0], self.anon(s))
        return self.mk("TypeSpecifier", s[0])

    def anon(self, s):
        t = self.adt(P_ + "TypeSpecifier")
        i = next(i for i, v in enumerate(t.raw["v"]) if v["n"] == s[0])
        return Sym(("anon", s[0]), self.D.ty(t.raw["v"][i]["f"][0][1]))

    def decl(self, d):
        k = d[0]
        o = lambda v: NONE if v is None else Some(self.value(v))
        if k == "Void":
            return self.mk("Declaration", "Void")
        if k in ("Variable", "OptionVariable"):
            return self.mk("Declaration", k, self.spec(d[1]), self.name(d[2]))
        if k == "FixedArray":
            return self.mk("Declaration", k, self.spec(d[1]), self.name(d[2]), self.value(d[3]))
        if k == "VariableArray":
            return self.mk("Declaration", k, self.spec(d[1]), self.name(d[2]), o(d[3]))
        if k == "OpaqueFixedArray":
            return self.mk("Declaration", k, self.name(d[1]), self.value(d[2]))
        return self.mk("Declaration", k, self.name(d[1]), o(d[2]))

    def vec(self, xs):
        return Q(*[("u", x) for x in xs])

    def assign(self, n, v):
        return self.mk("Assign", None, identifier=self.name(n), value=self.value(v))

    def define(self, d):
        k = d[0]
        if k == "const":
            return self.mk("Definition", "Constant", self.assign(d[1], d[2]))
        if k == "comment":
            return self.mk("Definition", "LineComment")
        if k == "program":
            t = self.adt(P_ + "Definition")
            v = next(v for v in t.raw["v"] if v["n"] == "Program")
            return self.mk("Definition", "Program", *[Sym(("program", i), self.D.ty(f[1])) for i, f in enumerate(v["f"])])
        if k == "typedef":
            v = self.mk("TypeDef", "Declaration", self.decl(d[1]))
        elif k == "enum":
            v = self.mk("TypeDef", "Enum", self.name(d[1]), self.vec([self.assign(*x) for x in d[2]]))
        elif k == "struct":
            v = self.mk("TypeDef", "Struct", self.name(d[1]), self.vec([self.decl(x) for x in d[2]]))
        elif k == "union":
            _, n, cond, specs, default = d
            b = self.mk("UnionBody", None, cond=self.decl(cond), default=NONE if default is None else Some(self.decl(default)),
                        specs=self.vec([self.mk("CaseSpec", None, values=self.vec([self.value(x) for x in vs]), declaration=self.decl(dd)) for vs, dd in specs]))
            v = self.mk("TypeDef", "Union", self.name(n), b)
        return self.mk("Definition", "Type", v)


class Skeletons:
    def __init__(self):
        self.D = Dump(frontend.load("rpcgen.lib"), "rpcgen.lib")
        self.W = Dump(frontend.load("xwitness.lib"), "xwitness.lib")
        self.b = Build(self.D)
        self.root = next((self.D.bodies[r["b"]] for r in self.D.roots if r["path"] == GENFN), None)
        if self.root is None:
            raise Unknown("no function %s" % GENFN)

    def evaluate(self, defs):
        ip = Gen(self.D, self.W)
        ip.skeleton = True
        ip.WIDE = (64, 4000, 20000)
        st = St()
        ct = self.b.adt("gen_code::Config")
        # the tool sets at most one of the two ways of each kind (G17)
        at = lambda n: ("at", ("cfg", n))
        both = {"enum_impl_std_trait": "enum_impl_indexer", "union_impl_union": "union_impl_indexer"}
        cfg = A(ct.p, 0, *[ip.band(st, ip.neg(at(both[n])), at(n)) if n in both else at(n) for n, _ in ct.raw["v"][0]["f"]])
        c = ("h", ip.fresh())
        st.mem[c] = cfg
        lst = self.b.vec([self.b.define(d) for d in defs])
        outs = ip.exec_fn(st, self.root, [lst, ("P", c, ())], ())
        return ip, outs


# ----------------------------------------------------------------- expected tokens
class Unsupported(Exception):
    """this input has no representation and must be refused"""


class Skip(Exception):
    """this input lies outside of what is claimed"""


OPEN = {"(": ")", "[": "]", "{": "}"}


def T(props, text, **holes):
    """expected tokens of a template; $name stands for the given tokens"""
    toks_ = re.findall(r"\$\w+|'\w+|\w+|\S", text)
    pos = [0]

    def run(end):
        out = []
        while pos[0] < len(toks_):
            t = toks_[pos[0]]
            pos[0] += 1
            if t == end:
                return out
            if t in OPEN:
                out.append(("g", t, run(OPEN[t]), props))
            elif t[0] == "$":
                out += holes[t[1:]]
            elif t[0] == "'":
                out.append(("p", t, props))
            elif re.match(r"\d", t):
                m = re.match(r"(\d+)(\w*)$", t)
                out.append(("lit", K(int(m.group(1))), {m.group(2), ""} - (set() if m.group(2) else {None}), props))
            elif re.match(r"\w", t) and t != "_":
                out.append(("id", ("k", t), props))
            else:
                out.append(("p", t, props))
        if end is not None:
            raise Unknown("template %r" % text)
        return out
    return run(None)


def commas(props, items):
    out = []
    for i in items:
        if out:
            out.append(("p", ",", props))
        out += i
    return out


# ----------------------------------------------------------------- actual tokens
class Infeasible(Exception):
    pass


class Flat:
    """tokens of a path, with what is still open decided by the judge"""

    def __init__(self, j, canon):
        self.j, self.canon = j, canon

    def parts(self, q):
        """parts -> tokens"""
        out = []
        for p in q:
            if p[0] == "u":
                v = strip(p[1])
                if isA(v, "tok"):
                    out += self.tok(v)
                else:
                    out += self.parts(toks(self.j.ip, v))
            elif p[0] == "join":
                # the separator comes before every element but the first of the whole list
                sep = self.parts(p[1])
                for i in self.items(p[2][1]):
                    if i[0] == "star":
                        out.append(("star", i[1], i[2], i[3] + tuple(sep)))
                    else:
                        out += list(i[1]) + list(sep) if sep else list(i[1])
                if sep and out[-len(sep):] == sep:
                    del out[-len(sep):]
            elif p[0] == "alt":
                out += self.parts(self.alt(p))
            elif p[0] == "*":
                out.append(("star", p[1], self.lin(p[2]), tuple(self.parts(p[3]))))
            else:
                raise Unknown("tokens %r" % (p[0],))
        return out

    def alt(self, p):
        for d, ps in p[1]:
            if all(self.j.cond(models.decs_cond(self.j.ip, (x,))) for x in d):
                return ps
        raise Infeasible()      # the alternatives are all ways to get here

    def items(self, q):
        """parts of a list -> elements"""
        for p in q:
            if p[0] == "u":
                yield ("one", tuple(self.parts((p,))))
            elif p[0] == "alt":
                for x in self.items(self.alt(p)):
                    yield x
            elif p[0] == "*":
                yield ("star", p[1], self.lin(p[2]), tuple(self.parts(p[3])))
            else:
                raise Unknown("elements %r" % (p[0],))

    def lin(self, l):
        for a in list(l.t):
            if isinstance(a, tuple) and a[0] == "min":
                if self.j.cond(("cmp", "le", a[1].add(-a[2]))):
                    l = l.subst(a, a[1])
                else:
                    l = l.subst(a, K(a[2]))
            elif isinstance(a, tuple) and a[0] == "wrap":
                x = a[2] if isinstance(a[2], Lin) else V(a[2])
                signed, bits = a[1][0] == "int", a[1][1]
                hi = (1 << (bits - 1 if signed else bits)) - 1
                lo = -(1 << (bits - 1)) if signed else 0
                for k in (0, 1, -1):
                    y = x.add(-k * (1 << bits))
                    if self.j.cond(("cmp", "le", y.add(-hi))) and self.j.cond(("cmp", "le", K(lo).sub(y))):
                        l = l.subst(a, y)
                        break
        return l

    def tok(self, v):
        k = v[2]
        if k == "id":
            return [("id", self.canon(v[3][0]))]
        if k == "p":
            s = v[3][0]
            return [("p", s)] if s[0] == "'" else [("p", c) for c in s]
        if k == "g":
            d = v[3][0]
            x = self.parts(v[3][1][1])
            if d == " ":
                return x
            return [("g", d, tuple(x))]
        x, ty = v[3]
        if isinstance(x, str):
            m = re.match(r"(\d+)_?([iu](?:8|16|32|64|128|size))?$", x)
            if m:
                return [("lit", K(int(m.group(1))), m.group(2) or "")]
            return [("lit", x, "")]
        if isinstance(x, Lin):
            return [("lit", self.lin(x), ty)]
        return [("lit", x, ty)]


def clean(ts, star=False):
    """drop documentation, lint and inlining attributes, and commas at the end of a group"""
    out = []
    i = 0
    while i < len(ts):
        t = ts[i]
        if t == ("p", "#") and i + 1 < len(ts) and ts[i + 1][0] == "g" and ts[i + 1][1] == "[":
            b = ts[i + 1][2]
            if b and b[0][0] == "id" and text_of(b[0][1]) in ("doc", "allow", "inline", "must_use", "rustfmt", "expect", "warn"):
                i += 2
                continue
        if t[0] == "g":
            t = ("g", t[1], tuple(clean(t[2])))
        elif t[0] == "star":
            t = t[:3] + (tuple(clean(t[3], True)),)
        out.append(t)
        i += 1
    while not star and out and out[-1] == ("p", ","):
        out.pop()
    return out


def text_of(q):
    if isQ(q) and all(p[0] == "k" for p in q[1]):
        return "".join(p[1] for p in q[1])
    return None


def show(t):
    """a token, readable"""
    if t is None:
        return "the end"
    if t[0] == "id":
        x = t[1]
        if isQ(x):
            return "".join(p[1] if p[0] == "k" else showterm(p[1]) for p in x[1])
        if x[0] == "k":
            return x[1]
        return "%s(%s)" % (x[0], x[1] if isinstance(x[1], str) else showterm(x[1]))
    if t[0] == "p":
        return t[1]
    if t[0] == "g":
        s = " ".join(show(x) for x in t[2])
        return "%s %s %s" % (t[1], s if len(s) < 90 else s[:90] + "...", OPEN[t[1]])
    if t[0] == "lit":
        return "%s%s" % (showterm(t[1]), t[2] if isinstance(t[2], str) else "")
    if t[0] == "star":
        return "(%s)*" % " ".join(show(x) for x in (t[3] if len(t) == 4 and isinstance(t[3], tuple) and t[3] and isinstance(t[3][0], tuple) else ()))
    if t[0] == "derive":
        return "derive(%s)" % ", ".join(sorted(t[1]))
    return str(t[0])


def showterm(x):
    if isinstance(x, Lin):
        if x.isc():
            return str(x.c)
        return " + ".join(("%d*" % k if k != 1 else "") + showterm(a) for a, k in x.t.items()) + (" + %d" % x.c if x.c else "")
    if isQ(x):
        return show(("id", x))
    if isinstance(x, Sym):
        return showterm(x.term)
    if isinstance(x, tuple) and x:
        if x[0] == "name":
            return "<%s>" % (x[1],)
        if x[0] == "num":
            return "number(%s)" % showterm(x[1])
        if x[0] == "sf":
            return "%s(%s)" % (x[1].rsplit("::", 1)[-1], showterm(x[2]))
        if x[0] == "dec":
            return showterm(x[1])
    return str(x)


# ----------------------------------------------------------------- comparison
SERDE = {"Serialize", "Deserialize", "XdrIndexer", "XdrUnion", "Default"}


def derive_set(t):
    """names inside #[derive(...)]"""
    if t[0] == "g" and t[1] == "[" and len(t[2]) == 2 and t[2][0][0] == "id" and t[2][1][0] == "g":
        k = t[2][0][1]
        k = text_of(k) if isQ(k) else k[1] if k[0] == "k" else None
        if k == "derive":
            xs = [x for x in t[2][1][2] if x[0] == "id"]
            return frozenset((text_of(x[1]) if isQ(x[1]) else x[1][1]) or "?" for x in xs)
    return None


class Match:
    def __init__(self, j, roles):
        self.j, self.roles = j, roles

    def lst(self, exp, act, props):
        """-> None, or (properties, text)"""
        i = k = 0
        while i < len(exp) or k < len(act):
            e = exp[i] if i < len(exp) else None
            a = act[k] if k < len(act) else None
            if a is not None and a[0] == "star" and self.j.cond(("cmp", "le", a[2])):
                k += 1
                continue
            if e is not None and e[0] == "star" and (a is None or a[0] != "star"):
                if self.j.cond(("cmp", "le", e[1])):
                    i += 1
                    continue
                # a first one, written out
                exp = exp[:i] + e[2](ZERO) + [("star", e[1].add(-1), lambda k, f=e[2]: f(k.add(1)), e[3])] + exp[i + 1:]
                continue
            if e is not None and e[0] == "rest" and a is not None:
                return None
            if e is not None and e[0] == "or":
                best = None
                for o in e[1]:
                    r = self.lst(list(o) + exp[i + 1:], act[k:], props)
                    if r is None:
                        return None
                    best = best or r
                return best
            if e is None:
                return (props, "unexpected `%s`" % show(a))
            if a is None:
                return (e[-1], "`%s` is missing" % show(e))
            r = self.one(e, a)
            if r:
                return r
            i += 1
            k += 1
        return None

    def one(self, e, a):
        bad = (e[-1], "`%s` instead of `%s`" % (show(a), show(e)))
        if e[0] != a[0]:
            return bad
        if e[0] == "p":
            return None if e[1] == a[1] else bad
        if e[0] == "g":
            if e[1] != a[1]:
                return bad
            de, da = derive_set(e), derive_set(a)
            if de is not None and da is not None:
                return None if de <= da and de & SERDE == da & SERDE else bad
            return self.lst(e[2], list(a[2]), e[3])
        if e[0] == "lit" and isinstance(e[1], tuple):
            return None if isinstance(a[1], str) and a[1].strip('r#') == '"%s"' % e[1][1] else bad
        if e[0] == "lit":
            if not isinstance(a[1], Lin) or not self.j.ip.prove_eq(self.j.st, e[1].sub(a[1])):
                return bad
            return None if a[2] in e[2] else (e[-1], "`%s` is of type %s" % (show(a), a[2]))
        if e[0] == "star":
            if not self.j.ip.prove_eq(self.j.st, e[1].sub(a[2])):
                return (e[3], "%s fillers instead of %s" % (showterm(a[2]), showterm(e[1])))
            return self.lst(e[2](V(a[1])), list(a[3]), e[3])
        # identifiers
        x = e[1]
        if x[0] == "k":
            return None if text_of(a[1]) == x[1] else bad
        if x[0] == "num":
            return None if self.number(x[1], x[2], a[1]) else bad
        want = self.roles.apply(x[0], x[1])
        return None if want == a[1] else bad

    def number(self, prefix, lin, q):
        """prefix followed by the decimal digits of lin"""
        if not isQ(q):
            return False
        t = text_of(q)
        if t is not None:
            return lin.isc() and t == prefix + str(lin.c)
        if len(q[1]) == 2 and q[1][0] == ("k", prefix) and q[1][1][0] == "s":
            d = q[1][1]
            return d[1][:1] == ("dec",) and isinstance(d[1][1], Lin) and d[2] == ZERO and self.j.ip.prove_eq(self.j.st, d[1][1].sub(lin))
        return False


HOLE = ("name", "?")


def positive(j, n):
    """is a counted number never negative?"""
    if not isinstance(n, Lin):
        return False
    # the number of a filler counts up from the first
    n = Lin(n.c, {a: v for a, v in n.t.items() if not (isinstance(a, tuple) and a[:1] == ("bv",) and v > 0)})
    return j.ip.prove_le(j.st, n.mul(-1))


def any_name(q, positive):
    """the shape of an identifier, whatever the names in it"""
    ns = set()

    def walk(v):
        if isinstance(v, Sym):
            walk(v.term)
        elif isinstance(v, Lin):
            for a in v.t:
                walk(a)
        elif isinstance(v, tuple):
            if v[:1] == ("name",):
                ns.add(v)
            else:
                for x in v:
                    walk(x)
    walk(q)
    if len(ns) == 1:
        q = replace_name(q, ns.pop(), Q(("s", HOLE, ZERO, V(("len", HOLE)))))
    if isQ(q):
        q = ("Q", tuple(("s", ("dec", positive(p[1][1])), ZERO, K(1)) if p[0] == "s" and p[1][:1] == ("dec",) else p for p in q[1]))
    return q


def show_shape(q):
    if not isQ(q):
        return repr(q)[:60]
    out = []
    for p in q[1]:
        if p[0] == "k":
            out.append(repr(p[1]))
        elif p[0] == "s" and p[1][:1] == ("name",):
            out.append("name")
        elif p[0] == "s" and p[1][:1] == ("sf",):
            out.append("%s(%s)" % (p[1][1].rsplit("::", 1)[-1], show_shape(p[1][2])))
        elif p[0] == "s":
            out.append("<%s>" % (p[1][0],))
        else:
            out.append(repr(p)[:30])
    return " ".join(out)



def hole(q, key):
    """the shape of an identifier made from the name `key`"""
    return replace_name(q, ("name", key), Q(("s", HOLE, ZERO, V(("len", HOLE)))))


def replace_name(v, name, q):
    """put the text q in the place of a name"""
    if isQ(v):
        out = []
        for p in v[1]:
            if p[0] == "s" and p[1] == name:
                out += list(q[1])
            elif p[0] == "s" and isinstance(p[1], tuple) and p[1][:1] == ("sf",):
                t = ("sf", p[1][1], replace_name(p[1][2], name, q))
                out.append(("s", t, ZERO, V(("len", t))))
            else:
                out.append(p)
        return ("Q", norm_parts(tuple(out)))
    if isinstance(v, Sym) and v.term == name:
        return q
    if isinstance(v, Sym) and isinstance(v.term, tuple) and v.term[:1] == ("sf",):
        t = ("sf", v.term[1], replace_name(v.term[2], name, q))
        return ("Q", (("s", t, ZERO, V(("len", t))),))
    return v


class Roles:
    """how names of types, variants, fields and constants are written: any function
    of the name, but the same one everywhere"""

    def __init__(self):
        self.shape = {}

    def bind(self, role, key, q):
        self.shape[role] = hole(q, key)

    def apply(self, role, x):
        if role not in self.shape:
            raise Unknown("no name function for %s" % role)
        q = x if isQ(x) else Q(("s", ("name", x), ZERO, V(("len", ("name", x)))))
        return replace_name(self.shape[role], HOLE, q)


# ----------------------------------------------------------------- the reference
I32 = (-(1 << 31), (1 << 31) - 1)
U32 = (0, (1 << 32) - 1)
U64 = (0, (1 << 64) - 1)
PRIM = {("Int", True): "i32", ("Int", False): "u32", ("Hyper", True): "i64", ("Hyper", False): "u64", ("Char", True): "i8", ("Char", False): "u8",
        ("Short", True): "i16", ("Short", False): "u16", ("Float",): "f32", ("Double",): "f64", ("Bool",): "bool"}
FLAGS = ("remove_typedef", "enum_impl_indexer", "enum_impl_std_trait", "union_impl_indexer", "union_impl_union")
ERR = [("or", (T(("G11", "G12"), "::serde_xdr::error::Error"), T(("G11", "G12"), "serde_xdr::error::Error")), ("G11", "G12"))]
KEY_ENUM = "an enum by its value inside a union"


class Ref:
    def __init__(self, j, defs):
        self.j, self.defs = j, defs
        self.known = []
        self.consts = {d[1]: d[2] for d in defs if d[0] == "const"}
        self.types = {}
        for d in defs:
            if d[0] == "typedef" and d[1][0] != "Void":
                self.types.setdefault(decl_name(d[1]), d)
            elif d[0] in ("enum", "struct", "union"):
                self.types.setdefault(d[1], d)

    def cfg(self, f):
        both = {"enum_impl_std_trait": "enum_impl_indexer", "union_impl_union": "union_impl_indexer"}
        if f in both and self.j.cond(("at", ("cfg", both[f]))):
            return False
        return self.j.cond(("at", ("cfg", f)))

    # ---- values
    def num(self, v, rng):
        if v[0] == "num":
            return K(v[1])
        radix = {"dec": 10, "hex": 16, "oct": 8}[v[0]]
        t = name_term(self, v[1])
        t = V(("num", t, radix))
        self.j.ip.bounds.setdefault(("num", t, radix), (-(1 << 200), 1 << 200))
        if not self.j.cond(("cmp", "le", t.add(-rng[1]))) or not self.j.cond(("cmp", "le", K(rng[0]).sub(t))):
            raise Unsupported("a number out of range")
        return t

    def resolve(self, v, rng, seen=()):
        if v[0] != "id":
            return self.num(v, rng)
        n = v[1]
        if n in seen:
            raise Unsupported("a value that refers to itself")
        if n in self.consts:
            try:
                return self.resolve(self.consts[n], rng, seen + (n,))
            except Unsupported:
                if any(a == n for d in self.defs if d[0] == "enum" for a, _ in d[2]):
                    raise Skip("a constant and an enumerator of one name")
                raise
        for d in self.defs:
            if d[0] == "enum":
                for a, x in d[2]:
                    if a == n:
                        return self.resolve(x, rng, seen + (n,))
        raise Unsupported("an unknown name")

    # ---- types
    def spec(self, s, props, seen=()):
        """-> (tokens, opaque)"""
        if s in PRIM:
            return T(props + ("G09",), PRIM[s]), None
        if s[0] != "Identifier":
            raise Unsupported("a type without representation")
        n = s[1]
        d = self.types.get(n)
        if self.cfg("remove_typedef") and d is not None and d[0] == "typedef":
            if n in seen:
                raise Unsupported("a type that refers to itself")
            t, o = self.decl(d[1], props + ("G18",), seen + (n,))
            return [x[:-1] + (tuple(dict.fromkeys(x[-1] + ("G18",))),) for x in t], o
        return [("id", ("type", n), props + ("G18",))], None

    def decl(self, d, props, seen=()):
        k = d[0]
        if k == "Void":
            raise Unsupported("void")
        if k == "Variable":
            return self.spec(d[1], props, seen)
        p9, p10 = props + ("G09",), props + ("G10",)
        if k == "FixedArray":
            t, o = self.spec(d[1], props, seen)
            if o:
                self.wrong_opaque()
            return [("g", "[", t + T(p9, ";") + self.length(d[3], p9), p9)], o
        if k == "VariableArray":
            t, o = self.spec(d[1], props, seen)
            if o == "fixed":
                self.wrong_opaque()
                return T(p9, "Vec<$t>", t=t), o
            if o == "variable":
                return T(p10, "Vec<serde_xdr::opaque::VariableArray>"), None
            return T(p9, "Vec<$t>", t=t), None
        if k == "OptionVariable":
            t, o = self.spec(d[1], props, seen)
            if o:
                self.wrong_opaque()
            return T(p9, "Option<$t>", t=t), o
        if k == "OpaqueFixedArray":
            return [("g", "[", T(p10, "u8;") + self.length(d[2], p10), p10)], "fixed"
        if k == "OpaqueVariableArray":
            return T(p10, "Vec<u8>"), "variable"
        return T(p10, "String"), None

    def through(self, x):
        """G18, if the representation of x is that of a typedef"""
        if x[0] in ("Variable", "FixedArray", "VariableArray", "OptionVariable") and x[1][0] == "Identifier":
            if any(d[0] == "typedef" and decl_name(d[1]) == x[1][1] for d in self.defs):
                return ("G18",)
        return ()

    def wrong_opaque(self):
        self.known.append((("G10",), "arrays and options of opaque data", "an array or option of opaque data gets the attribute of plain opaque data"))

    def wrong_enum(self):
        self.known.append((("G11",), "arrays and options of enums", "an array or option of enums in std-trait mode is given the attribute of a single enum, or none"))

    def length(self, v, props):
        if v[0] == "id":
            if v[1] not in self.consts:
                raise Skip("a length that is no constant")
            return [("id", ("const", v[1]), props)] + T(props, "as usize")
        x = self.num(v, U64)
        if not self.j.cond(("cmp", "le", x.add(-U32[1]))):
            raise Skip("a length beyond 32 bits")
        n = ("lit", x, {"", "usize"}, props)
        return [("or", ([("lit", x, {"", "usize", "u32", "u64"}, props)] + T(props, "as usize"), [n]), props)]

    def enums_in(self, d, seen=()):
        """does this declaration hold an array or option of enums behind a typedef?"""
        if d[0] not in ("Variable", "FixedArray", "VariableArray", "OptionVariable") or d[1][0] != "Identifier" or d[1][1] in seen:
            return False
        t = self.types.get(d[1][1])
        return t is not None and t[0] == "typedef" and (t[1][0] != "Variable" and self.enumty(t[1][1]) if t[1][0] in ("FixedArray", "VariableArray", "OptionVariable") else False) \
            or t is not None and t[0] == "typedef" and self.enums_in(t[1], seen + (d[1][1],))

    def enumty(self, s, seen=()):
        """is this type an enum, possibly behind typedefs?"""
        if s[0] != "Identifier" or s[1] in seen:
            return False
        d = self.types.get(s[1])
        if d is None:
            return False
        if d[0] == "enum":
            return True
        return d[0] == "typedef" and d[1][0] == "Variable" and self.enumty(d[1][1], seen + (s[1],))

    # ---- items
    def items(self):
        """-> [(properties, head, tokens)]"""
        out = []
        if any(d[0] == "enum" and not d[2] for d in self.defs):
            raise Skip("empty enum")
        self.cycles()
        for d in self.defs:
            if d[0] == "const":
                out += self.const(d)
        for d in self.defs:
            if d[0] == "typedef":
                if decl_name(d[1]) is None or self.cfg("remove_typedef"):
                    continue
                p = ("G18",)
                t, o = self.decl(d[1], p)
                if o:
                    raise Unsupported("a typedef of opaque data")
                out.append((p, "type", T(p, "type $n = $t;", n=[("id", ("type", decl_name(d[1])), p)], t=t)))
            elif d[0] == "enum":
                out += self.enum(d)
            elif d[0] == "struct":
                out += self.struct(d)
            elif d[0] == "union":
                out += self.union(d)
        return out

    def cycles(self):
        """references that lead back to themselves"""
        g = {}
        for n, v in self.consts.items():
            if v[0] == "id":
                g.setdefault(n, []).append(v[1])
        for d in self.defs:
            if d[0] == "enum":
                for a, v in d[2]:
                    if v[0] == "id":
                        g.setdefault(a, []).append(v[1])
            elif d[0] == "typedef" and d[1][0] in ("Variable", "OptionVariable", "FixedArray", "VariableArray") and d[1][1][0] == "Identifier":
                g.setdefault(decl_name(d[1]), []).append(d[1][1][1])
        for n in g:
            seen, w = set(), [n]
            while w:
                for y in g.get(w.pop(), ()):
                    if y == n:
                        raise Unsupported("a definition that refers to itself")
                    if y not in seen:
                        seen.add(y)
                        w.append(y)

    def const(self, d):
        p = ("G14", "G19")
        _, n, v = d
        nm = [("id", ("const", n), p)]
        try:
            x, ty = self.resolve(v, U32), "u32"
        except Unsupported:
            x, ty = self.resolve(v, U64), "u64"
        val = [("lit", x, {"", ty}, p)]
        if v[0] == "id" and v[1] in self.consts:
            # the number, or the constant of the same type
            val = [("or", (val, [("id", ("const", v[1]), p)]), p)]
        return [(p, "const", T(p, "pub const $n: %s = $v;" % ty, n=nm, v=val))]

    def distinct(self, xs):
        for i, a in enumerate(xs):
            for b in xs[:i]:
                if self.j.cond(("cmp", "eq", a.sub(b))):
                    raise Skip("equal values")

    def sort(self, xs):
        """[(value, ...)] by value"""
        out = []
        for x in xs:
            i = len(out)
            while i and self.j.cond(("cmp", "le", x[0].sub(out[i - 1][0]).add(1))):
                i -= 1
            out.insert(i, x)
        return out

    def enum(self, d):
        P = ("G11", "G19")
        p = ("G11",)
        pv = ("G11", "G14")
        _, n, assigns = d
        vs = [(self.resolve(v, I32), a) for a, v in assigns]
        self.distinct([v for v, _ in vs])
        vs = self.sort(vs)
        N = [("id", ("type", n), p)]
        indexer, std = self.cfg("enum_impl_indexer"), self.cfg("enum_impl_std_trait")
        rows = []
        last = None
        for v, a in vs:
            if not indexer and not std:
                if not self.j.cond(("cmp", "le", ZERO.sub(v))):
                    raise Unsupported("a negative value")
                s = ZERO if last is None else last.add(1)
                rows.append([("star", v.sub(s), lambda i, s=s: [("id", ("num", "_Reserved", s.add(i)), p)] + T(p, "=") + [("lit", s.add(i), {"", "i32"}, p)] + T(p, ","), p)])
            rows.append([("id", ("variant", a), p)] + T(p, "=") + [("lit", v, {"", "i32"}, pv)] + T(p, ","))
            last = v
        body = [t for r in rows for t in r]
        body.pop()
        var = lambda a: T(p, "$N::$a", N=N, a=[("id", ("variant", a), p)])
        num = lambda v: [("lit", v, {"", "i32"}, pv)]
        derive = "XdrIndexer" if indexer else "Deserialize, Serialize"
        out = [(P, "enum", T(p, "#[derive(Clone, Debug, PartialEq, %s)] #[repr(i32)] pub enum $N { $b }" % derive, N=N, b=body))]
        out.append((p, "Default", self.default(p, N, [[("id", ("variant", a), p)] for _, a in vs])))
        if std:
            out.append((p, "AsRef", T(p, "impl AsRef<i32> for $N { fn as_ref(&self) -> &'static i32 { match self { $r } } }", N=N,
                                      r=commas(p, [var(a) + T(p, "=> &") + num(v) for v, a in vs]))))
            out.append((p, "TryFrom", T(p, "impl TryFrom<i32> for $N { type Error = $E; fn try_from(v: i32) -> Result<Self, $E> { match v { $r, _ => Err($E::Convert) } } }", N=N, E=ERR,
                                        r=commas(p, [num(v) + T(p, "=> Ok($x)", x=var(a)) for v, a in vs]))))
        if indexer:
            ds = [T(p, "Err($E::Convert)", E=ERR)] + [T(p, "Ok(stringify!($a))", a=[("id", ("variant", a), p)]) for _, a in vs]
            out.append((p, "XdrIndexer", self.indexer(p, N, commas(p, [num(v) + T(p, "=> Ok(stringify!($a))", a=[("id", ("variant", a), p)]) for v, a in vs]),
                                                      [("or", tuple(ds), p)], commas(p, [var(a) + T(p, "=>") + num(v) for v, a in vs]))))
        return out

    def indexer(self, p, N, by, default, idx):
        return T(p, "impl XdrIndexer for $N { type Error = $E; fn name_by_index(index: i32) -> Result<&'static str, Self::Error> { match index { $b, _ => $d } } "
                    "fn index(&self) -> i32 { match self { $i } } }", N=N, E=ERR, b=by, d=default, i=idx)

    def default(self, p, N, choices):
        return T(p, "impl Default for $N { fn default() -> Self { $N::$d } }", N=N, d=[("or", tuple(choices), p)])

    def struct(self, d):
        p = ("G13",)
        _, n, decls = d
        rows = []
        std = self.cfg("enum_impl_std_trait")
        for x in decls:
            t, o = self.decl(x, p)
            attr = []
            if std and self.enums_in(x):
                self.wrong_enum()
            if o:
                q = ("G13", "G10") + self.through(x)
                attr = T(q, "#[serde(with = $m)]", m=[("lit", ("text", "serde_xdr::opaque::" + o), None, q)])
            elif x[0] in ("Variable", "FixedArray", "VariableArray", "OptionVariable") and std and self.enumty(x[1]):
                if x[0] != "Variable":
                    self.wrong_enum()
                q = ("G13", "G11") + self.through(x)
                attr = T(q, "#[serde(with = $m)]", m=[("lit", ("text", "serde_xdr::primitive::signed32"), None, q)])
            if x[0] in ("Variable", "FixedArray", "VariableArray", "OptionVariable") and x[1] == ("Identifier", n):
                alts = [T(p, "Box<$t>", t=t)]
                if x[0] == "OptionVariable":
                    alts.append(T(p, "Option<Box<$t>>", t=[("id", ("type", n), p)]))
                if x[0] == "VariableArray":
                    alts.append(t)
                t = [("or", tuple(alts), p)]
            rows.append(attr + T(p, "pub $f: $t", f=[("id", ("field", decl_name(x)), p)], t=t))
        return [(("G13", "G19"), "struct", T(p, "#[derive(Clone, Debug, Default, Deserialize, Serialize)] pub struct $N { $r }", N=[("id", ("type", n), p)], r=commas(p, rows)))]

    def union(self, d):
        p = ("G12",)
        _, n, cond, specs, default = d
        if cond[0] != "Variable":
            raise Unsupported("a discriminant that is no plain variable")
        ct = cond[1]
        N = [("id", ("type", n), p)]
        indexer, union = self.cfg("union_impl_indexer"), self.cfg("union_impl_union")
        plain = not indexer and not union
        std = self.cfg("enum_impl_std_trait")
        rows, arms = [], []
        if ct[0] in ("Int", "Identifier"):
            cty, o = self.spec(ct, p)
            if o or ct[0] == "Identifier" and not self.intlike(ct):
                raise Skip("a discriminant that is no number")
            vs = [(self.resolve(v, U32), v, x) for values, x in specs for v in values]
            self.distinct([v[0] for v in vs])
            vs = self.sort(vs)
            last = None
            for v, name, x in vs:
                if plain:
                    s = ZERO if last is None else last.add(1)
                    rows.append([("star", v.sub(s), lambda i, s=s: [("id", ("num", "_Reserved", s.add(i)), p)] + T(p, ","), p)])
                var = [("id", ("variant", name[1]) if name[0] == "id" else ("num", "Case", v), p + ("G14",) if name[0] == "id" else p)]
                row, pat = self.arm(var, x, cty)
                rows.append(row + T(p, ","))
                index = v if self.j.cond(("cmp", "le", v.add(-I32[1]))) else v.add(-(1 << 32))
                if self.enumty(ct):
                    if name[0] != "id":
                        if union:
                            raise Skip("a number as case of an enum")
                        key = None
                    else:
                        key = T(p, "$t::$v", t=cty, v=[("id", ("variant", name[1]), p)])
                else:
                    key = [("lit", v, {"", PRIM.get(self.final(ct), "")}, p + ("G14",))]
                arms.append((var, pat, index, key))
                last = v
            if std and union and self.enumty(ct):
                self.known.append((("G12",), KEY_ENUM, "the discriminant of a union in union mode is an enum serialized by its position"))
            total = False
        elif ct == ("Bool",):
            cty = T(p, "bool")
            seen = []
            found = {}
            for values, x in specs:
                for v in values:
                    b = self.truth(v)
                    if b in found:
                        raise Skip("equal values")
                    found[b] = (v, x)
            for b in (False, True):
                if b not in found:
                    if plain:
                        rows.append([("id", ("num", "_Reserved", K(int(b))), p)] + T(p, ","))
                    continue
                v, x = found[b]
                var = [("id", ("variant", v[1]), p)]
                row, pat = self.arm(var, x, cty)
                rows.append(row + T(p, ","))
                arms.append((var, pat, K(int(b)), T(p, "true" if b else "false")))
            total = len(found) == 2
        else:
            raise Unsupported("a discriminant without representation")
        choices = [(var, pat) for var, pat, _, _ in arms]
        if default is not None:
            var = T(p, "Default")
            row, pat = self.arm(var, default, cty)
            rows.append(row + T(p, ","))
            choices.append((var, pat))
        body = [t for r in rows for t in r]
        body.pop()
        derive = "XdrIndexer" if indexer else "XdrUnion" if union else "Deserialize, Serialize"
        out = [(("G12", "G19"), "union", T(p, "#[derive(Clone, Debug, %s)] pub enum $N { $b }" % derive, N=N, b=body))]
        ds = []
        for var, pat in choices:
            k = pat.count("_") + (1 if union else 0)
            ds.append(var + ([("g", "(", commas(p, [T(p, "Default::default()")] * k), p)] if k else []))
        out.append((p, "Default", self.default(p, N, ds)))
        other = T(p, "Ok(stringify!(Default))") if default is not None else T(p, "Err($E::Convert)", E=ERR)
        if indexer:
            idx = commas(p, [T(p, "$N::$v", N=N, v=var) + (T(p, "(_)") if pat else []) + T(p, "=>") + [("lit", i, {"", "i32"}, p)] for var, pat, i, _ in arms])
            if default is not None:
                idx += T(p, ", _ =>") + [("rest", p)]
            out.append((p, "XdrIndexer", self.indexer(p, N, commas(p, [[("lit", i, {"", "i32"}, p)] + T(p, "=> Ok(stringify!($v))", v=var) for var, _, i, _ in arms]), other, idx)))
        if union:
            ks = commas(p, [k + T(p, "=> Ok(stringify!($v))", v=var) for var, _, _, k in arms])
            rest = T(p, ", _ => $o", o=other)
            if total:
                rest = [("or", ([], rest), p)]
            out.append((p, "XdrUnion", T(p, "impl XdrUnion<$c> for $N { type Error = $E; fn name_by_value(value: &$c) -> Result<&'static str, Self::Error> { match value { $k $r } } }",
                                         N=N, c=cty, E=ERR, k=ks, r=rest)))
        return out

    def truth(self, v):
        if v[0] != "id":
            raise Skip("a number as case of a bool")
        for b in (False, True):
            x, y = sorted((name_term(self, v[1]), Q(("k", str(b).upper()))), key=repr)
            if self.j.cond(("at", ("eq", x, y))) if x != y else True:
                return b
        raise Skip("a case of a bool that is neither TRUE nor FALSE")

    def final(self, s):
        d = self.types.get(s[1]) if s[0] == "Identifier" else None
        if d is not None and d[0] == "typedef" and d[1][0] == "Variable":
            return self.final(d[1][1])
        return s

    def intlike(self, s):
        f = self.final(s)
        return f[0] == "Int" or f[0] == "Identifier" and (f[1] not in self.types or self.types[f[1]][0] == "enum")

    def arm(self, var, x, cty):
        """-> (tokens of the variant, "_" for a payload)"""
        p = ("G12",)
        union = self.cfg("union_impl_union")
        plain = not union and not self.cfg("union_impl_indexer")
        if x[0] == "Void":
            return var + (T(p, "($c)", c=cty) if union else []), ""
        t, o = self.decl(x, p)
        attr = []
        if self.cfg("enum_impl_std_trait") and self.enums_in(x):
            self.wrong_enum()
        if o:
            q = ("G12", "G10") + self.through(x)
            if plain:
                attr = T(q, "#[serde(with = $m)]", m=[("lit", ("text", "serde_xdr::opaque::" + o), None, q)])
            else:
                if o == "fixed":
                    self.known.append((("G10",), "fixed opaque data in a union", "fixed opaque data in an arm of a union is written with a length"))
                t = T(q, "serde_xdr::opaque::VariableArray")
        elif x[0] in ("Variable", "FixedArray", "VariableArray", "OptionVariable") and self.cfg("enum_impl_std_trait") and self.enumty(x[1]):
            q = ("G12", "G11") + self.through(x)
            if x[0] != "Variable":
                self.wrong_enum()
            elif plain:
                attr = T(q, "#[serde(with = $m)]", m=[("lit", ("text", "serde_xdr::primitive::signed32"), None, q)])
            else:
                self.known.append((("G12",), KEY_ENUM, "an enum in an arm of a union in indexer or union mode is serialized by its position"))
        if union:
            return attr + var + T(p, "($c, $t)", c=cty, t=t), "_"
        return attr + var + T(p, "($t)", t=t), "_"


def decl_name(d):
    return None if d[0] == "Void" else d[1] if d[0] in ("OpaqueFixedArray", "OpaqueVariableArray", "String") else d[2]


def name_term(ref, key):
    t = ("name", key)
    return Q(("s", t, ZERO, V(("len", t))))


# ----------------------------------------------------------------- the check
G = ("G08", "G09", "G10", "G11", "G12", "G13", "G14", "G15", "G18", "G19", "G20")


class GenCheck(Skeletons):
    def __init__(self):
        super().__init__()
        self.R = Report()
        self.roles = Roles()
        self.expanded = {}
        self.cache = {}

    # ---- names
    def canon(self, ip, q):
        """functions of a name that only call others are replaced by what they call"""
        if isinstance(q, Sym):
            q = Q(("s", q.term, ZERO, V(("len", q.term))))
        if not isQ(q):
            raise Unknown("an identifier made of %r" % (q,))
        out = []
        for p in q[1]:
            if p[0] == "s" and isinstance(p[1], tuple) and p[1][:1] == ("sf",):
                f, x = p[1][1], self.canon(ip, p[1][2])
                g = self.plain(ip, f)
                if g is not None:
                    out += list(self.canon(ip, replace_name(g, HOLE, x))[1])
                else:
                    t = ("sf", f, x)
                    out.append(("s", t, ZERO, V(("len", t))))
            else:
                out.append(p)
        return ("Q", norm_parts(tuple(out)))

    def plain(self, ip, f):
        if f not in self.expanded:
            self.expanded[f] = None
            b = ip.strfns.get(f)
            g = Gen(self.D, self.W)
            g.skeleton = True
            st = St()
            try:
                outs = g.exec_fn(st, b, [Q(("s", HOLE, ZERO, V(("len", HOLE))))], ())
            except (Unknown, Budget, NeedFork):
                outs = []
            ip.strfns.update(g.strfns)
            if len(outs) == 1 and outs[0][1] == "ret":
                v = strip(g.snap(outs[0][0], outs[0][2]))
                if isA(v, IDENT):
                    v = strip(v[3][0])
                if isinstance(v, Sym):
                    v = Q(("s", v.term, ZERO, V(("len", v.term))))
                if isQ(v) and all(p[0] == "k" or p[0] == "s" and (p[1] == HOLE or p[1][:1] == ("sf",)) and p[2] == ZERO for p in v[1]):
                    self.expanded[f] = v
        return self.expanded[f]

    def flat(self, j, v):
        """tokens of the generated text"""
        v = strip(v)
        t = v.term if isinstance(v, Sym) else v[1][0][1] if isQ(v) and len(v[1]) == 1 and v[1][0][0] == "s" else None
        if not isinstance(t, tuple) or t[0] != "tostr":
            raise Unknown("the result is %r" % (v,))

        def canon(q):
            f = fl
            return self.canon(j.ip, rewrite(q, lambda a: f.lin(V(a)) if isinstance(a, tuple) and a[:1] in (("min",), ("wrap",)) else None))
        fl = Flat(j, canon)
        return clean(fl.parts(t[1][1]))

    @staticmethod
    def split(ts):
        """tokens -> items"""
        out, cur = [], []
        for t in ts:
            cur.append(t)
            if t == ("p", ";") or t[0] == "g" and t[1] == "{" and not (cur[0][0] == "id" and text_of(cur[0][1]) == "use"):
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
        return out

    @staticmethod
    def kind(item):
        ids = [text_of(t[1]) for t in item if t[0] == "id"]
        for k in ("const", "type", "struct", "use", "mod", "fn", "trait", "static", "macro_rules"):
            if k in ids[:3]:
                return k
        if "impl" in ids[:2]:
            return next((x for x in ids if x in ("Default", "AsRef", "TryFrom", "XdrIndexer", "XdrUnion")), "impl")
        if "enum" in ids[:2]:
            return "enum"
        return "?"

    def uses(self, ref):
        p = ("G19",)
        ux, uu = ref.cfg("union_impl_indexer"), ref.cfg("union_impl_union")
        ex = ref.cfg("enum_impl_indexer")
        out = [["serde", "Serialize"], ["serde", "Deserialize"]]
        if ex or ux or uu:
            out.append(["serde", "ser", "SerializeTuple"])
        if ex or ux:
            out += [["serde_xdr", "XdrIndexer"], ["serde_xdr_derive", "XdrIndexer"]]
        if uu:
            out += [["serde_xdr", "XdrUnion"], ["serde_xdr_derive", "XdrUnion"]]
        return out

    @staticmethod
    def imported(items):
        out = set()

        def tree(ts, prefix):
            cur = list(prefix)
            for t in ts:
                if t[0] == "id":
                    cur.append(text_of(t[1]) or "?")
                elif t == ("p", "*"):
                    cur.append("*")
                elif t == ("p", ","):
                    out.add(tuple(cur))
                    cur = list(prefix)
                elif t[0] == "g":
                    tree(t[2], cur)
                    cur = None
                    break
            if cur:
                out.add(tuple(cur))
        for i in items:
            k = next(n for n, t in enumerate(i) if t[0] == "id" and text_of(t[1]) == "use")
            tree(i[k + 1:-1], ())
        return out

    # ---- one skeleton
    def spec(self, defs, tags, name):
        def spec(j):
            if j.kind == "panic":
                return [(("G08",), "panics: %s" % (j.v,))]
            ref = Ref(j, defs)
            r = strip(j.v)
            if not isA(r):
                raise Unknown("the result is %r" % (r,))
            for d, t in j.st.bat.items():
                if t and isinstance(d, tuple) and d[:1] == ("eq",) and {text_of(d[1]), text_of(d[2])} & {"String", "u8"}:
                    return []
            try:
                ts = self.flat(j, r[3][0]) if r[2] == 0 else None
                for t in self.every(ts or ()):
                    if t[0] == "id" and text_of(t[1]) is None:
                        self.R.shapes.setdefault(any_name(t[1], lambda n: positive(j, n)), name)
                exp = ref.items()
            except Infeasible:
                return []
            except Unsupported as e:
                if r[2] == 0:
                    return [(tuple(dict.fromkeys(("G08",) + tags)), "%s is not refused" % e)]
                return []
            except Skip:
                return []
            self.R.did(tags)
            if r[2] == 1:
                return [(tags, "is refused")]
            return self.compare(j, ref, exp, ts, tags, name)
        return spec

    def compare(self, j, ref, exp, ts, tags, name):
        items = self.split(ts)
        bad = []
        uses = [i for i in items if self.kind(i) == "use"]
        have = self.imported(uses)
        for u in self.uses(ref):
            if tuple(u) not in have and tuple(u[:-1]) + ("*",) not in have:
                bad.append((("G19",), "no `use %s`" % "::".join(u)))
        items = [i for i in items if self.kind(i) != "use"]
        m = Match(j, self.roles)
        for props, head, want in exp:
            best = None
            for i in items:
                if self.kind(i) not in (head, "enum" if head == "union" else head):
                    continue
                r = m.lst(self.opts(want, i), i, props)
                if r is None:
                    items.remove(i)
                    best = None
                    break
                # the one that gets furthest
                best = best or (i, r)
            else:
                if best is None:
                    bad.append((props, "no %s is generated" % head))
                else:
                    items.remove(best[0])
                    p, msg = best[1]
                    bad.append((tuple(dict.fromkeys(p + tuple(x for x in props if x != "G19"))), "%s: %s" % (head, msg)))
        for i in items:
            bad.append((tuple(dict.fromkeys(("G19",) + tags)), "unexpected `%s`" % " ".join(show(t) for t in i[:8])))
        if bad and ref.known:
            # the code of a recorded defect has changed: nothing is claimed for it
            self.R.open.append((name, tags, "the code of a recorded defect is not what it was: %s" % ref.known[0][1]))
            return []
        return bad + [(p, msg, key) for p, key, msg in ref.known]

    @staticmethod
    def opts(want, i):
        """a type alias may be public"""
        if want[0][0] == "id" and want[0][1] == ("k", "type") and i and i[0][0] == "id" and text_of(i[0][1]) == "pub":
            return [("id", ("k", "pub"), want[0][2])] + want
        return want

    def bind(self):
        """how names are written, from the simplest definitions"""
        for role, d, find in (("type", ("struct", "T", [("Variable", ("Int", True), "f")]), ("struct",)), ("field", ("struct", "T", [("Variable", ("Int", True), "f")]), None),
                              ("variant", ("enum", "E", [("V", ("dec", "v"))]), None), ("const", ("const", "C", ("dec", "v")), ("const",))):
            ip, outs = self.evaluate([d])
            done = []

            def spec(j):
                r = strip(j.v)
                if j.kind == "panic" or r[2] == 1 or done:
                    return []
                its = [i for i in self.split(self.flat(j, r[3][0])) if self.kind(i) != "use"]
                if not its:
                    return []
                i = its[0]
                key = {"type": "T", "field": "f", "variant": "V", "const": "C"}[role]
                c = [t[1] for t in self.every(i) if t[0] == "id" and has_name(t[1], ("name", key))]
                if not c:
                    return []
                self.roles.bind(role, key, c[0])
                done.append(1)
                return []
            judge(ip, outs, spec)
            if not done:
                raise Unknown("no code for %s" % (d,))

    def every(self, ts):
        for t in ts:
            if t[0] == "g":
                for x in self.every(t[2]):
                    yield x
            elif t[0] == "star":
                for x in self.every(t[3]):
                    yield x
            else:
                yield t

    def run(self, pid=None, tier="quick"):
        import multiprocessing
        try:
            self.bind()
        except (Unknown, Budget, Round) as e:
            self.R.undecided(G, "code generator", "%s: %s" % (type(e).__name__, e))
            return self.R
        work = family(tier, self.lengths())
        global POOL
        POOL = self
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
            for r in p.imap_unordered(run_one, sorted(work, key=lambda x: -cost(x))):
                self.R.merge(r)
        if pid in (None, "G08", "G15", "G20"):
            self.names()
        return self.R

    def names(self):
        """the identifiers that were written, for all names"""
        from . import names
        bodies = {}
        for b in self.D.bodies.values():
            if b["crate"] == "rpcgen" and b["kind"] == "fn":
                bodies.setdefault(b["path"], b)

        def each(props, what, q, f):
            nc = names.NameCheck(self.D, self.W, bodies)
            try:
                r = f(nc, q)
            except (Unknown, Budget) as e:
                self.R.undecided(props, what, str(e)[:300])
                return
            except Exception as e:
                tb = e.__traceback__
                while tb.tb_next:
                    tb = tb.tb_next
                self.R.undecided(props, what, "%s at %s:%d" % (repr(e)[:200], os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno))
                return
            self.R.did(props, len(nc.outcomes(q)))
            self.R.fn(props, *sorted(nc.n.visited))
            self.R.sample(props, "%s: %d outcomes of %d steps" % (what, len(nc.outcomes(q)), nc.n.steps))
            for x in sorted(set(nc.n.panics)):
                self.R.add(("G08", "G15"), what, "may panic: %s" % x)
            for x in [r] if isinstance(r, str) else r or []:
                self.R.add(props, what, x)
        for q in sorted(self.R.shapes, key=repr):
            each(("G15",), "identifier " + show_shape(q), q, lambda nc, q: nc.valid(q))
        for role, q in sorted(self.roles.shape.items()):
            each(("G20",), "name of a %s, %s" % (role, show_shape(q)), q, lambda nc, q: nc.spelling(role, q))

    def lengths(self):
        """lists longer than any number the generator counts with"""
        from .effects import operands
        ns = {20}
        for b in self.D.bodies.values():
            if b["crate"] == "rpcgen" and b["path"].startswith(GC) and b.get("kind") != "promoted":
                for bl in b["blocks"]:
                    for d in operands([bl["s"], bl["t"]]):
                        if "int" in d and "t" in d and self.D.ty(d["t"]).isint() and 12 < abs(int(d["int"])):
                            ns.add(abs(int(d["int"])) + 1)
        for n in ns:
            if 300 < n < 1 << 15:
                self.R.open.append(("lists of %d" % n, G, "the generator counts with %d" % (n - 1)))
        return sorted(n for n in ns if n <= 300)

    def one(self, name, tags, defs):
        try:
            ip, outs = self.evaluate(defs)
        except (Round, Endless) as e:
            self.R.add(("G08",) + tags, name, "does not end: %s" % e)
            return []
        self.R.saw(tags, ip)
        self.R.paths += len(outs)
        self.R.did(("G08",), len(outs))
        self.R.sample(tags, "%s: %d paths" % (name, len(outs)))
        res = judge(ip, outs, self.spec(defs, tags, name), limit=20000)
        for j, fails in res:
            strange = fails and ip.strange_in(j.st, j.v)
            if strange:
                self.R.undecided(tags, name, "depends on the library function %s" % ", ".join(strange))
                continue
            for f in fails:
                key = f[2] if len(f) > 2 else name
                self.R.add(f[0], key, f[1])
        return res


def has_name(v, name):
    if isQ(v):
        return any(has_name(p[1], name) for p in v[1] if p[0] == "s")
    if v == name:
        return True
    if isinstance(v, Sym):
        return has_name(v.term, name)
    return isinstance(v, tuple) and v[:1] == ("sf",) and has_name(v[2], name)


# ----------------------------------------------------------------- the skeletons
INT = ("Int", True)
ALLPRIM = [("Int", True), ("Int", False), ("Hyper", True), ("Hyper", False), ("Float",), ("Double",), ("Bool",), ("Char", True), ("Char", False), ("Short", True), ("Short", False)]
NOREP = [("Quadruple",), ("Void",), ("Enum",), ("Struct",), ("Union",)]


def Id(n):
    return ("Identifier", n)


def v(s, n="m"):
    return ("Variable", s, n)


def family(tier="quick", lengths=(20,)):
    """[(name, properties, definitions)]"""
    out = []

    def add(name, tags, *defs):
        out.append((name, tuple(tags.split()), list(defs)))
    D = lambda n: ("dec", n)
    kinds = {"plain": lambda s, n: v(s, n), "fixed array": lambda s, n: ("FixedArray", s, n, D("k" + n)), "array": lambda s, n: ("VariableArray", s, n, None),
             "bounded array": lambda s, n: ("VariableArray", s, n, D("k" + n)), "optional": lambda s, n: ("OptionVariable", s, n)}
    # members of structures
    for k, f in kinds.items():
        add("struct, primitive members, %s" % k, "G09 G13", ("struct", "S", [f(s, "m%d" % i) for i, s in enumerate(ALLPRIM)]))
        for s in NOREP:
            add("struct, member of type %s, %s" % (s[0], k), "G09", ("struct", "S", [f(s, "m")]))
        add("struct, member of an unknown type, %s" % k, "G13", ("struct", "S", [f(Id("T"), "m")]))
        add("struct, member of its own type, %s" % k, "G13", ("struct", "S", [f(Id("S"), "m"), v(INT, "n")]))
        for nm, d in (("enum", ("enum", "T", [("A", D("x"))])), ("struct", ("struct", "T", [v(INT, "x")])), ("union", ("union", "T", v(INT, "d"), [([D("y")], v(INT, "x"))], None))):
            add("struct, member of type %s, %s" % (nm, k), "G13", d, ("struct", "S", [f(Id("T"), "m"), v(INT, "n")]))
    add("struct, array lengths", "G09 G13", ("const", "K", D("k")), ("struct", "S", [("FixedArray", INT, "a", D("p")), ("FixedArray", INT, "b", ("hex", "q")), ("FixedArray", INT, "c", ("oct", "r")),
                                                                                   ("FixedArray", INT, "d", ("id", "K"))]))
    add("struct, opaque members", "G10 G13", ("const", "K", D("k")), ("struct", "S", [
        ("OpaqueFixedArray", "a", D("p")), ("OpaqueFixedArray", "b", ("hex", "q")), ("OpaqueFixedArray", "c", ("oct", "r")), ("OpaqueFixedArray", "d", ("id", "K")),
        ("OpaqueVariableArray", "e", None), ("OpaqueVariableArray", "f", D("s")), ("OpaqueVariableArray", "g", ("id", "K")),
        ("String", "h", None), ("String", "i", D("t")), ("String", "j", ("id", "K")), v(INT, "l")]))
    add("struct, a void member", "G13", ("struct", "S", [v(INT, "a"), ("Void",)]))
    add("struct, no member", "G13", ("struct", "S", []))
    add("struct, enum and own type", "G13 G11", ("struct", "S", [v(Id("E"), "a"), v(INT, "b"), ("OptionVariable", Id("S"), "c"), v(Id("E"), "d"), ("String", "e", None)]), ("enum", "E", [("A", D("x"))]))
    # typedefs
    tds = {"primitive": v(("Hyper", False), "T"), "array": ("FixedArray", INT, "T", D("k")), "vector": ("VariableArray", ("Short", True), "T", None), "option": ("OptionVariable", ("Double",), "T"),
           "string": ("String", "T", None), "opaque": ("OpaqueVariableArray", "T", None), "fixed opaque": ("OpaqueFixedArray", "T", D("k")),
           "unknown": v(Id("X"), "T"), "void": ("Void",), "quadruple": v(("Quadruple",), "T")}
    for nm, d in tds.items():
        tags = "G18 " + ("G10" if nm in ("string", "opaque", "fixed opaque") else "G09")
        add("typedef %s" % nm, tags, ("typedef", d))
        if nm == "void":
            continue
        add("typedef %s, in a struct" % nm, tags, ("typedef", d), ("struct", "S", [v(Id("T"), "a"), v(INT, "b")]))
        add("typedef %s, after its use" % nm, tags, ("struct", "S", [v(Id("T"), "a")]), ("typedef", d))
        for k, f in list(kinds.items())[1:]:
            add("typedef %s, %s" % (nm, k), tags, ("typedef", d), ("struct", "S", [f(Id("T"), "a")]))
        add("typedef %s, in a union" % nm, tags + " G12", ("typedef", d), ("union", "U", v(INT, "d"), [([D("x")], v(Id("T"), "a"))], v(Id("T"), "b")))
    add("typedef chain", "G18 G09", ("typedef", v(Id("P"), "Q")), ("typedef", v(Id("Q"), "R")), ("typedef", v(("Float",), "P")), ("struct", "S", [v(Id("R"), "a"), v(Id("Q"), "b"), v(Id("P"), "c")]))
    add("typedef chain of eight to an enum", "G18 G11 G13", ("enum", "E", [("A", D("x"))]), *[("typedef", v(Id("T%d" % (i + 1)) if i < 7 else Id("E"), "T%d" % i)) for i in range(8)],
        ("struct", "S", [v(Id("T0"), "a"), v(Id("T5"), "b")]))
    add("typedef chain of eight to opaque data", "G18 G10", *[("typedef", v(Id("T%d" % (i + 1)), "T%d" % i) if i < 7 else ("OpaqueVariableArray", "T7", None)) for i in range(8)],
        ("struct", "S", [v(Id("T0"), "a"), v(Id("T5"), "b"), ("VariableArray", Id("T3"), "c", None)]))
    add("typedef chain of arrays", "G18 G09", ("typedef", ("VariableArray", INT, "P", None)), ("typedef", ("FixedArray", Id("P"), "Q", D("k"))), ("typedef", ("OptionVariable", Id("Q"), "R")), ("struct", "S", [v(Id("R"), "a")]))
    add("typedef chain of opaque", "G18 G10", ("typedef", ("OpaqueVariableArray", "P", None)), ("typedef", v(Id("P"), "Q")), ("struct", "S", [v(Id("Q"), "a"), ("VariableArray", Id("Q"), "b", None)]))
    E2 = ("enum", "E", [("A", D("x")), ("B", D("y"))])
    E1 = ("enum", "E", [("A", D("x"))])
    add("typedef of an enum", "G18 G11 G13", ("typedef", v(Id("E"), "T")), ("typedef", v(Id("T"), "T2")), ("struct", "S", [v(Id("T"), "a"), v(Id("T2"), "b"), v(Id("E"), "c")]), E1)
    for k, f in list(kinds.items())[1:]:
        add("typedef of an enum, %s" % k, "G18 G11 G13 G12", E1, ("typedef", f(Id("E"), "T")), ("struct", "S", [v(Id("T"), "a"), v(Id("E"), "b")]), ("union", "U", v(INT, "d"), [([D("y")], v(Id("T"), "a"))], None))
        add("union, arm of an enum, %s" % k, "G12 G11", E1, ("union", "U", v(INT, "d"), [([D("y")], f(Id("E"), "a"))], None))
    add("typedef of a struct", "G18 G13", ("struct", "Q", [v(INT, "q")]), ("typedef", v(Id("Q"), "T")), ("struct", "S", [v(Id("T"), "a")]))
    add("typedef refers to itself", "G08", ("typedef", v(Id("T"), "T")), ("struct", "S", [v(Id("T"), "a")]))
    add("typedefs refer to each other", "G08", ("typedef", ("OptionVariable", Id("Q"), "P")), ("typedef", ("VariableArray", Id("R"), "Q", None)), ("typedef", ("FixedArray", Id("P"), "R", D("k"))), ("struct", "S", [v(Id("R"), "a")]))
    add("enum and constant of one name", "G14", ("const", "A", D("x")), ("enum", "E", [("A", D("y"))]), ("enum", "F", [("B", ("id", "A"))]))
    # long lists
    for n in lengths:
        N = lambda i: ("num", i)
        add("struct of %d members" % n, "G13", ("struct", "S", [v(INT, "m%d" % i) for i in range(n)]))
        add("enum of %d" % n, "G11", ("enum", "E", [("A%d" % i, N((i * 7) % n)) for i in range(n) if n % 7]))
        add("union of %d cases" % n, "G12", ("union", "U", v(INT, "d"), [([N((i * 7) % n)], v(INT, "a")) for i in range(n) if n % 7], ("Void",)))
        add("union, %d labels on one case" % n, "G12", ("union", "U", v(INT, "d"), [([N((i * 7) % n) for i in range(n) if n % 7], v(INT, "a"))], ("Void",)))
        add("%d structs" % n, "G19", *[("struct", "S%d" % i, [v(INT, "m")]) for i in range(n)])
        add("%d constants" % n, "G14 G19", *[("const", "C%d" % i, N(i)) for i in range(n)], ("enum", "E", [("A", ("id", "C%d" % (n - 1)))]))
        add("%d typedefs" % n, "G18", ("struct", "S", [v(Id("T%d" % (n - 1)), "a")]), *[("typedef", v(INT, "T%d" % i)) for i in range(n)])
        add("%d enums" % n, "G11 G14 G19", *[("enum", "E%d" % i, [("A%d" % i, N(i) if i else ("id", "A%d" % (n - 1)))]) for i in range(n)], ("const", "K", ("id", "A0")))
    add("chain of eight constants", "G14 G19", *[("const", "C%d" % i, D("x") if i == 0 else ("id", "C%d" % (i - 1))) for i in range(8)], ("enum", "E", [("A", ("id", "C7"))]))
    add("chain of eight typedefs", "G18", ("struct", "S", [v(Id("T7"), "a")]), *[("typedef", v(INT if i == 0 else Id("T%d" % (i - 1)), "T%d" % i)) for i in range(8)])
    # constants
    add("constants", "G14 G19", ("const", "C", D("x")), ("const", "D", ("hex", "y")), ("const", "E", ("oct", "z")))
    add("constants of one value", "G14 G19", ("const", "C", D("x")), ("const", "D", D("x")), ("struct", "S", [v(INT, "a")]), ("const", "F", ("id", "D")))
    add("definitions of one shape", "G19 G11 G12 G13", ("enum", "E", [("A", D("x"))]), ("enum", "F", [("B", D("x"))]), ("struct", "S", [v(INT, "a")]), ("struct", "T", [v(INT, "a")]),
        ("union", "U", v(INT, "d"), [([D("y")], v(INT, "b"))], None), ("union", "V", v(INT, "d"), [([D("y")], v(INT, "b"))], None))
    add("members of one type", "G13 G19", ("struct", "S", [v(Id("T"), "a"), v(Id("T"), "b"), v(INT, "c"), v(INT, "e"), ("String", "f", None), ("String", "g", None)]))
    add("constants by name", "G14 G19", ("const", "C", D("x")), ("const", "D", ("id", "C")), ("const", "E", ("id", "D")))
    add("constant by an unknown name", "G14", ("const", "C", D("x")), ("const", "D", ("id", "X")))
    add("constant by an enumerator", "G14 G19", ("const", "C", ("id", "A")), ("enum", "E", [("A", D("x"))]))
    add("constant refers to itself", "G08", ("const", "C", ("id", "C")))
    add("constants refer to each other", "G08", ("const", "C", ("id", "D")), ("const", "D", ("id", "C")), ("enum", "E", [("A", ("id", "C"))]))
    # enumerations
    add("enum of one", "G11", E1)
    add("enum of two", "G11", E2)
    add("enum of three", "G11", ("enum", "E", [("A", D("x")), ("B", ("hex", "y")), ("C", ("oct", "z"))]))
    if tier == "thorough":
        add("enum of four", "G11", ("enum", "E", [(a, D(a.lower())) for a in "ABCD"]))
    add("enum by constants", "G11 G14", ("const", "K", D("k")), ("enum", "E", [("A", ("id", "K")), ("B", ("id", "L"))]), ("const", "L", ("hex", "l")))
    add("enum by chains of constants", "G11 G14", ("const", "K", D("k")), ("const", "L", ("id", "K")), ("const", "M", ("id", "L")), ("enum", "E", [("A", ("id", "M")), ("B", D("y"))]))
    add("enum by enumerators", "G11 G14", ("enum", "E", [("A", D("x")), ("B", ("id", "A2"))]), ("enum", "F", [("A1", D("y")), ("A2", D("z"))]))
    add("enum by an unknown name", "G14", ("enum", "E", [("A", ("id", "K"))]), ("const", "L", D("x")))
    add("enumerator refers to itself", "G08", ("enum", "E", [("A", ("id", "A"))]))
    add("enumerators refer to each other", "G08", ("enum", "E", [("A", ("id", "B")), ("B", ("id", "C")), ("C", ("id", "B"))]))
    add("two enums", "G11 G19", E1, ("enum", "F", [("P", D("p"))]))
    # unions
    X = [D("x")]
    for nm, s in (("int", INT), ("unsigned int", ("Int", False)), ("a typedef", Id("T"))):
        pre = [("typedef", v(("Int", False), "T"))] if nm == "a typedef" else []
        add("union over %s" % nm, "G12", *pre, ("union", "U", v(s, "d"), [(X, v(INT, "a")), ([D("y")], ("Void",))], None))
        add("union over %s with default" % nm, "G12", *pre, ("union", "U", v(s, "d"), [(X, v(INT, "a"))], v(("Double",), "b")))
    add("union, one case, void default", "G12", ("union", "U", v(INT, "d"), [(X, ("Void",))], ("Void",)))
    add("union, two labels on one case", "G12", ("union", "U", v(INT, "d"), [([("hex", "x"), ("oct", "y")], v(("Hyper", True), "a"))], ("Void",)))
    add("union, three cases", "G12", ("union", "U", v(INT, "d"), [(X, ("Void",)), ([D("y")], ("Void",)), ([D("z")], ("Void",))], None))
    add("union by constants", "G12 G14", ("const", "K", D("k")), ("union", "U", v(INT, "d"), [([("id", "K")], v(INT, "a")), ([("id", "L")], ("Void",))], None), ("const", "L", ("id", "K2")), ("const", "K2", ("hex", "q")))
    add("union by enumerators over int", "G12 G14", E2, ("union", "U", v(INT, "d"), [([("id", "A")], v(INT, "a")), ([("id", "B")], ("Void",))], None))
    add("union by an unknown name", "G14", ("union", "U", v(INT, "d"), [([("id", "K")], v(INT, "a"))], None))
    add("union over an enum", "G12", E2, ("union", "U", v(Id("E"), "d"), [([("id", "A")], v(INT, "a")), ([("id", "B")], ("Void",))], None))
    add("union over an enum with default", "G12", E2, ("union", "U", v(Id("E"), "d"), [([("id", "B")], v(INT, "a"))], ("Void",)))
    add("union over a typedef of an enum", "G12 G18", ("typedef", v(Id("E"), "T")), E1, ("union", "U", v(Id("T"), "d"), [([("id", "A")], v(INT, "a"))], None))
    for i, d in enumerate([v(s, "a") for s in ALLPRIM[1:]] + [("FixedArray", INT, "a", D("k")), ("VariableArray", INT, "a", None), ("OptionVariable", INT, "a"), v(Id("T"), "a"), ("VariableArray", Id("T"), "a", None)]):
        add("union, arm %s" % " ".join(str(x) for x in ((d[0],) + (d[1] if isinstance(d[1], tuple) else ()))), "G12 G09", ("union", "U", v(INT, "d"), [(X, d)], d))
    for d in (("OpaqueFixedArray", "a", D("k")), ("OpaqueVariableArray", "a", None), ("OpaqueVariableArray", "a", D("k")), ("String", "a", None), ("String", "a", D("k"))):
        add("union, arm %s%s" % (d[0], "" if d[2] is None else " bounded"), "G12 G10", ("union", "U", v(INT, "d"), [(X, d)], None))
        add("union, default %s%s" % (d[0], "" if d[2] is None else " bounded"), "G12 G10", ("union", "U", v(INT, "d"), [(X, ("Void",))], d))
    add("union, arm of an enum", "G12 G11", E1, ("union", "U", v(INT, "d"), [([D("y")], v(Id("E"), "a"))], v(Id("E"), "b")))
    add("union, arm of its own type", "G12", ("union", "U", v(INT, "d"), [(X, ("VariableArray", Id("U"), "a", None))], ("Void",)))
    for s in NOREP:
        add("union, arm %s" % s[0], "G12", ("union", "U", v(INT, "d"), [(X, v(s, "a"))], None))
    for s in NOREP + [("Hyper", True), ("Float",), ("Double",), ("Char", True), ("Short", False)]:
        add("union over %s" % " ".join(map(str, s)), "G12", ("union", "U", v(s, "d"), [(X, v(INT, "a"))], None))
    for d in (("VariableArray", INT, "d", None), ("String", "d", None), ("Void",), ("OptionVariable", INT, "d"), ("OpaqueFixedArray", "d", D("k"))):
        add("union over a declaration %s" % d[0], "G12", ("union", "U", d, [(X, v(INT, "a"))], None))
    B = ("Bool",)
    add("union over bool", "G12", ("union", "U", v(B, "d"), [([("id", "x")], v(INT, "a")), ([("id", "y")], ("Void",))], None))
    add("union over bool, both labels on one case", "G12", ("union", "U", v(B, "d"), [([("id", "x"), ("id", "y")], v(INT, "a"))], None))
    add("union over bool, one case", "G12", ("union", "U", v(B, "d"), [([("id", "x")], v(INT, "a"))], None))
    add("union over bool, one case and default", "G12", ("union", "U", v(B, "d"), [([("id", "x")], ("OpaqueVariableArray", "a", None))], ("Void",)))
    add("union over bool, one case and payload default", "G12", ("union", "U", v(B, "d"), [([("id", "x")], ("Void",))], v(("Hyper", True), "a")))
    # several definitions
    S = ("struct", "S", [v(INT, "a")])
    U = ("union", "U", v(INT, "d"), [([D("q")], v(INT, "u"))], None)
    add("comments and programs", "G19", ("comment",), S, ("program",), ("const", "C", D("c")))
    add("nothing", "G19")
    add("all kinds", "G19", ("const", "C", D("c")), E1, S, U, ("typedef", v(("Float",), "T")))
    add("all kinds, other order", "G19", ("typedef", v(("Float",), "T")), U, S, ("comment",), E1, ("const", "C", D("c")), ("struct", "S2", [v(Id("T"), "b"), v(Id("E"), "e")]), ("const", "C2", D("c2")))
    return out


def cost(x):
    return sum(len(repr(d)) for d in x[2]) + 1000 * any(d[0] in ("enum", "union") and len(d[-1] or d[-2]) > 1 for d in x[2])


def run_one(x):
    """one skeleton, in a process of its own"""
    name, tags, defs = x
    c = POOL
    c.R = Report()
    try:
        c.one(name, tags, defs)
    except (Unknown, Budget, NeedFork) as e:
        c.R.open.append((name, tags, "%s: %s" % (type(e).__name__, str(e)[:400])))
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        c.R.open.append((name, tags, "%s at %s:%d" % (repr(e)[:300], os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)))
    return c.R
