"""The derive macros: their expansion for enumerations of every shape (witness_derive/)
is evaluated end to end through the codec, and the macro source itself is checked
to treat all variants and all fields alike (xsa/template rules in run_uniform)."""
import os
from . import frontend
from .engine import *
from .codec import *
from . import models



def m_table(ip, st, fr, c, args, dty, atys, sp):
    """the tables of the user's enumeration: uninterpreted functions of their argument"""
    return [(st, "ret", ip.mk((c.p.rsplit("::", 1)[1], ip.snap(st, args[0])), dty))]


ALSO_E = ("C10", "C13")
ALSO_D = ("C18", "C13")
WIDTH = {"u32": 4, "u64": 8, "i32": 4}


class Derive(Codec):
    def __init__(self):
        err = os.path.join(frontend.dump(), "witness_derive.err")
        self.err = open(err).read() if os.path.exists(err) else None
        if self.err is None:
            self.X = Dump(frontend.load("xwderive.lib"), "xwderive.lib")
        super().__init__()

    def ip(self):
        ip = Interp([self.D, self.W] + ([self.X] if self.err is None else []))
        models.install(ip, self.W)
        ip.pmodels.insert(0, (re.compile(r"(^|::)Xdr(Indexer|Union)(<.*>)?::(name_by_index|name_by_value|index)$"), m_table))
        return ip

    def run(self, pid=None):
        if self.err is not None:
            self.R.did(("C16", "C17", "C18"))
            self.R.add(("C16", "C17", "C18"), "derive macros", "the expansion does not compile: " + self.err[-900:])
            return self.R
        for r in self.X.roots:
            if r.get("tr") == "serde::Serialize":
                self.enum(r)
        self.uniform()
        return self.R

    def enum(self, r):
        X = self.X
        ty = unref(X.ty(r["self"]))
        vs = ty.raw["v"]
        union = ty.p.rsplit("::", 1)[-1].startswith("U")
        prop = "C17" if union else "C16"
        kind = "XdrUnion" if union else "XdrIndexer"
        name = ty.p.rsplit("::", 1)[-1]
        body = X.bodies[r["b"]]
        for k, v in enumerate(vs):
            fts = [X.ty(t).s for _, t in v["f"]]

            def build(ip, st):
                h = ("h", ip.fresh())
                self.val0 = st.mem[h] = A(ty.p, k, *[ip.mk(("f%d" % i,), X.ty(t)) for i, (_, t) in enumerate(v["f"])])
                return [("P", h, ()), self.new_ser(ip, st)]

            def spec(j):
                parts = []
                if not union:
                    parts.append(self.be_units(j.ip, 32, V(("index", self.val0))))
                for i, s in enumerate(fts):
                    x = j.norm(strip(self.val0[3][i]))
                    parts.append(self.be_units(j.ip, 8 * WIDTH[s], x))
                return self.expect_out(j, parts)
            self.check((prop,), "%s, variant with %d fields, encoded" % (kind, len(fts)), body, build, spec, ALSO_E)
        db = next(X.bodies[x["b"]] for x in X.roots if x.get("tr") == "serde::Deserialize" and unref(X.ty(x["self"])).p == ty.p)

        def build(ip, st):
            return [self.new_de(ip, st)]

        def take(j, s, off):
            """(value, bytes) of one field at off, or None when the input is too short"""
            n = WIDTH[s]
            if not self.need(j, off + n):
                return None
            w = self.wire(j, n, s == "i32", off)
            return j.norm(w), n

        def spec(j):
            ds = "i32" if not union else X.ty(vs[0]["f"][0][1]).s
            t = take(j, ds, 0)
            if t is None:
                return self.refuse(j, "truncated input")
            d, off = t
            name = ("name_by_value" if union else "name_by_index", d)
            if not j.is_(name, 0, 2):
                return self.refuse(j, "an unknown discriminant", ("C18",))
            s0 = j.norm(Sym(("f", name, 0, 0), None))
            for k, v in enumerate(vs):
                x, y = sorted((("Q", (("s", s0.term, K(0), V(("len", s0.term))),)), ("Q", (("k", v["n"]),))), key=repr)
                if not j.cond(("at", ("eq", x, y))):
                    continue
                got = [d] if union else []
                for _, t in v["f"][1 if union else 0:]:
                    t = take(j, X.ty(t).s, off)
                    if t is None:
                        return self.refuse(j, "a truncated variant")
                    got.append(t[0])
                    off += t[1]
                return self.ok_value(j, A(ty.p, k, *got), off)
            return self.refuse(j, "a name that is no variant", ("C18",))
        self.check((prop,), "%s %s decoded" % (kind, name), db, build, spec, ALSO_D)

    def refuse(self, j, why, props=()):
        if j.kind == "panic":
            return [(("C18", "C10"), "panics on %s: %s" % (why, j.v))]
        if self.res1(j)[1] == 0:
            return [(("C18",) + tuple(props), "%s is accepted" % why)]
        return []

    def no_panic(self, j):
        return [(("C18", "C10"), "panics: %s" % (j.v,))] if j.kind == "panic" else []

    # ------------------------------------------------ uniformity of the macro
    # The shapes of witness_derive/ (0..3, 12 and 20 fields, 1..6 variants) stand for
    # all shapes as long as the macro distinguishes shapes only by structure (what
    # kind of fields a variant has, whether there is a next one) and by numbers
    # up to LIMIT, which the witnesses lie on both sides of.
    LIMIT = 16
    STRUCT = re.compile(r"::(is_none|is_some|is_ok|is_err|is_empty|is_some_and|any|all|next)$")

    def uniform(self):
        from .effects import operands
        Z = Dump(frontend.load("serde_xdr_derive.lib"), "serde_xdr_derive.lib")
        props = {"xdr_indexer": ("C16", "C18"), "xdr_union": ("C17", "C18")}
        n = 0
        for b in Z.bodies.values():
            if b["crate"] != "serde_xdr_derive" or b.get("kind") == "promoted":
                continue
            ps = next((v for k, v in props.items() if b["path"].startswith(k)), ("C16", "C17", "C18"))
            self.R.fn(ps, b["path"])
            defs = {}
            for s in b["blocks"]:
                for st in s["s"]:
                    if st[0] == "=" and not st[1][1]:
                        defs.setdefault(st[1][0], []).append(("rv", st[2]))
                if s["t"][0] == "call" and not s["t"][3][1]:
                    defs.setdefault(s["t"][3][0], []).append(("call", s["t"][1], s["t"][2]))
            for s in b["blocks"]:
                for d in operands([s["s"], s["t"]]):
                    if "int" in d and "t" in d and Z.ty(d["t"]).k in ("int", "uint"):
                        n += 1
                        v = abs(int(d["int"]))
                        if v > self.LIMIT and v not in ((1 << 31), (1 << 32) - 1, (1 << 64) - 1):
                            self.R.add(ps, b["path"], "compares or counts with %d, beyond the shapes that are checked" % v, b.get("span"))
                    if isinstance(d.get("str"), str):
                        for m in re.findall(r"(?<![\w.])(\d+)(?:[ui](?:8|16|32|64|size))?(?![\w.])", d["str"]):
                            if int(m) > self.LIMIT:
                                self.R.add(ps, b["path"], "writes the number %s, beyond the shapes that are checked" % m, b.get("span"))
                t = s["t"]
                if t[0] == "switch":
                    n += 1
                    bad = self.branch(Z, defs, t[1], 0)
                    if bad and bad[0] == "!":
                        self.R.undecided(ps, b["path"], "distinguishes shapes by %s" % bad[1:])
                    elif bad:
                        self.R.add(ps, b["path"], "distinguishes shapes by %s" % bad, t[-1])
        self.R.did(("C16", "C17", "C18"), n)
        self.R.sample(("C16", "C17", "C18"), "%d branches, counts and written numbers of the macros: shapes are distinguished by structure or by numbers up to %d only" % (n, self.LIMIT))

    def branch(self, Z, defs, op, depth, seen=None):
        """why the value of `op` is not structural, or None"""
        seen = set() if seen is None else seen
        if op[0] == "k" or depth > 12:
            return None
        pl = op[1]
        if pl[1]:
            return None         # a field or an element of a structure
        if pl[0] in seen:
            return None
        seen.add(pl[0])
        for d in defs.get(pl[0], ()):
            if d[0] == "call":
                c = d[1]
                f = c[1].get("fn") if c[0] == "k" and isinstance(c[1], dict) else None
                if f is None:
                    return "!the result of an unknown call"
                if re.search(r"PartialEq(<.*>)?(>)?::(eq|ne)$|::(eq|ne|starts_with|ends_with|contains|matches)$", f["rp"]) or re.search(r"::(eq|ne)$", f["p"]):
                    return "comparing with %s" % f["p"]
                if re.search(r"::(cmp|partial_cmp|lt|le|gt|ge)$", f["rp"]):
                    return "!comparing with %s" % f["p"]
                continue
            rv = d[1]
            if rv[0] in ("use", "cast", "un", "copy"):
                for x in rv[1:]:
                    if isinstance(x, list) and x and x[0] in ("mv", "cp"):
                        r = self.branch(Z, defs, x, depth + 1, seen)
                        if r:
                            return r
            elif rv[0] in ("bin", "cbin"):
                xs = [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ("mv", "cp", "k")]
                if not any(self.const(defs, x) for x in xs) and len(xs) == 2:
                    return "!comparing two computed numbers"
        return None

    def const(self, defs, x, depth=0):
        if x[0] == "k":
            return True
        if x[1][1] or depth > 6:
            return False
        ds = defs.get(x[1][0], ())
        return bool(ds) and all(d[0] == "rv" and d[1][0] == "use" and self.const(defs, d[1][1], depth + 1) for d in ds)
