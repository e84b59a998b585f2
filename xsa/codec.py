"""The codec: every function of the Serializer / Deserializer implementations is
evaluated over all inputs (terms, not values) and compared with RFC 4506."""
import re
from . import frontend, models
from .engine import *
from .judge import *
from .compare import same

U32MAX = (1 << 32) - 1
I32MAX = (1 << 31) - 1
# properties examined on every path of the encoder / the decoder
ENCALSO = ("C09", "C10", "C13", "C14", "C22")
DECALSO = ("C09", "C10", "C11", "C12", "C13", "C14", "C22")
IN = ("input",)
OUT = ("output",)
# the output is a multiple of four bytes long when an operation starts: it starts
# empty (C21) and every operation adds a multiple of four (C14)
OLEN = V(("words", OUT)).mul(4)

ENC = {"C01": ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char", "unit", "unit_struct", "newtype_struct"],
       "C03": ["str", "bytes"],
       "C05": ["seq", "map", "tuple", "tuple_struct", "struct"],
       "C06": ["none", "some"],
       "C07": ["unit_variant", "newtype_variant", "tuple_variant", "struct_variant"]}
DEC = {"C02": ["any", "bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char", "unit", "unit_struct", "newtype_struct", "ignored_any"],
       "C04": ["str", "string", "bytes", "byte_buf", "identifier"],
       "C05": ["seq", "map", "tuple", "tuple_struct", "struct"],
       "C06": ["option"],
       "C07": ["enum"]}
PROP_E = {m: p for p, l in ENC.items() for m in l}
PROP_D = {m: p for p, l in DEC.items() for m in l}
INT = {"i8": (True, 8), "i16": (True, 16), "i32": (True, 32), "i64": (True, 64),
       "u8": (False, 8), "u16": (False, 16), "u32": (False, 32), "u64": (False, 64)}


class Codec:
    def __init__(self):
        self.D = Dump(frontend.load("serde_xdr.lib"), "serde_xdr.lib")
        self.W = Dump(frontend.load("xwitness.lib"), "xwitness.lib")
        self.R = Report()
        self.find_roles()

    # ------------------------------------------------------------ set-up
    def ip(self):
        ip = Interp([self.D, self.W])
        models.install(ip, self.W)
        ip.hvhook = self.changed
        return ip

    def changed(self, ip, st, h, t):
        """a decoder or encoder that was handed out comes back in some legal state: the
        position lies within the input, and counters have not come near 2^62"""
        if getattr(self, "def_", None) is None or t is None:
            return
        t = unref(t)
        if t.k != "adt":
            return
        if t.p == self.de.p:
            fs, k = self.def_, self.posi
        elif t.p == self.ser.p:
            fs, k = self.serf, []
        else:
            return
        for i, (n, ft) in enumerate(fs):
            if ft.k == "uint" and ft.bits() >= 64:
                ip.setb(("f", h, None, i), 0, 1 << 62)
        for i in k:
            st.facts += (V(("f", h, None, i)).sub(V(("len", ("f", h, None, self.ini[0])))),)

    def counter(self, ip, term, t):
        v = ip.mk(term, t)
        if t.k == "uint" and t.bits() >= 64:
            ip.setb(term, 0, 1 << 62)
        return v

    def roots(self, tr=None, path=None):
        for r in self.D.roots:
            if (tr is None or r.get("tr") == tr) and (path is None or r["path"] == path):
                yield r

    def find_roles(self):
        self.ser = self.de = None
        for r in self.D.roots:
            if r.get("tr") == "serde::Serializer" and self.ser is None:
                self.ser = unref(self.D.ty(r["self"]))
            if r.get("tr") == "serde::Deserializer" and self.de is None:
                self.de = unref(self.D.ty(r["self"]))
        if self.ser is None or self.de is None:
            raise Unknown("no Serializer / Deserializer implementation in the codec crate")
        self.errty = next((unref(self.D.ty(r["self"])) for r in self.D.roots if r.get("tr") == "serde::de::Error" and r["name"] == "custom"), None)
        if self.errty is None:
            raise Unknown("no error type in the codec crate")
        ip = self.ip()
        self.serf = ip.adt_variant_fields(self.ser, 0)
        self.def_ = ip.adt_variant_fields(self.de, 0)
        self.outi = [i for i, (n, t) in enumerate(self.serf) if is_seq_ty(unref(t)) ]
        self.ini = [i for i, (n, t) in enumerate(self.def_) if is_seq_ty(unref(t))]
        self.posi = [i for i, (n, t) in enumerate(self.def_) if t.k == "uint"]
        if len(self.outi) != 1 or len(self.ini) != 1:
            raise Unknown("unfamiliar codec state")
        if self.posi:
            self.choose_position()

    def choose_position(self):
        """which of the counters of the decoder, if any, is the position in the input: the reading under
        which decoding a word has the fewest differences"""
        meth = {r["name"]: self.D.bodies[r["b"]] for r in self.roots("serde::Deserializer")}
        best = None
        for c in [[i] for i in self.posi] + [[]]:
            self.posi, self.R = c, Report()
            for m in ("u32", "str"):
                if "deserialize_" + m in meth:
                    self.dec_method(m, PROP_D[m], meth["deserialize_" + m])
            n = len(self.R.findings) + len(self.R.open)
            if best is None or n < best[0]:
                best = (n, c)
        self.posi, self.R = best[1], Report()

    def new_ser(self, ip, st):
        fs = []
        for i, (n, t) in enumerate(self.serf):
            if i in self.outi:
                q = ("Q", (("s", OUT, K(0), OLEN),))
                ip.bounds[("words", OUT)] = (0, 1 << 60)
                st.mem[("alias", ("len", OUT))] = OLEN
                if t.k == "ref":
                    h = ("h", ip.fresh())
                    st.mem[h] = q
                    q = ("P", h, ())
                fs.append(q)
            else:
                fs.append(self.counter(ip, ("ser." + n,), t))
        h = ("h", ip.fresh())
        st.mem[h] = A(self.ser.p, 0, *fs)
        self.hser = h
        return ("P", h, ())

    def new_de(self, ip, st):
        fs = []
        for i, (n, t) in enumerate(self.def_):
            if i in self.ini:
                fs.append(("R", ip.as_seq(Sym(IN, unref(t)))))
            elif i in self.posi:
                p = ip.mk(("pos",), t)
                ip.setb(("pos",), 0, 1 << 62)
                st.facts += (p.sub(V(("len", IN))),)
                fs.append(p)
            else:
                fs.append(self.counter(ip, ("de." + n,), t))
        h = ("h", ip.fresh())
        st.mem[h] = A(self.de.p, 0, *fs)
        self.hde = h
        return ("P", h, ())

    def base(self):
        """position of the next byte to read, in terms of the original input"""
        return V(("pos",)) if self.posi else K(0)

    def rest(self, j, v=None):
        """remaining input of a deserializer value"""
        ip, st = j.ip, j.st
        if v is None:
            v = st.mem[self.hde]
        d = strip(v)
        f = lambda i: ip.project(d, ("f", None, i), self.def_[i][1])
        s = f(self.ini[0])
        if isinstance(s, Sym) or not isQ(strip(s)):
            s = ip.as_seq(ip.snap(st, s))
        s = strip(s)
        if self.posi:
            p = f(self.posi[0])
            _, r = ip.split(st, s, p)
            s = ("Q", r)
        return s

    def out(self, j, v=None):
        ip, st = j.ip, j.st
        if v is None:
            v = st.mem[self.hser]
        f = ip.project(strip(v), ("f", None, self.outi[0]), self.serf[self.outi[0]][1])
        return ip.as_seq(ip.snap(st, f))

    # expected byte strings
    OUT0 = ("s", OUT, K(0), OLEN)

    @staticmethod
    def be_units(ip, bits, l):
        return tuple(("u", ip.byte(bits, k, l)) for k in range(bits // 8))

    def word(self, n):
        return tuple(("u", K(x)) for x in n.to_bytes(4, "big"))

    def q(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, tuple) and p and isinstance(p[0], tuple):
                out.extend(p)
            else:
                out.append(p)
        return ("Q", norm_parts(tuple(out)))

    PARTS = ("encoder", "decoder", "entry", "opaque", "signed32", "errors", "effects", "readable")

    ONLY = {"C15": ("effects",), "C20": ("readable",), "C19": ("signed32",), "C21": ("entry",), "C22": ("encoder", "decoder", "entry", "opaque", "errors"), "C11": ("entry", "decoder"),
            "C08": ("opaque",), "C01": ("encoder",), "C03": ("encoder",), "C02": ("decoder",), "C04": ("decoder",)}

    def run(self, pid=None):
        for p in self.ONLY.get(pid, self.PARTS):
            getattr(self, "run_" + p)()
        return self.R

    # ------------------------------------------------------------ running
    def exec(self, ip, body, st, args):
        outs = ip.exec_fn(st, body, args)
        self.R.paths += len(outs)
        for k, v in ip.callsites.items():
            self.R.callsites[k] = self.R.callsites.get(k, 0) + v
        return outs

    def check(self, props, key, body, build, spec, also=()):
        """evaluate `body` on the arguments of build(ip, st) and judge it.  spec(j)
        returns the list of failures on one path: a message (against `props`) or a
        pair (properties, message), the message counting against `props` as well
        unless the properties are given with a leading "only".  The properties in
        `also` are examined on the same paths."""
        ip = self.ip()
        st = St()
        try:
            args = build(ip, st)
            outs = self.exec(ip, body, st, args)
            res = judge(ip, outs, spec)
            self.R.saw(tuple(props) + tuple(also), ip)
        except Unknown as e:
            self.R.undecided(tuple(props) + tuple(also), key, str(e)[:300])
            return
        except (ArithmeticError, AttributeError, LookupError, RecursionError, TypeError, ValueError) as e:
            # a shape of code the analysis has no case for
            self.R.undecided(tuple(props) + tuple(also), key, repr(e)[:300])
            return
        self.R.did(tuple(props) + tuple(also), len(res))
        self.R.sample(tuple(props) + tuple(also), "%s: %d paths" % (key, len(res)))
        for j, fails in res:
            strange = fails and ip.strange_in(j.st, j.v)
            if strange:
                self.R.undecided(tuple(props) + tuple(also), key, "depends on the library function %s" % ", ".join(strange))
                continue
            for f in fails:
                ps, msg = f if isinstance(f, tuple) else ((), f)
                full = tuple(ps[1:]) if ps and ps[0] == "only" else tuple(props) + tuple(ps)
                self.R.add(full, key, msg + self.path_text(j), body.get("span"))
            if "C12" in also:
                for what in self.big_allocs(j):
                    self.R.add(("C12",), key, "%s without the input bounding it" % what + self.path_text(j), body.get("span"))

    def big_allocs(self, j):
        """memory demands of this path that the size of the input does not bound"""
        bad = []
        cap = V(("len", IN)).mul(8).add(1 << 20)

        def walk(ps):
            for p in ps:
                if p[0] == "u" and isinstance(p[1], tuple) and p[1] and p[1][0] == "alloc":
                    n = j.norm(p[1][2])
                    ok = isinstance(n, Lin) and (j.ip.prove_le(j.st, n.sub(j.norm(cap))) or j.ip.prove_le(j.st, n.sub(j.norm(j.ip.cparam("N"))).add(-8)))
                    if not ok:
                        bad.append("%s reserves %s elements" % (p[1][1].rsplit("::", 1)[1], vtext(n)))
                elif p[0] == "*":
                    walk(p[3])
                elif p[0] == "alt":
                    for _, q in p[1]:
                        walk(q)
                elif p[0] != "u":
                    bad.append("an unbounded amount (%s)" % (p[0],))
        walk(j.st.mem.get(("AL",), EMPTYQ)[1])
        return bad

    def path_text(self, j):
        return "" if not j.st.dec else " [when %s]" % " and ".join(cond_text(d) for d in j.st.dec[-6:])

    # -------------------------------------------------- encoder expectations
    def expect_out(self, j, parts, payload=UNIT, prop=()):
        """Ok with the output extended by `parts`"""
        fails = []
        if j.kind == "panic":
            return [(("C10",), "panics: %s" % (j.v,))]
        st, var, pay, _ = self.res1(j)
        if var == 1:
            return [((), "returns an error where the value is encodable")]
        want = j.norm(self.q(self.OUT0, *parts))
        got = self.out(j)
        if not j.same(got, want):
            ps = list(prop)
            if not self.mult4(j, got):
                ps.append("C14")
            fails.append((tuple(ps), "writes %s, expected %s" % (qtext(got), qtext(want))))
        return fails

    def mult4(self, j, got):
        try:
            l = j.norm(parts_len(got[1])).sub(j.norm(OLEN))
            return all(v % 4 == 0 for v in l.t.values()) and l.c % 4 == 0
        except Exception:
            return False

    def res1(self, j):
        v = strip(j.v)
        if isA(v, RESULT):
            return (j.st, v[2], v[3][0], None)
        if isinstance(v, Sym):
            d = j.is_(v.term, 0, 2)
            return (j.st, 0 if d else 1, j.ip.mk(("f", v.term, 0 if d else 1, 0), None), v.term)
        raise Unknown("result value %r" % (v,))

    def expect_err(self, j, props=(), why="an error", kinds=("Convert",)):
        if j.kind == "panic":
            return [(("C10",), "panics where %s is required: %s" % (why, j.v))]
        st, var, pay, _ = self.res1(j)
        if var == 0:
            return [(tuple(props), "succeeds where %s is required" % why)]
        return self.names(pay, why[9:].strip("()"), kinds)

    def other_error(self, j, t, who, props=()):
        """the failure of the call `t` must come out as it is"""
        v = strip(j.v)
        if isinstance(v, Sym) and v.term == t:
            return []
        st, var, pay, term = self.res1(j)
        if var == 0 or term == t or getattr(strip(pay), "term", None) == ("f", t, 1, 0):
            return []
        return [(("C13",) + tuple(props), "turns the error of %s into %s" % (who, self.errname(pay) or vtext(pay)))]

    def errname(self, e):
        """variant of the codec's error type, when the value is built"""
        e = strip(e)
        if not isA(e) or e[1] != self.errty.p:
            return None
        return self.errty.raw["v"][e[2]]["n"]

    def names(self, pay, fault, kinds):
        """the error returned on this path names one of the faults that are there"""
        k = self.errname(pay)
        if kinds is None or k is None or k in kinds:
            return []
        return [(("only", "C22"), "reports %s as %s, expected %s" % (fault, k, " or ".join(kinds)))]

    # -------------------------------------------------- encoder
    def data_parts(self, j, term, L):
        pad = (4 - j.mod(L, 4)) % 4
        return (("s", term, K(0), j.lin(L)),) + tuple(("u", K(0)) for _ in range(pad))

    def run_encoder(self):
        meth = {}
        for r in self.roots("serde::Serializer"):
            meth[r["name"]] = self.D.bodies[r["b"]]
        for m, p in PROP_E.items():
            name = "serialize_" + m
            if name not in meth:
                self.R.add((p,), name, "not implemented by the serializer")
                continue
            self.enc_method(m, p, meth[name])
        for m, p in (("i128", "C01"), ("u128", "C01")):
            if "serialize_" + m in meth:
                self.wide(m, p, meth["serialize_" + m])
        for m, w in (("collect_seq", "collected_seq"), ("collect_map", "collected_map"), ("collect_str", "collected_str")):
            if m in meth:
                self.collected(m, self.wroot(w))
        if "collect_seq" in meth:
            self.uncounted(self.wroot("collected_some"))

    def uncounted(self, b):
        """a sequence of unknown length is refused, or gets the right count all the same"""
        vt = ("v",)

        def build(ip, st):
            ip.ety[vt] = self.u32(ip)
            return [self.new_ser(ip, st), ("R", ("Q", (("s", vt, K(0), ip.lenatom(vt)),)))]

        def spec(j):
            if j.events() is None or j.events():
                raise Unknown("calls %s" % [e[1] for e in j.events() or ()])
            if j.kind == "panic":
                return [(("C10",), "panics: %s" % (j.v,))]
            if self.res1(j)[1] == 1:
                return []
            got = self.out(j)
            ps = got[1][1:]
            if got[1][:1] != (self.OUT0,) or len(ps) < 4 or any(p[0] != "u" or not isinstance(p[1], Lin) or not p[1].isc() for p in ps[:4]):
                raise Unknown("unfamiliar count")
            n = int.from_bytes(bytes(p[1].c for p in ps[:4]), "big")
            if not j.le(V(("len", vt)), n) and len(ps) > 4:
                return ["counts %d elements of an iterator that may yield more" % n]
            return []
        self.check(("C05",), "collect_seq of an unknown number", b, build, spec, ENCALSO)

    def wide(self, m, prop, body):
        """integers of 128 bits, which RFC 4506 does not have: refused, or written whole"""
        def build(ip, st):
            return [self.new_ser(ip, st), ip.mk(("a1",), self.D.ty(body["locals"][2]))]

        def spec(j):
            if j.kind != "panic" and self.res1(j)[1] == 1:
                return []
            return self.noev(j.events()) + self.expect_out(j, (self.be_units(j.ip, 128, j.lin(V(("a1",)))),), prop=("C09",))
        self.check((prop,), "serialize_" + m, body, build, spec, ENCALSO)

    def collected(self, m, b):
        """a provided method of serde's that the serializer overrides"""
        vt = ("v",)

        def build(ip, st):
            if m == "collect_str":
                return [self.new_ser(ip, st), ("R", ip.as_seq(Sym(vt, self.W.ty(b["locals"][2]).sub())))]
            ip.ety[vt] = self.u32(ip)
            return [self.new_ser(ip, st), ("R", ("Q", (("s", vt, K(0), ip.lenatom(vt)),)))]

        def spec(j):
            n = V(("len", vt))
            if j.events() is None or j.events():
                raise Unknown("calls %s" % [e[1] for e in j.events() or ()])
            if not j.le(n, U32MAX):
                return self.expect_err(j, ("C09",), "an error (the length does not fit in 32 bits)")
            pre = self.be_units(j.ip, 32, j.lin(n))
            if m == "collect_str":
                return self.noev(j.events()) + self.expect_out(j, (pre, self.data_parts(j, vt, n)))
            bv = ("bv", 0)
            el = V(("at", vt, V(bv)))
            j.ip.bounds.setdefault(("at", vt, V(bv)), (0, U32MAX))
            parts = self.be_units(j.ip, 32, el) + (self.word(7) if m == "collect_map" else ())
            return self.noev(j.events()) + self.expect_out(j, (pre, ("*", bv, j.lin(n), parts)))
        self.check(("C03",) if m == "collect_str" else ("C05",), m, b, build, spec, ENCALSO)

    def enc_method(self, m, prop, body):
        key = "serialize_" + m
        if m in ("seq", "map", "tuple", "tuple_struct", "struct", "tuple_variant", "struct_variant"):
            self.enc_compound(m, prop, body)
            return
        names = {}

        def build(ip, st):
            a = [self.new_ser(ip, st)]
            for i in range(1, body["argc"]):
                ty = self.D.ty(body["locals"][i + 1])
                nm = ("a%d" % i,)
                if ty.k == "ref" and is_seq_ty(ty.sub()):
                    a.append(("R", ip.as_seq(Sym(nm, ty.sub()))))
                elif ty.k == "ref":
                    a.append(Sym(nm, ty))
                else:
                    a.append(ip.mk(nm, ty))
            return a

        def spec(j):
            ip = j.ip
            ev = j.events()
            if m in INT:
                s, bits = INT[m]
                w = max(bits, 32)
                return self.noev(ev) + self.expect_out(j, (self.be_units(ip, w, j.lin(V(("a1",)))),))
            if m == "char":
                return self.noev(ev) + self.expect_out(j, (self.be_units(ip, 32, j.lin(V(("a1",)))),))
            if m in ("f32", "f64"):
                w = int(m[1:])
                ip.bounds.setdefault(("fbits", ("a1",)), (0, (1 << w) - 1))
                return self.noev(ev) + self.expect_out(j, (self.be_units(ip, w, V(("fbits", ("a1",)))),))
            if m == "bool":
                t = j.cond(("at", ("a1",)))
                return self.noev(ev) + self.expect_out(j, (self.word(1 if t else 0),))
            if m in ("unit", "unit_struct"):
                return self.noev(ev) + self.expect_out(j, ())
            if m == "none":
                return self.noev(ev) + self.expect_out(j, (self.word(0),))
            if m in ("str", "bytes"):
                L = V(("len", ("a1",)))
                if not j.le(L, U32MAX):
                    return self.noev(ev) + self.expect_err(j, ("C09",), "an error (the length does not fit in 32 bits)")
                Ln = j.lin(L)
                return self.noev(ev) + self.expect_out(j, (self.be_units(ip, 32, Ln), self.data_parts(j, ("a1",), L)))
            if m == "unit_variant":
                return self.noev(ev) + self.variant(j, V(("a2",)), lambda pre: self.expect_out(j, pre))
            if m == "newtype_struct":
                return self.one_elem(j, (), Sym(("a2",), None), ())
            if m == "some":
                return self.one_elem(j, (self.word(1),), Sym(("a1",), None), ())
            if m == "newtype_variant":
                return self.variant(j, V(("a2",)), lambda pre: self.one_elem(j, pre, Sym(("a4",), None), ()))
            raise Unknown(m)
        self.check((prop,), key, body, build, spec, ENCALSO)

    def noev(self, ev):
        if ev is None:
            return ["calls into foreign code in a loop"]
        return ["calls %s" % e[1] for e in ev]

    def variant(self, j, idx, f):
        if not j.le(idx, I32MAX):
            ev = j.events() or []
            fs = self.expect_err(j, ("C09",), "an error (the variant index does not fit in a signed 32-bit discriminant)")
            return fs
        return f((self.be_units(j.ip, 32, j.lin(idx)),))

    def one_elem(self, j, pre, elem, post, payload=None):
        """exactly one call elem.serialize(serializer with out0 ++ pre), its error
        propagated, and `post` written afterwards"""
        ip, st = j.ip, j.st
        if j.kind == "panic":
            return [(("C10",), "panics: %s" % (j.v,))]
        ev = j.events()
        if ev is None or len(ev) != 1 or ev[0][1] != "serde::Serialize::serialize":
            return ["does not serialize its content exactly once (%s)" % ([e[1] for e in ev or ()],)]
        fails = []
        e = ev[0]
        if strip(e[3][0]) != ip.snap(st, elem) and getattr(strip(e[3][0]), "term", None) != elem.term:
            fails.append("serializes something else than its content")
        sv = strip(e[3][1])
        if not isA(sv, self.ser.p):
            fails.append("does not hand the codec's serializer to the content")
        else:
            want = j.norm(self.q(self.OUT0, *pre))
            got = self.out(j, sv)
            if not j.same(got, want):
                fails.append("before the content it writes %s, expected %s" % (qtext(got), qtext(want)))
        t = e[4]
        okv = j.is_(t, 0, 2)
        s, var, pay, term = self.res1(j)
        if okv and var == 1:
            fails.append("fails although the content was serialized")
        if not okv and var == 0:
            fails.append((("C13",), "swallows the error of its content"))
        if not okv and var == 1:
            fails += self.other_error(j, t, "its content")
        if okv and var == 0:
            q = self.out(j)
            want = self.q(self.hv_out(j, t), *post)
            if not j.same(q, j.norm(want)):
                fails.append("after the content the output is %s, expected %s" % (qtext(q), qtext(want)))
        return fails

    def hv_out(self, j, term):
        """output after the opaque call `term`"""
        for i in range(4):
            s = Sym(("hv", term, i), self.ser)
            got = self.out(j)
            t = ("f", ("hv", term, i), None, self.outi[0])
            if mentions_term(got, t):
                return ("s", t, K(0), V(("len", t)))
        return ("s", ("f", ("hv", term, 1), None, self.outi[0]), K(0), V(("len", ("f", ("hv", term, 1), None, self.outi[0]))))

    def wroot(self, name):
        for r in self.W.roots:
            if r["path"] == "codec::" + name or r["path"].endswith("codec::" + name):
                return self.W.bodies[r["b"]]
        raise Unknown("witness %s missing" % name)

    def enc_compound(self, m, prop, body):
        W = {"seq": ["seq"], "map": ["map", "map_entries"], "tuple": ["tuple"], "tuple_struct": ["tuple_struct"],
             "struct": ["structure"], "tuple_variant": ["tuple_variant"], "struct_variant": ["struct_variant"]}[m]
        W1 = {"seq": ["seq1"], "map": ["map_key1", "map_value1", "map_ekey1", "map_evalue1"], "tuple": ["tuple1"], "tuple_struct": ["tuple_struct1"],
              "struct": ["structure1", "structure_skip1"], "tuple_variant": ["tuple_variant1"],
              "struct_variant": ["struct_variant1", "struct_variant_skip1"]}[m]
        vt = ("v",)

        def pre(j, n, f):
            if m in ("seq", "map"):
                if not j.le(n, U32MAX):
                    return self.expect_err(j, ("C09",), "an error (the element count does not fit in 32 bits)")
                return f((self.be_units(j.ip, 32, j.lin(n)),))
            if m.endswith("variant"):
                return self.variant(j, V(("i",)), f)
            return f(())

        for w in W:
            b = self.wroot(w)

            def build(ip, st):
                ip.setb(("i",), 0, U32MAX)
                ip.ety[vt] = self.u32(ip)
                return [self.new_ser(ip, st), ("R", ("Q", (("s", vt, K(0), ip.lenatom(vt)),)))] + ([V(("i",))] if b["argc"] == 3 else [])

            def spec(j):
                n = V(("len", vt))

                def body(p):
                    bv = ("bv", 0)
                    el = V(("at", vt, V(bv)))
                    j.ip.bounds.setdefault(("at", vt, V(bv)), (0, U32MAX))
                    parts = self.be_units(j.ip, 32, el)
                    if m == "map":
                        parts = parts + self.word(7)
                    return self.noev(j.events()) + self.expect_out(j, p + (("*", bv, j.lin(n), parts),))
                return pre(j, n, body)
            self.check((prop,), "serialize_%s (%s of n elements)" % (m, w), b, build, spec, ENCALSO)
        for w in W1:
            b = self.wroot(w)

            def build(ip, st):
                ip.setb(("i",), 0, U32MAX)
                return [self.new_ser(ip, st), Sym(("x",), self.W.ty(b["locals"][2]))] + ([V(("i",))] if b["argc"] == 3 else [])

            def spec(j):
                seven = self.word(7)
                return pre(j, K(1), lambda p: self.one_elem(j, p + ((seven,) if w in ("map_value1", "map_evalue1") else ()), Sym(("x",), None),
                                                        (seven,) if w in ("map_key1", "map_ekey1") else ()))
            self.check((prop,), "serialize_%s (%s of one element)" % (m, w[:-1]), b, build, spec, ENCALSO)
        if m in ("seq", "map"):
            # an unknown length cannot be framed
            def build(ip, st):
                return [self.new_ser(ip, st), NONE]

            def spec(j):
                return self.expect_err(j, ("C09",), "an error (the element count is unknown)", ("NotSupported", "NotImplemented"))
            self.check((prop,), "serialize_%s without a length" % m, body, build, spec, ENCALSO)

    # -------------------------------------------------- decoder
    def need(self, j, k):
        """at least k bytes remain at the start"""
        return j.le(self.base().add(k) if isinstance(k, int) else self.base().add(k), V(("len", IN)))

    def dec_rest(self, j, used, v=None):
        got = self.rest(j, v)
        lo = j.lin(self.base().add(used))
        want = ("Q", norm_parts((("s", IN, lo, j.lin(V(("len", IN)))),)))
        if not j.same(got, want):
            d = j.norm(parts_len(got[1])).sub(j.norm(parts_len(want[1])))
            odd = d.c % 4 or any(v % 4 for v in d.t.values())
            ps = ("C14",) if odd else ()
            if j.same(got, EMPTYQ):
                ps += ("C11",)      # whatever else the input holds goes unnoticed
            return [(ps, "leaves %s unread, expected %s" % (qtext(got), qtext(want)))]
        return []

    def no_panic(self, j):
        if j.kind == "panic":
            return [(("C10",), "panics: %s" % (j.v,))]
        return []

    FAULTS = (("truncated", ("NotEnoughData",)), ("a value out", ("Convert",)), ("a number", ("Convert",)), ("a negative", ("Convert",)),
              ("text that", ("Encoding",)), ("a request", ("NotImplemented", "NotSupported")))

    def reject(self, j, why, props=(), kinds=None):
        """`why` is what is wrong with the input: no visitor is reached, and the error
        is one that says so (`kinds`, when more than one thing may be wrong)"""
        if j.kind == "panic":
            return self.no_panic(j)
        st, var, pay, _ = self.res1(j)
        ev = j.events()
        if ev:
            return [(tuple(props), "%s reaches the visitor (%s)" % (why, ev[0][1]))]
        if var == 0:
            return [(tuple(props), "%s is accepted" % why)]
        return self.names(pay, why, kinds or next((k for w, k in self.FAULTS if why.startswith(w)), None))

    def visit(self, j, names, val, used, snapshot=None):
        """exactly one visitor call, with the value, whose result is returned"""
        if j.kind == "panic":
            return self.no_panic(j)
        ev = j.events()
        if ev is None or len(ev) != 1 or ev[0][1].rsplit("::", 1)[1] not in names or "Visitor" not in ev[0][1]:
            got = [e[1] for e in ev or ()]
            st, var, pay, _ = self.res1(j) if not got else (None, None, None, None)
            if var == 1:
                return ["fails on valid input (no call of %s)" % names[0]]
            return ["expected one call of %s, found %s" % (names[0], got or "none")]
        e = ev[0]
        fails = []
        args = e[3]
        if val is not None:
            if len(args) != 2 or not j.same(args[1], val):
                fails.append("passes %s to %s, expected %s" % (vtext(args[1] if len(args) > 1 else None), names[0], vtext(val)))
        if snapshot:
            if len(args) != 2 or not isA(strip(args[1]), self.de.p):
                fails.append("does not pass the deserializer to %s" % names[0])
            else:
                fails += self.dec_rest(j, used, args[1])
        else:
            fails += self.dec_rest(j, used)
        v = strip(j.v)
        if not (isinstance(v, Sym) and v.term == e[4]):
            # re-wrapped: it must be Ok exactly when the visitor was
            ok = j.is_(e[4], 0, 2)
            st, var, pay, _ = self.res1(j)
            if ok != (var == 0):
                fails.append((("C13",), "the visitor's %s is turned into %s" % ("success" if ok else "error", "an error" if var else "success")))
            elif not ok:
                fails += self.other_error(j, e[4], "the visitor")
        return fails

    def run_decoder(self):
        meth = {}
        for r in self.roots("serde::Deserializer"):
            meth[r["name"]] = self.D.bodies[r["b"]]
        for m, p in PROP_D.items():
            name = "deserialize_" + m
            if name not in meth:
                self.R.add((p,), name, "not implemented by the deserializer")
                continue
            if m in ("seq", "map", "tuple", "tuple_struct", "struct", "enum"):
                self.dec_compound(m, p, meth[name])
            else:
                self.dec_method(m, p, meth[name])
        for m in ("i128", "u128"):
            if "deserialize_" + m in meth:
                self.dec_method(m, "C02", meth["deserialize_" + m])

    def dec_args(self, body, visitor, over={}):
        def build(ip, st):
            a = [self.new_de(ip, st)]
            for i in range(1, body["argc"]):
                ty = self.D.ty(body["locals"][i + 1])
                nm = ("a%d" % i,)
                if i in over:
                    a.append(over[i](ip, st, ty))
                elif i == body["argc"] - 1 and visitor is not None:
                    a.append(visitor)
                elif ty.k == "ref" and is_seq_ty(ty.sub()):
                    a.append(("R", ip.as_seq(Sym(nm, ty.sub()))))
                else:
                    a.append(ip.mk(nm, ty))
            return a
        return build

    def wire(self, j, n, signed, off):
        return j.be(n, signed, IN, j.lin(self.base().add(off)))

    def dec_method(self, m, prop, body):
        key = "deserialize_" + m

        def spec(j):
            ip = j.ip
            if m in ("any", "ignored_any"):
                fs = self.reject(j, "a request for self-describing data")
                return fs and fs + self.dec_rest(j, 0)
            if m in ("unit", "unit_struct"):
                return self.visit(j, ["visit_unit"], None, 0)
            if m == "newtype_struct":
                return self.visit(j, ["visit_newtype_struct"], None, 0, snapshot=True)
            n = 16 if m in ("i128", "u128") else 8 if m in ("i64", "u64", "f64") else 4
            if m in ("i128", "u128") and j.kind != "panic" and not j.events():
                return self.reject(j, "")
            if not self.need(j, n):
                return self.reject(j, "truncated input")
            if m in INT or n == 16:
                s, bits = INT.get(m, (m == "i128", 128))
                x = self.wire(j, n, s, 0)
                if bits < 32:
                    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if s else (0, (1 << bits) - 1)
                    if not j.le(x, hi) or not j.le(lo, x):
                        return self.reject(j, "a value out of the range of %s" % m)
                return self.visit(j, ["visit_" + m], x, n)
            w = self.wire(j, n, False, 0)
            if m in ("f32", "f64"):
                return self.visit(j, ["visit_" + m], Sym(("frombits", j.norm(w)), None), n)
            if m == "bool":
                if j.eq(w, 0):
                    return self.visit(j, ["visit_bool"], FALSE, n)
                if not j.eq(w, 1):
                    if j.kind != "panic" and not j.events():
                        return self.reject(j, "")
                return self.visit(j, ["visit_bool"], TRUE, n)
            if m == "char":
                if not j.le(w, 0x10ffff) or (j.le(0xd800, w) and j.le(w, 0xdfff)):
                    return self.reject(j, "a number that is no character")
                return self.visit(j, ["visit_char"], w, n)
            if m == "option":
                if j.eq(w, 0):
                    return self.visit(j, ["visit_none"], None, n)
                if not j.eq(w, 1):
                    if j.kind != "panic" and not j.events():
                        return self.reject(j, "")
                return self.visit(j, ["visit_some"], None, n, snapshot=True)
            # strings and byte strings
            L = w
            pad = (4 - j.mod(L, 4)) % 4
            if not self.need(j, j.lin(L).add(4 + pad)):
                return self.reject(j, "truncated input", (), ("NotEnoughData", "Encoding"))
            lo = j.lin(self.base().add(4))
            data = ("Q", norm_parts((("s", IN, lo, lo.add(j.lin(L))),)))
            used = j.lin(L).add(4 + pad)
            if m in ("bytes", "byte_buf"):
                return self.visit(j, ["visit_borrowed_bytes", "visit_bytes", "visit_byte_buf"], data, used)
            if not j.cond(("at", ("utf8", data))):
                return self.reject(j, "text that is not UTF-8")
            return self.visit(j, ["visit_borrowed_str", "visit_str", "visit_string"], data, used)
        extra = ("C13",) if m == "newtype_struct" or m == "option" else ()
        self.check((prop,), key, body, self.dec_args(body, None), spec, DECALSO + extra)

    def words(self, j, off, n, sub=None):
        """n consecutive big-endian words from byte offset off of the input"""
        bv = ("bv", 0)
        w = j.be(4, False, IN, j.lin(self.base().add(off).add(V(bv).mul(4))))
        return ("Q", norm_parts((("*", bv, j.lin(n), (("u", w),)),)))

    def ok_value(self, j, val, used, props=(), tag=None):
        if j.kind == "panic":
            return self.no_panic(j)
        st, var, pay, _ = self.res1(j)
        if var == 1:
            return [(tuple(props), "fails on valid input")]
        fails = []
        if val is not None and not j.same(j.ip.snap(j.st, pay), val):
            if tag is not None:
                got = strip(pay)
                got = strip(got[3][0]) if isA(got, "tuple") else got
                if not j.same(j.ip.snap(j.st, got), tag):
                    props = tuple(props) + ("C09",)
            fails.append((tuple(props), "decodes to %s, expected %s" % (vtext(pay), vtext(val))))
        return fails + self.dec_rest(j, used)

    def dec_compound(self, m, prop, body):
        key = "deserialize_" + m
        w = lambda n, *f: A("codec::" + n, 0, *f)
        n_arg = V(("n",))

        def setup(ip, st, ty):
            ip.setb(("n",), 0, 1 << 62)
            return n_arg

        def fields(ip, st, ty):
            ip.setb(("n",), 0, 1 << 62)
            return ("R", ("Q", (("s", ("names",), K(0), n_arg),)))
        over = {"tuple": {1: setup}, "tuple_struct": {2: setup}, "struct": {2: fields}}.get(m, {})

        def count(j):
            """(number of elements, bytes before them) or None when truncated"""
            if m in ("seq", "map"):
                if not self.need(j, 4):
                    return None
                return self.wire(j, 4, False, 0), 4
            return n_arg, 0

        def drain(j):
            c = count(j)
            if c is None:
                return self.reject(j, "truncated input")
            n, off = c
            k = n.mul(2) if m == "map" else n
            if not self.need(j, j.lin(k.mul(4)).add(off)):
                return self.reject(j, "truncated input")
            return self.ok_value(j, self.words(j, off, k), j.lin(k.mul(4)).add(off))

        def one(j):
            # an element of unknown encoding: called once with the right input, error propagated
            c = count(j)
            if c is None:
                return self.reject(j, "truncated input")
            n, off = c
            if j.kind == "panic":
                return self.no_panic(j)
            ev = j.events()
            if j.eq(n, 0):
                if ev:
                    return ["asks for an element of an empty sequence"]
                st, var, pay, _ = self.res1(j)
                if var == 1 or not (isA(strip(pay), "tuple") and isA(strip(strip(pay)[3][1]), OPTION, 0)):
                    return ["an empty sequence does not end cleanly"]
                return self.hint(j, pay, 0)
            if ev is None or len(ev) != 1 or not ev[0][1].endswith("DeserializeSeed::deserialize"):
                return ["expected one element to be decoded, found %s" % [e[1] for e in ev or ()]]
            fails = []
            if not isA(strip(ev[0][3][1]), self.de.p):
                return ["does not pass the deserializer to the element"]
            fails += self.dec_rest(j, K(off), ev[0][3][1])
            ok = j.is_(ev[0][4], 0, 2)
            st, var, pay, _ = self.res1(j)
            if ok != (var == 0):
                fails.append((("C13",), "the element's %s is turned into %s" % ("success" if ok else "error", "an error" if var else "success")))
            elif not ok:
                fails += self.other_error(j, ev[0][4], "the element")
            if ok and var == 0:
                p = strip(pay)
                o = strip(p[3][1]) if isA(p, "tuple") else None
                if not isA(o, OPTION, 1):
                    fails.append("drops the decoded element")
                fails += self.hint(j, pay, n)
            return fails
        props = (prop,)
        if m in ("seq", "tuple", "tuple_struct", "struct"):
            self.check(props, key + " of n words", body, self.dec_args(body, w("DrainV"), over), drain, DECALSO)
            self.check(props, key + ", one element", body, self.dec_args(body, w("OneV", Sym(("seed",), None)), over), one, DECALSO)
            return
        if m == "map":
            self.check(props, key + " of n words", body, self.dec_args(body, w("DrainV"), over), drain, DECALSO)
            self.check(props, key + " of n words by entry", body, self.dec_args(body, w("EntryV"), over), drain, DECALSO)
            self.check(props, key + ", one key", body, self.dec_args(body, w("OneV", Sym(("seed",), None)), over), one, DECALSO)

            def value(j):
                if not self.need(j, 4):
                    return self.reject(j, "truncated input")
                if j.kind == "panic":
                    return self.no_panic(j)
                ev = j.events()
                if ev is None or len(ev) != 1 or not ev[0][1].endswith("DeserializeSeed::deserialize"):
                    return ["expected one value to be decoded, found %s" % [e[1] for e in ev or ()]]
                fails = self.dec_rest(j, K(4), ev[0][3][1]) if isA(strip(ev[0][3][1]), self.de.p) else ["does not pass the deserializer to the value"]
                ok = j.is_(ev[0][4], 0, 2)
                st, var, pay, _ = self.res1(j)
                if ok != (var == 0):
                    fails.append((("C13",), "the value's %s is turned into %s" % ("success" if ok else "error", "an error" if var else "success")))
                elif not ok:
                    fails += self.other_error(j, ev[0][4], "the value")
                return fails
            self.check(props, key + ", one value", body, self.dec_args(body, w("ValueV", Sym(("seed",), None)), over), value, DECALSO)
            return
        # enum
        def tag(j, f):
            if not self.need(j, 4):
                return self.reject(j, "truncated input")
            t = self.wire(j, 4, True, 0)
            if not j.le(0, t):
                return self.reject(j, "a negative discriminant", ("C09",))
            return f(t)

        def unit(j):
            return tag(j, lambda t: self.ok_value(j, t, 4, tag=j.norm(t)))

        def newtype(j):
            def f(t):
                if not self.need(j, 8):
                    return self.reject(j, "truncated input")
                return self.ok_value(j, A("tuple", 0, j.norm(t), j.norm(self.wire(j, 4, False, 4))), 8, tag=j.norm(t))
            return tag(j, f)

        def tup(j):
            def f(t):
                if not self.need(j, j.lin(n_arg.mul(4)).add(4)):
                    return self.reject(j, "truncated input")
                return self.ok_value(j, A("tuple", 0, j.norm(t), self.words(j, 4, n_arg)), j.lin(n_arg.mul(4)).add(4), tag=j.norm(t))
            return tag(j, f)

        def withn(v):
            def b(ip, st):
                ip.setb(("n",), 0, 1 << 62)
                return self.dec_args(body, v)(ip, st)
            return b
        self.check(props, key + ", unit variant", body, self.dec_args(body, w("UnitVariantV")), unit, DECALSO)
        self.check(props, key + ", newtype variant", body, self.dec_args(body, w("NewtypeVariantV")), newtype, DECALSO)
        self.check(props, key + ", tuple variant", body, withn(w("TupleVariantV", n_arg)), tup, DECALSO)
        self.check(props, key + ", struct variant", body, withn(w("StructVariantV", ("R", ("Q", (("s", ("names",), K(0), n_arg),))))), tup, DECALSO)

        def seed(j):
            if not self.need(j, 4):
                return self.reject(j, "truncated input")
            t = self.wire(j, 4, True, 0)
            if not j.le(0, t):
                return self.reject(j, "a negative discriminant", ("C09",))
            if j.kind == "panic":
                return self.no_panic(j)
            ev = j.events()
            if ev is None or len(ev) != 1:
                return ["expected the discriminant to be decoded once, found %s" % [e[1] for e in ev or ()]]
            ok = j.is_(ev[0][4], 0, 2)
            st, var, pay, _ = self.res1(j)
            if ok != (var == 0):
                return [(("C13",), "the variant's %s is turned into %s" % ("success" if ok else "error", "an error" if var else "success"))]
            if not ok:
                return self.other_error(j, ev[0][4], "the variant")
            return []
        self.check(props, key + ", any variant", body, self.dec_args(body, w("TagV", Sym(("seed",), None))), seed, DECALSO)

    # -------------------------------------------------- entry points
    def root_body(self, path):
        for r in self.D.roots:
            if r["path"] == path:
                return self.D.bodies[r["b"]]
        return None

    def run_entry(self):
        b = self.pubfn("to_bytes")

        def build(ip, st):
            return [Sym(("x",), self.D.ty(b["locals"][1]))]

        def spec(j):
            if j.kind == "panic":
                return [(("C10",), "panics: %s" % (j.v,))]
            ev = j.events()
            if ev is None or len(ev) != 1 or ev[0][1] != "serde::Serialize::serialize":
                return ["does not serialize its argument exactly once (%s)" % ([e[1] for e in ev or ()],)]
            e = ev[0]
            fails = []
            if getattr(strip(e[3][0]), "term", None) != ("x",):
                fails.append("serializes something else than its argument")
            sv = strip(e[3][1])
            if not isA(sv, self.ser.p):
                return ["does not use the codec's serializer"]
            got = self.out(j, sv)
            if not j.same(got, EMPTYQ):
                fails.append("the output starts with %s" % qtext(got))
            ok = j.is_(e[4], 0, 2)
            st, var, pay, _ = self.res1(j)
            if ok and var == 1:
                fails.append("fails although its argument was serialized")
            if not ok and var == 0:
                fails.append((("C13",), "swallows the error of its argument"))
            if not ok and var == 1:
                fails += self.other_error(j, e[4], "its argument")
            if ok and var == 0:
                t = ("f", ("hv", e[4], 1), None, self.outi[0])
                want = ("Q", (("s", t, K(0), V(("len", t))),))
                got = j.ip.as_seq(j.ip.snap(st, pay))
                if not j.same(got, want):
                    fails.append("returns %s instead of what was written" % qtext(got))
            return fails
        if b is None:
            self.R.add(("C21", "C13"), "to_bytes", "not found")
        else:
            self.check(("C21",), "to_bytes", b, build, spec, ENCALSO)

        b2 = self.pubfn("from_bytes")

        def build2(ip, st):
            return [("R", ip.as_seq(Sym(IN, unref(self.D.ty(b2["locals"][1])))))]

        def spec2(j):
            if j.kind == "panic":
                return [(("C10",), "panics: %s" % (j.v,))]
            ev = j.events()
            if ev is None or len(ev) != 1 or not ev[0][1].endswith("Deserialize::deserialize"):
                return ["does not decode its result exactly once (%s)" % ([e[1] for e in ev or ()],)]
            e = ev[0]
            fails = []
            dv = strip(e[3][0])
            if not isA(dv, self.de.p):
                return ["does not use the codec's deserializer"]
            got = self.rest(j, dv)
            if not j.same(got, ("Q", (("s", IN, K(0), V(("len", IN))),))):
                fails.append("decodes %s instead of its argument" % qtext(got))
            ok = j.is_(e[4], 0, 2)
            st, var, pay, _ = self.res1(j)
            if not ok:
                if var == 0:
                    fails.append((("C13",), "swallows the decoding error"))
                else:
                    fails += self.other_error(j, e[4], "its value")
                return fails
            h = ("hv", e[4], 0)
            q = Sym(("f", h, None, self.ini[0]), unref(self.def_[self.ini[0]][1]))
            left = parts_len(j.ip.as_seq(q)[1])
            if self.posi:
                left = left.sub(V(("f", h, None, self.posi[0])))
            if j.le(left, 0):
                if var == 1:
                    fails.append("fails although the whole input was decoded")
                elif getattr(strip(pay), "term", None) != ("f", e[4], 0, 0):
                    fails.append("returns something else than the decoded value")
            elif var == 0:
                fails.append((("C11",), "succeeds although input remains"))
            else:
                fails += self.names(pay, "surplus input", ("TrailingData",))
                p = strip(pay)
                if self.errname(p) == "TrailingData" and not j.same(p[3][0], left):
                    fails.append((("only", "C22"), "reports %s surplus bytes, expected %s" % (vtext(p[3][0]), vtext(left))))
            return fails
        if b2 is None:
            self.R.add(("C11", "C13"), "from_bytes", "not found")
        else:
            self.check(("C11",), "from_bytes", b2, build2, spec2, DECALSO)

    def pubfn(self, name):
        for r in self.D.roots:
            if r["path"].rsplit("::", 1)[-1] == name and r.get("tr") is None and r.get("self") is None and r.get("pub"):
                return self.D.bodies[r["b"]]
        return None

    # -------------------------------------------------- opaque adapters
    def run_opaque(self):
        for kind in ("fixed", "variable"):
            sb = self.root_body("opaque::%s::serialize" % kind)
            db = self.root_body("opaque::%s::deserialize" % kind)
            if sb is None or db is None:
                self.R.add(("C08",), "opaque::" + kind, "not found")
                continue
            for r in range(4):
                self.opaque_ser(kind, sb, r, lambda ip, st, q: ("R", q), "opaque::%s::serialize" % kind)
            self.opaque_de(kind, db, "opaque::%s::deserialize" % kind, lambda v: v)
        # the adapter type
        sb = db = None
        for r in self.D.roots:
            if r.get("selfs", "").endswith("VariableArray") if r.get("selfs") else False:
                if r.get("tr") == "serde::Serialize":
                    sb = self.D.bodies[r["b"]]
                if r.get("tr") == "serde::Deserialize":
                    db = self.D.bodies[r["b"]]
                    ty = unref(self.D.ty(r["self"]))
        if sb is None or db is None:
            self.R.add(("C08",), "opaque::VariableArray", "not found")
            return
        for r in range(4):
            def wrap(ip, st, q):
                h = ("h", ip.fresh())
                st.mem[h] = A(ty.p, 0, q)
                return ("P", h, ())
            self.opaque_ser("variable", sb, r, wrap, "opaque::VariableArray::serialize")
        self.opaque_de("variable", db, "opaque::VariableArray::deserialize", lambda v: A(ty.p, 0, v))

    def opaque_ser(self, kind, b, r, wrap, key):
        v = ("v",)
        n = V(("q",)).mul(4).add(r)

        def build(ip, st):
            ip.setb(("q",), 0, 1 << 60)
            ip.ety[v] = self.tyof("u8")
            q = ("Q", norm_parts((("s", v, K(0), n),)))
            return [wrap(ip, st, q), self.new_ser(ip, st)]

        def spec(j):
            pad = (4 - r) % 4
            data = (("s", v, K(0), j.lin(n)),) + tuple(("u", K(0)) for _ in range(pad))
            if kind == "variable":
                if not j.le(n, U32MAX):
                    return self.expect_err(j, ("C09",), "an error (the length does not fit in 32 bits)")
                data = (self.be_units(j.ip, 32, j.lin(n)), data)
            else:
                data = (data,)
            return self.noev(j.events()) + self.expect_out(j, data)
        self.check(("C08",), "%s, length 4q+%d" % (key, r), b, build, spec, ENCALSO)

    def opaque_de(self, kind, b, key, wrap):
        for r in range(4):
            N = V(("q",)).mul(4).add(r)

            def build(ip, st):
                ip.setb(("q",), 0, 1 << 60)
                if kind == "fixed":
                    ip.csub[("cparam", "N")] = N
                    d = self.new_de(ip, st)
                else:
                    d = self.new_de(ip, st)
                    # the length on the wire is 4q+r (or the input is too short for it)
                    ip.csub[("be", 4, False, IN, self.base())] = N
                    st.facts += (N.add(-U32MAX),)
                return [d]

            def spec(j):
                if kind == "fixed":
                    n, off = j.lin(N), 0
                else:
                    if not self.need(j, 4):
                        return self.reject(j, "truncated input")
                    n, off = j.lin(self.wire(j, 4, False, 0)), 4
                pad = (4 - j.mod(n, 4)) % 4
                used = j.lin(n).add(off + pad)
                if not self.need(j, used):
                    return self.reject(j, "truncated input")
                lo = j.lin(self.base().add(off))
                data = ("Q", norm_parts((("s", IN, lo, lo.add(j.lin(n))),)))
                return self.ok_value(j, wrap(data), used)
            self.check(("C08",), "%s, length 4q+%d" % (key, r), b, build, spec, DECALSO)

    # -------------------------------------------------- errors
    def run_errors(self):
        """what the codec's error type is made from: it never panics and loses nothing"""
        for r in self.D.roots:
            if r.get("self") is None or unref(self.D.ty(r["self"])).p != self.errty.p:
                continue
            custom = r["name"] == "custom"
            if not custom and not (r.get("tr") == "std::convert::From" and r["name"] == "from"):
                continue
            b = self.D.bodies[r["b"]]
            at = self.D.ty(b["locals"][1])

            def build(ip, st):
                return [ip.mk(("a1",), at) if not custom else Sym(("a1",), at)]

            def spec(j):
                if j.kind == "panic":
                    return [(("C10",), "panics: %s" % (j.v,))]
                v = strip(j.ip.snap(j.st, j.v))
                k = self.errname(v)
                if k is None:
                    return []
                if custom:
                    if k != "Custom":
                        return ["makes %s of a message" % k]
                    got = j.ip.as_seq(v[3][0])
                    if not any(mentions_term(got, t) for t in (("a1",),)):
                        return ["drops the message"]
                    if len(got[1]) != 1 or not whole(got[1][0]) or got[1][0][1][0] != "disp":
                        return ["alters the message: %s" % qtext(got)]
                elif "Utf8Error" in at.s:
                    if k != "Encoding":
                        return ["makes %s of invalid text" % k]
                elif k != "Convert":
                    return ["makes %s of a number out of range" % k]
                return []
            self.check(("C22",), "%s of %s" % (r["name"], "a message" if custom else at.s.rsplit("::", 1)[-1]), b, build, spec, ("C10",))

    # -------------------------------------------------- effects
    def run_effects(self):
        from . import effects
        roots = [r["b"] for r in self.D.roots]
        re_ = effects.Reach(self.D, roots)
        self.R.did(("C15",), len(re_.bodies) + len(re_.external))
        self.R.fn(("C15",), *[b["path"] for b in re_.bodies.values()])
        self.R.sample(("C15",), "%d functions of the codec crate and %d library functions they call" % (len(re_.bodies), len(re_.external)))
        for who, what, span in re_.violations():
            self.R.add(("C15",), who, what, span)
        for f, what in effects.unsafe_uses("serde-xdr/"):
            self.R.add(("C15",), f, what)
        for r in self.D.roots:
            if r.get("unsafe"):
                self.R.add(("C15",), r["path"], "is an unsafe function")

    def run_readable(self):
        """both directions must give the same answer to is_human_readable"""
        vals = {}
        for tr, mk in (("serde::Serializer", self.new_ser), ("serde::Deserializer", self.new_de)):
            b = None
            for r in self.roots(tr):
                if r["name"] == "is_human_readable":
                    b = self.D.bodies[r["b"]]
            self.R.did(("C20",))
            if b is None:
                vals[tr] = {True}      # serde's default
                continue
            self.R.fn(("C20",), b["path"])
            ip = self.ip()
            st = St()
            try:
                h = ("h", ip.fresh())
                st.mem[h] = mk(ip, st)
                outs = self.exec(ip, b, st, [("P", h, ())])
                vals[tr] = set()
                for s, kind, v in outs:
                    v = strip(v) if v is not None else None
                    vals[tr].add(v[1] if kind == "ret" and isinstance(v, tuple) and v[0] == "b" else None)
            except Unknown as e:
                self.R.undecided(("C20",), b["path"], str(e))
                return
        a, b = vals["serde::Serializer"], vals["serde::Deserializer"]
        self.R.sample(("C20",), "serializer %s, deserializer %s" % (sorted(map(str, a)), sorted(map(str, b))))
        if a != b or len(a) != 1 or None in a:
            self.R.add(("C20",), "is_human_readable", "the serializer answers %s, the deserializer %s" % (sorted(map(str, a)), sorted(map(str, b))))

    # -------------------------------------------------- signed32
    def run_signed32(self):
        b = self.root_body("primitive::signed32::serialize")
        d = self.root_body("primitive::signed32::deserialize")
        if b is None or d is None:
            self.R.add(("C19",), "primitive::signed32", "not found")
            return

        def build(ip, st):
            ip.ety[("x",)] = None
            return [Sym(("x",), self.D.ty(b["locals"][1])), self.new_ser(ip, st)]

        def spec(j):
            x = V(("asref", j.ip.snap(j.st, Sym(("x",), self.D.ty(b["locals"][1])))))
            return self.noev(j.events()) + self.expect_out(j, (self.be_units(j.ip, 32, x),))
        self.check(("C19",), "signed32::serialize", b, build, spec, ENCALSO)

        def spec2(j):
            if not self.need(j, 4):
                return self.reject(j, "truncated input")
            if j.kind == "panic":
                return self.no_panic(j)
            x = self.wire(j, 4, True, 0)
            ev = j.events() or []
            conv = [e for e in ev if e[1].rsplit("::", 1)[1] in ("try_from", "try_into")]
            if len(conv) != 1:
                return ["expected one conversion of the decoded number, found %s" % [e[1] for e in ev]]
            e = conv[0]
            fails = []
            if not j.same(e[3][0], x):
                fails.append("converts %s, expected the decoded number" % vtext(e[3][0]))
            ok = j.is_(e[4], 0, 2)
            st, var, pay, _ = self.res1(j)
            if ok != (var == 0):
                return [(("C13",), "the conversion's %s is turned into %s" % ("success" if ok else "error", "an error" if var else "success"))]
            if ok and getattr(strip(pay), "term", None) != ("f", e[4], 0, 0):
                fails.append("returns something else than the converted number")
            return fails + (self.dec_rest(j, 4) if ok else [])
        self.check(("C19",), "signed32::deserialize", d, lambda ip, st: [self.new_de(ip, st)], spec2, DECALSO)

    def hint(self, j, pay, n):
        p = strip(pay)
        h = strip(p[3][0])
        if isA(h, OPTION, 0):
            return []
        if isA(h, OPTION, 1):
            if not j.same(h[3][0], j.lin(n)):
                return ["the size hint is %s, expected the number of elements" % vtext(h[3][0])]
            return []
        return ["the size hint is %s" % vtext(h)]

    def u32(self, ip):
        for b in self.W.bodies.values():
            pass
        return self.tyof("u32")

    def tyof(self, s):
        for D in (self.W, self.D):
            for i, t in enumerate(D.types if hasattr(D, "types") else D.j["types"]):
                ty = D.ty(i)
                if ty.s == s:
                    return ty
        raise Unknown("type " + s)


def mentions_term(q, t):
    return mentions(q, lambda a: a == t) or any(p[0] == "s" and p[1] == t for p in q[1])


def vtext(v):
    v = strip(v)
    if isQ(v):
        return qtext(v)
    s = repr(v)
    return s if len(s) < 300 else s[:297] + "..."


def cond_text(d):
    s = repr(d)
    return s if len(s) < 120 else s[:117] + "..."


def qtext(q):
    try:
        s = " ".join(ptext(p) for p in q[1]) or "nothing"
    except Exception:
        s = repr(q)
    return s if len(s) < 400 else s[:397] + "..."


def ptext(p):
    if p[0] == "u":
        return "<%s>" % (p[1],)
    if p[0] == "s":
        return "%s[%s..%s]" % (p[1], p[2], p[3])
    return repr(p)


def whole(p):
    """a part that is the whole of one text"""
    return p[0] == "s" and isinstance(p[2], Lin) and p[2].isc() and p[2].c == 0 and p[3] == V(("len", p[1]))
