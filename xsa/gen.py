"""Evaluates the code generator to the token sequences it produces.

The generator's functions are interpreted on symbolic definitions (every list of
every length); what comes out are token sequences with repetitions over those
lists.  Functions that contain loops and are called from loops are evaluated by
themselves, on the arguments they get; mutually recursive functions stand for
themselves, and are unfolded once where they are judged."""
import re
from .engine import *
from . import models
from .models import val, cell, rd, wr, ret, ita, fork_decs, decs_cond, IT

TS = "proc_macro2::TokenStream"
IDENT = "proc_macro2::Ident"
GC = "gen_code::"
PUNCT = {"add": "+", "add_eq": "+=", "and": "&", "and_and": "&&", "and_eq": "&=", "at": "@", "bang": "!", "caret": "^", "caret_eq": "^=",
         "colon": ":", "colon2": "::", "comma": ",", "div": "/", "div_eq": "/=", "dot": ".", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=",
         "eq": "=", "eq_eq": "==", "ge": ">=", "gt": ">", "le": "<=", "lt": "<", "mul_eq": "*=", "ne": "!=", "or": "|", "or_eq": "|=",
         "or_or": "||", "pound": "#", "question": "?", "rarrow": "->", "larrow": "<-", "rem": "%", "rem_eq": "%=", "fat_arrow": "=>",
         "semi": ";", "shl": "<<", "shl_eq": "<<=", "shr": ">>", "shr_eq": ">>=", "star": "*", "sub": "-", "sub_eq": "-=", "underscore": "_"}


class Round(Exception):
    """a recursion that does not end"""


class Split(Exception):
    """a flag of the configuration is not fixed yet"""

    def __init__(self, atom):
        self.atom = atom


def tok(k, *f):
    return ("u", A("tok", k, *f))


def ident(s):
    return tok("id", Q(("k", s)))


def punct(s):
    return tok("p", s)


def lit(x, ty):
    return tok("lit", x, ty)


def is_tok(p, k=None):
    return p[0] == "u" and isA(p[1], "tok") and (k is None or p[1][2] == k)


class Gen(Interp):
    def __init__(self, D, W):
        super().__init__([D, W])
        models.install(self, W)
        self.Dg = D
        self.models.update(GM)
        self.pmodels[:0] = GP
        self.deferred = {}      # term -> (body, args, state)
        self.big = {}           # term -> value
        self.idents = []        # identifiers made, with the state
        self.config = {}
        self.names = {}
        self.skeleton = False   # the lists of the input are given
        self.open = []
        self.rounds = {}
        self.strfns = {}        # functions from text to text or identifier, uninterpreted
        self.calls()

    # ------------------------------------------------------------ call graph
    def calls(self):
        """local call graph; loops and cycles"""
        D = self.Dg
        self.infos = D.__dict__.setdefault("_infos", self.infos)
        if "_cg" in D.__dict__:
            self.cg, self.reach, self.cyclic, self.loopy = D._cg
            return
        g = {}
        for b in D.bodies.values():
            if b["crate"] != "rpcgen":
                continue
            out = g.setdefault(b["path"], set())

            def walk(x):
                if isinstance(x, dict):
                    if x.get("rcrate") == "rpcgen" and "rp" in x:
                        out.add(x["rp"])
                    for v in x.values():
                        walk(v)
                elif isinstance(x, list):
                    for v in x:
                        walk(v)
            for bl in b["blocks"]:
                walk(bl["t"])
                walk(bl["s"])
            # a function reaches what its closures reach
            if "::{closure" in b["path"]:
                g.setdefault(b["path"].split("::{closure")[0], set()).add(b["path"])
        self.cg = g

        def reach(p):
            seen, w = set(), list(g.get(p, ()))
            while w:
                x = w.pop()
                if x not in seen:
                    seen.add(x)
                    w += g.get(x, ())
            return seen
        self.reach = {p: reach(p) for p in g}
        self.cyclic = {p for p in g if p in self.reach[p]}
        self.loopy = set()
        for b in D.bodies.values():
            if b["crate"] == "rpcgen" and self.info(b).loops:
                self.loopy.add(b["path"])
        D._cg = self.cg, self.reach, self.cyclic, self.loopy

    def has_loop(self, p):
        return p in self.loopy or any(x in self.loopy for x in self.reach.get(p, ()))

    # ------------------------------------------------------------ calls
    inloop = 0
    entry = None

    def call_fn(self, st, fr, c, args, dty, atys, sp):
        if c.b >= 0 and c.raw.get("rcrate") == "rpcgen" and self.find_model(c) is None:
            body = c.D.bodies[c.b]
            p = body["path"]
            if self.skeleton:
                if self.strfn(c.D, body):
                    return self.strcall(st, c, body, args, dty)
                if p in self.cyclic and "::{closure" not in p:
                    key = (p, tuple(self.snap(st, x) for x in args))
                    if key in self.open:
                        self.rounds.setdefault(p, key)
                        raise Round("%s calls itself with the same arguments" % p)
                    self.open.append(key)
                    try:
                        return super().call_fn(st, fr, c, args, dty, atys, sp)
                    finally:
                        self.open.pop()
                return super().call_fn(st, fr, c, args, dty, atys, sp)
            if p in self.cyclic and "::{closure" not in p:
                on = any(x[1] == p for x in self.stack)
                same = any(x[1] in self.cyclic and p in self.reach[x[1]] and x[1] in self.reach[p] for x in self.stack)
                if on or not same:
                    return self.stand(st, "app", c, body, args, dty)
            elif self.strfn(c.D, body):
                return self.strcall(st, c, body, args, dty)
            elif self.inloop and (self.has_loop(p) or self.makes_tokens(body)) and "::{closure" not in p and len(self.stack) > 1 and not self.takes_mut(body):
                return self.stand(st, "def", c, body, args, dty)
        return super().call_fn(st, fr, c, args, dty, atys, sp)

    def is_recursive(self, body):
        if self.skeleton:
            if sum(x[1] == body["path"] for x in self.stack) > 24:
                raise Round("%s calls itself without end" % body["path"])
            return False
        return super().is_recursive(body)

    def strcall(self, st, c, body, args, dty):
        """a function from text to text is judged by itself"""
        p = body["path"]
        t = ("sf", p, self.snap(st, self.as_seq(val(self, st, args[0]))))
        self.strfns[p] = body
        if dty is not None and dty.k == "adt" and dty.p == IDENT:
            self.bounds.setdefault(("len", t), (0, 1 << 62))
            return [(st, "ret", A(IDENT, 0, Q(("s", t, ZERO, V(("len", t))))))]
        return [(st, "ret", Sym(t, dty))]

    def takes_mut(self, body):
        return any(t.k == "ref" and t.raw.get("m") for t in (body["D"].ty(x) for x in body["locals"][1:body["argc"] + 1]))

    @staticmethod
    def makes_tokens(body):
        return TS in body["D"].ty(body["locals"][0]).s

    @staticmethod
    def strfn(D, body):
        if body["argc"] != 1 or "::{closure" in body["path"]:
            return False
        a, r = D.ty(body["locals"][1]), D.ty(body["locals"][0])
        return a.k == "ref" and a.sub().k == "str" and r.k == "adt" and r.p in ("std::string::String", IDENT)

    def stand(self, st, k, c, body, args, dty):
        """a call that stands for itself: evaluated later"""
        a = tuple(self.shrink(self.snap(st, x), unref(body["D"].ty(body["locals"][i + 1]))) for i, x in enumerate(args))
        n = tuple(self.name("rec", x) if isA(strip(x)) and any(isA(f) or isinstance(f, Sym) for f in strip(x)[3]) and strip(x)[1] == GC + "Context" else x for x in a)
        t = (k, body["path"], tuple(x.s for x in c.targs()), n)
        if t not in self.deferred:
            self.deferred[t] = (body, a, st.copy())
        return [(st, "ret", self.mk(t, dty))]

    def shrink(self, v, ty):
        """long lists inside a value are named"""
        if isQ(v) and any(p[0] == "*" for p in v[1]):
            return Sym(self.name("big", v), ty)
        if isA(v) and ty is not None and ty.k == "adt" and ty.raw.get("v") and v[1] == ty.p:
            fs = ty.raw["v"][v[2]]["f"] if v[2] < len(ty.raw["v"]) else []
            if len(fs) == len(v[3]):
                return ("A", v[1], v[2], tuple(self.shrink(x, ty.D.ty(f[1])) for x, f in zip(v[3], fs)))
        return v

    def name(self, kind, v):
        """a short name for a large value; what it depends on of the loops around it stays visible"""
        free = []

        def look(a):
            if isinstance(a, tuple) and len(a) > 1 and a[0] in ("idx", "mu", "acc", "acclen") and a not in free:
                free.append(a)
            return None
        rewrite(v, look)
        names = {a: ("par", i) for i, a in enumerate(free)}
        g = rewrite(v, lambda a: V(names[a]) if a in names else None) if free else v
        n = self.names.setdefault((kind, g), len(self.names))
        self.big[(kind, n)] = g
        return (kind, n) + tuple(V(a) for a in free)

    # ------------------------------------------------------------ loops
    def do_loop(self, fr, L, S0):
        S = self.prune(fr, S0.copy(), L.head)
        its = [(r, v) for r, v in S.mem.items() if isA(v, "quote::It") and v[2] == 0 and r[0] == "l" and r[1] == fr.fid]
        if its:
            return self.repetition(fr, L, S, its)
        self.inloop += 1
        try:
            return super().do_loop(fr, L, S0)
        finally:
            self.inloop -= 1

    def repetition(self, fr, L, S, its):
        """#( ... )*  of quote!: the body is evaluated on an element that stands for all of them"""
        if len(its) > 1:
            raise Unknown("a repetition over several lists")
        r, it = its[0]
        lst = it[3][0]
        el = ("qel", self.fresh())
        self.bounds.setdefault(("len", el), (0, 1 << 62))

        def step(s, state):
            s = s.copy()
            s.mem[r] = A("quote::It", state, lst, Sym(el, None))
            return s
        a = self.once(fr, L, step(S, 1))
        if len(a) != 1 or a[0][0] != "back":
            raise Unknown("a repetition whose body has several ends")
        A1 = self.prune(fr, a[0][1], L.head)
        b = self.once(fr, L, step(A1, 1))
        if len(b) != 1 or b[0][0] != "back":
            raise Unknown("a repetition whose body has several ends")
        B1 = self.prune(fr, b[0][1], L.head)
        out = S.copy()
        for k, v in S.mem.items():
            if k == r or k not in A1.mem or A1.mem[k] == v:
                continue
            x, y = A1.mem[k], B1.mem.get(k)
            if isinstance(v, Lin) and isinstance(x, Lin) or self.isbool(v) and self.isbool(x):
                out.mem[k] = x         # the counter for the separators
                continue
            if not (isQ(v) and isQ(x) and isQ(y) and x[1][:len(v[1])] == v[1] and y[1][:len(x[1])] == x[1]):
                raise Unknown("a repetition that changes %r" % (v,))
            g = x[1][len(v[1]):]
            h = y[1][len(x[1]):]
            if h[len(h) - len(g):] != g:
                raise Unknown("a repetition with a changing body")
            out.mem[k] = ("Q", v[1] + (("join", h[:len(h) - len(g)], self.mapq(lst, el, g)),))
        out.mem[r] = A("quote::It", 2, lst, UNIT)
        return self.once(fr, L, out)

    def mapq(self, lst, el, g):
        if g == (("s", el, ZERO, V(("len", el))),):
            return lst

        def one(u):
            q = toks(self, u)

            def f(p):
                if isinstance(p, tuple) and len(p) == 4 and p[0] == "s" and p[1] == el:
                    return q
                return None
            return splice(g, f)

        def go(p):
            if p[0] == "u":
                return ("u", ("Q", one(p[1])))
            if p[0] == "*":
                return ("*", p[1], p[2], tuple(go(x) for x in p[3]))
            if p[0] == "alt":
                return ("alt", tuple((d, tuple(go(x) for x in ps)) for d, ps in p[1]))
            raise Unknown("a repetition over %r" % (p[0],))
        return ("Q", norm_parts(tuple(go(p) for p in lst[1])))

    def bound_facts(self, lins):
        out = []
        for a in self.all_atoms(lins):
            if isinstance(a, tuple) and a[0] == "min":
                out += self.minfacts(a)
        return out + super().bound_facts(list(lins) + out)

    @staticmethod
    def minfacts(a):
        return [V(a).sub(a[1]), V(a).add(-a[2]), a[1].add(-a[3]).sub(V(a))]

    def eqnames(self, st, t):
        """different names of a skeleton are different"""
        a, b = name_of(t[1]), name_of(t[2])
        if a is not None and b is not None:
            return a == b
        return None

    def selects(self, part):
        if part[0] == "*":
            return not (len(part[3]) == 1 and part[3][0][0] == "u")
        return part[0] == "s" and isinstance(part[1], tuple) and part[1][:1] == ("sorted",)

    def selected(self, st, part, j):
        return elements(self, st, part, j)

    def decide(self, st, c):
        d = super().decide(st, c)
        if d is None and c[0] == "at" and isinstance(c[1], tuple) and c[1][:1] == ("eq",):
            return self.eqnames(st, c[1])
        if d is None and not self.skeleton and c[0] == "at" and isinstance(c[1], tuple) and c[1][:1] == ("cfg",):
            if c[1] in self.config:
                return self.config[c[1]]
            raise Split(c[1])
        return d


def name_of(v):
    """the key of a name of the skeleton, or None"""
    v = strip(v)
    if isQ(v) and len(v[1]) == 1 and v[1][0][0] == "s" and v[1][0][2] == ZERO:
        v = v[1][0][1]
    if isinstance(v, Sym):
        v = v.term
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "name":
        return v[1]
    return None


def splice(parts, f):
    """replace parts of token sequences, at every depth"""
    out = []
    for p in parts:
        n = f(p)
        if n is not None:
            out += list(n)
            continue
        if is_tok(p, "g"):
            out.append(tok("g", p[1][3][0], ("Q", splice(p[1][3][1][1], f))))
        elif p[0] == "*":
            out.append(("*", p[1], p[2], splice(p[3], f)))
        elif p[0] == "alt":
            out.append(("alt", tuple((d, splice(ps, f)) for d, ps in p[1])))
        elif p[0] == "join":
            out.append(("join", p[1], ("Q", splice(p[2][1], f))))
        elif p[0] == "u" and isQ(p[1]):
            out.append(("u", ("Q", splice(p[1][1], f))))
        else:
            out.append(p)
    return tuple(out)


def toks(ip, v):
    """the tokens of a value"""
    v = strip(v)
    if isQ(v):
        return v[1]
    if isA(v, IDENT):
        return (tok("id", v[3][0]),)
    if isA(v, "proc_macro2::Literal"):
        return (v[3][0],)
    if isinstance(v, Sym):
        t = v.term
        ip.bounds.setdefault(("len", t), (0, 1 << 62))
        return (("s", t, ZERO, V(("len", t))),)
    raise Unknown("tokens of %r" % (v,))


# ----------------------------------------------------------------- models
GM = {}
GP = []


def model(*names):
    def d(f):
        for n in names:
            GM[n] = f
        return f
    return d


def pmodel(p):
    def d(f):
        GP.append((re.compile(p), f))
        return f
    return d


@pmodel(r"^(core|std)::num::<impl [iu]\w+>::saturating_add$")
def g_sat(ip, st, fr, c, args, dty, atys, sp):
    a, b = val(ip, st, args[0]), val(ip, st, args[1])
    if not isinstance(a, Lin) or a.isc() or not b.isc() or b.c < 0:
        return models.m_int(ip, st, fr, c, args, dty, atys, sp)
    ty = dty
    hi = ty.rng()[1]
    x = a.add(b.c)
    if ip.prove_le(st, x.add(-hi)):
        return ret(st, x)
    t = ("min", x, hi, b.c)
    st.facts = st.facts + tuple(ip.minfacts(t))
    return ret(st, V(t))


@model("proc_macro2::TokenStream::new")
def g_new(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, EMPTYQ)


def push(ip, st, a, parts):
    k = cell(ip, st, a)
    old = rd(ip, st, k)
    q = toks(ip, old)
    wr(ip, st, k, ("Q", norm_parts(q + tuple(parts))))
    return ret(st, UNIT)


def cstr(ip, st, v):
    v = ip.snap(st, v)
    if isQ(v) and all(p[0] == "k" for p in v[1]):
        return "".join(p[1] for p in v[1])
    raise Unknown("not a constant text: %r" % (v,))


@pmodel(r"^quote::__private::push_(\w+)$")
def g_push(ip, st, fr, c, args, dty, atys, sp):
    n = c.p.rsplit("push_", 1)[1]
    if n.endswith("_spanned"):
        n, args = n[:-8], [args[0]] + list(args[2:])
    if n == "ident":
        return push(ip, st, args[0], [ident(cstr(ip, st, args[1]))])
    if n == "lifetime":
        return push(ip, st, args[0], [tok("p", cstr(ip, st, args[1]))])
    if n == "group":
        d = strip(args[1])
        if not isA(d):
            raise Unknown("delimiter %r" % (d,))
        return push(ip, st, args[0], [tok("g", "({[ "[d[2]], ("Q", toks(ip, ip.snap(st, args[2]))))])
    if n in PUNCT:
        return push(ip, st, args[0], [punct(PUNCT[n])])
    raise Unknown("quote::%s" % n)


@pmodel(r"^quote::__private::parse(_spanned)?$")
def g_parse(ip, st, fr, c, args, dty, atys, sp):
    s = cstr(ip, st, args[-1])
    return push(ip, st, args[0], [tok("lit", s, "")])


@pmodel(r"^proc_macro2::Literal::(\w+)_(un)?suffixed$")
def g_literal(ip, st, fr, c, args, dty, atys, sp):
    m = re.search(r"::(\w+?)_(un)?suffixed$", c.p)
    x = val(ip, st, args[0])
    return ret(st, A("proc_macro2::Literal", 0, tok("lit", x, "" if m.group(2) else m.group(1))))


@model("quote::__private::mk_ident")
def g_mk(ip, st, fr, c, args, dty, atys, sp):
    q = ip.as_seq(ip.snap(st, args[0]))
    ip.idents.append((st.copy(), q, sp))
    return ret(st, A(IDENT, 0, q))


@model("quote::__private::IdentFragmentAdapter::<T>::span", "proc_macro2::Ident::span", "proc_macro2::Span::call_site", "proc_macro2::Span::mixed_site")
def g_span(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, NONE if "Adapter" in c.p else UNIT)


@model("proc_macro2::Ident::new", "proc_macro2::Ident::new_raw")
def g_ident(ip, st, fr, c, args, dty, atys, sp):
    q = ip.as_seq(ip.snap(st, args[0]))
    if c.p.endswith("raw"):
        q = ("Q", norm_parts((("k", "r#"),) + q[1]))
    ip.idents.append((st.copy(), q, sp))
    return ret(st, A(IDENT, 0, q))


@model("quote::ToTokens::to_tokens")
def g_to(ip, st, fr, c, args, dty, atys, sp):
    return push(ip, st, args[1], topart(ip, ip.snap(st, args[0]), c.targs()[0] if c.targs() else None))


@model("quote::ToTokens::to_token_stream", "quote::ToTokens::into_token_stream")
def g_tots(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ("Q", norm_parts(tuple(topart(ip, ip.snap(st, args[0]), c.targs()[0] if c.targs() else None)))))


def topart(ip, v, t):
    v = strip(v)
    t = unref(t) if t is not None else None
    while t is not None and t.k == "ref":
        t = t.sub()
    if isA(v, OPTION):
        return [] if v[2] == 0 else topart(ip, v[3][0], None)
    if isA(v, "quote::__private::RepInterp"):
        v = strip(v[3][0])
    if isA(v, "proc_macro2::Literal"):
        return [v[3][0]]
    if isinstance(v, Lin):
        if t is not None and t.k == "param":
            raise Unknown("literal of a generic type")
        return [lit(v, t.s if t is not None else "?")]
    if ip.isbool(v):
        return [lit(v, "bool")]
    if t is not None and (t.k == "str" or t.k == "adt" and t.p == "std::string::String"):
        return [lit(v, "str")]
    if isinstance(v, Sym) and v.term[0] not in ("qel",):
        t = unref(v.ty) if v.ty is not None else t
        if t is None or t.k != "adt" or t.p not in (TS, IDENT):
            if t is not None and t.k in ("param", "alias"):
                return [lit(v, t.s)]
            raise Unknown("tokens of a %s" % (t,))
    return list(toks(ip, v))


@model("quote::__private::ext::RepAsIteratorExt::quote_into_iter", "quote::__private::ext::RepIteratorExt::quote_into_iter")
def g_rep(ip, st, fr, c, args, dty, atys, sp):
    v = ip.snap(st, args[0])
    if isA(v) and v[1] == IT + "Seq":
        if v[3][1:] != (K(0), ZERO, K(0)):
            raise Unknown("a repetition over an iterator that has begun")
        v = v[3][0]
    q = ip.as_seq(v)
    return ret(st, A("tuple", 0, A("quote::It", 0, q, UNIT), UNIT))


@model("quote::__private::CheckHasIterator::check")
def g_check(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, UNIT)


@model("std::ops::BitOr::bitor")
def g_bitor(ip, st, fr, c, args, dty, atys, sp):
    if "quote::" in c.rp:
        return ret(st, UNIT)
    return NotImplemented


def g_next(ip, st, fr, c, args, dty, atys, sp):
    v = val(ip, st, args[0])
    if isA(v, "quote::It"):
        if v[2] == 0:
            raise Unknown("an iterator over tokens outside of a repetition")
        if v[2] == 2:
            return ret(st, NONE)
        return ret(st, Some(v[3][1]))
    return models.M["std::iter::Iterator::next"](ip, st, fr, c, args, dty, atys, sp)


GM["std::iter::Iterator::next"] = g_next


@model("std::string::ToString::to_string")
def g_tostr(ip, st, fr, c, args, dty, atys, sp):
    v = strip(ip.snap(st, args[0]))
    if isA(v, IDENT):
        return ret(st, v[3][0])
    t = c.targs()
    if t and t[0].k == "adt" and t[0].p == TS:
        return ret(st, Sym(("tostr", ("Q", toks(ip, v))), dty))
    return models.M["std::string::ToString::to_string"](ip, st, fr, c, args, dty, atys, sp)


# ----- searches over symbolic lists
def listq(ip, st, a):
    """the whole list behind an iterator, or None"""
    v = val(ip, st, a)
    if isA(v) and v[1] == IT + "Seq" and v[3][1:] == (K(0), ZERO, K(0)):
        return v[3][0]
    return None


def body_of(ip, st, q, f, i):
    """-> (element term, outcomes of the predicate on element i)"""


def search(kind):
    def m(ip, st, fr, c, args, dty, atys, sp):
        base = models.M["std::iter::Iterator::" + kind]
        q = listq(ip, st, args[0])
        if q is None or len(q[1]) != 1 or q[1][0][0] not in ("s", "*"):
            return base(ip, st, fr, c, args, dty, atys, sp)
        q = ip.snap(st, q)
        part = q[1][0]
        f = args[1]
        i = ("it", bv_depth((q, ip.snap(st, f))))
        ip.bounds[i] = (0, 1 << 62)
        # the predicate on a generic element
        g = st.copy()
        n0 = len(g.dec)
        alts = []
        for s, e in elements(ip, g, part, V(i)):
            k = len(s.dec)
            for o in ip.call_value(s, f, [("R", e)]):
                if o[1] != "ret":
                    raise Unknown("a search whose predicate may panic")
                b = o[2]
                for s2, t in ip.fork(o[0], b):
                    alts.append((s2.dec[n0:], t))
        yes = tuple(sorted((d for d, t in alts if t), key=repr))
        key = (part, i, yes)
        if not yes:
            return ret(st, NONE if kind == "find" else FALSE)
        if kind == "any":
            return ret(st, ("at", ("any",) + key))
        if kind == "all":
            no = tuple(sorted((d for d, t in alts if not t), key=repr))
            return ret(st, ip.neg(("at", ("any", part, i, no))) if no else TRUE)
        t = ("any",) + key
        out = []
        for s, found in ip.fork(st, ("at", t)):
            if not found:
                out.append((s, "ret", NONE))
                continue
            j = ("first",) + key
            ip.bounds[j] = (0, 1 << 62)
            for s2, e in elements(ip, s, part, V(j)):
                for o in ip.call_value(s2, f, [("R", e)]):
                    s3 = o[0]
                    if ip.assume(s3, o[2], True) if o[2][0] not in ("or",) else True:
                        out.append((s3, "ret", Some(("R", e))))
        return out
    return m


def elements(ip, st, part, i):
    """-> [(state, element i of the part)]"""
    st = st.copy()
    n = part_len(part)
    if not ip.assume(st, ("cmp", "le", i.sub(n).add(1)), True):
        return []
    if part[0] == "s" and part[1][:1] == ("sorted",):
        q = ip.big[part[1][:2]][3][0]
        if len(part[1]) > 2:
            names = {("par", i): a for i, a in enumerate(part[1][2:])}
            q = rewrite(q, lambda a: names.get(a))
        if len(q[1]) != 1:
            raise Unknown("elements of a sorted list of several parts")
        k = ("perm", part[1], i)
        ip.bounds.setdefault(k, (0, 1 << 62))
        return elements(ip, st, q[1][0], V(k))
    if part[0] == "s":
        return [(st, ip.part_at(st, part, i, None))]
    sel = star_sel(ip, part, i)
    body = rewrite(part[3], lambda a: sel if a == part[1] else None)
    return units(ip, st, body)


def star_sel(ip, part, j):
    """index of the iteration that made element j"""
    if len(part[3]) == 1 and part[3][0][0] == "u":
        return j
    t = ("sel", part, j)
    ip.bounds.setdefault(t, (0, 1 << 62))
    return V(t)


def units(ip, st, body):
    """the elements one iteration may have made (at most one each)"""
    if len(body) == 1 and body[0][0] == "u":
        return [(st, body[0][1])]
    if len(body) == 1 and body[0][0] == "alt":
        out = []
        for d, ps in body[0][1]:
            if not ps:
                continue
            s = fork_decs(ip, st, d)
            if s is not None:
                out += units(ip, s, ps)
        return out
    if len(body) == 1 and body[0][0] == "*":
        t = ("sub", body[0])
        j = ("selj", body[0])
        ip.bounds.setdefault(j, (0, 1 << 62))
        s = st.copy()
        ip.assume(s, ("cmp", "le", V(j).sub(part_len(body[0])).add(1)), True)
        b2 = rewrite(body[0][3], lambda a: V(j) if a == body[0][1] else None)
        return units(ip, s, b2)
    raise Unknown("elements of %r" % (body,))


for _k in ("find", "any", "all"):
    GM["std::iter::Iterator::" + _k] = search(_k)


def sort_units(ip, st, k, xs, f, name):
    """stable insertion sort; every comparison that is open splits the path"""
    def keys(s, a):
        out = []
        for o in ip.call_value(s, f, [("R", a)]):
            if o[1] != "ret":
                raise Unknown("a sort key that panics")
            out.append((o[0], ip.snap(o[0], o[2])))
        return out

    def less(s, a, b):
        """a < b"""
        if f is None or name.endswith("key"):
            if f is None:
                return ip.fork(s, lessv(ip, s, a, b))
            return [r for s1, x in keys(s, a) for s2, y in keys(s1, b) for r in ip.fork(s2, lessv(ip, s2, x, y))]
        out = []
        for o in ip.call_value(s, f, [("R", a), ("R", b)]):
            v = strip(o[2])
            if o[1] != "ret" or not isA(v, "std::cmp::Ordering"):
                raise Unknown("an ordering %r" % (v,))
            out.append((o[0], v[2] == 0))
        return out
    work = [(st, [], list(xs))]
    out = []
    while work:
        s, done, todo = work.pop(0)
        if not todo:
            s = s.copy()
            wr(ip, s, k, Q(*[("u", x) for x in done]))
            out.append((s, "ret", UNIT))
            continue
        x = todo[0]
        places = [(s, len(done))]
        while places:
            s1, i = places.pop(0)
            if i == 0:
                work.append((s1, [x] + done, todo[1:]))
                continue
            for s2, t in less(s1, x, done[i - 1]):
                if t:
                    places.append((s2, i - 1))
                else:
                    work.append((s2, done[:i] + [x] + done[i:], todo[1:]))
    return out


def lessv(ip, st, a, b):
    a, b = strip(a), strip(b)
    if isinstance(a, Lin) and isinstance(b, Lin):
        l = a.sub(b).add(1)
        return boolv(l.c <= 0) if l.isc() else ("cmp", "le", l)
    if isA(a) and isA(b) and a[1] == "std::cmp::Reverse" == b[1]:
        return lessv(ip, st, b[3][0], a[3][0])
    raise Unknown("order of %r" % (a,))


ORD = "std::cmp::Ordering"


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def g_cmp(ip, st, fr, c, args, dty, atys, sp):
    a, b = val(ip, st, args[0]), val(ip, st, args[1])
    f = Some if c.p.endswith("partial_cmp") else (lambda x: x)
    if not isinstance(a, Lin) or not isinstance(b, Lin):
        return NotImplemented
    out = []
    for s, t in ip.fork(st, lessv(ip, st, a, b)):
        if t:
            out.append((s, "ret", f(A(ORD, 0))))
            continue
        for s2, t2 in ip.fork(s, lessv(ip, s, b, a)):
            out.append((s2, "ret", f(A(ORD, 2 if t2 else 1))))
    return out


@pmodel(r"^(std|core)::cmp::Ordering::(then|then_with|reverse)$")
def g_then(ip, st, fr, c, args, dty, atys, sp):
    v = strip(args[0])
    if not isA(v, ORD):
        return NotImplemented
    if c.p.endswith("reverse"):
        return ret(st, A(ORD, 2 - v[2]))
    if v[2] != 1:
        return ret(st, v)
    if c.p.endswith("with"):
        return ip.call_value(st, args[1], [])
    return ret(st, args[1])


def digits(q, radix):
    """the text of a given number"""
    return isQ(q) and len(q[1]) == 1 and q[1][0][0] == "k" and re.match({10: r"-?\d+$", 16: r"[0-9a-fA-F]+$", 8: r"[0-7]+$"}.get(radix, "$a"), q[1][0][1]) is not None


def number(ip, st, q, radix, ty, dty):
    """the number a text of digits denotes, where the type holds it"""
    lo, hi = ty.rng()
    if q[1] and q[1][0][0] == "k":
        x = int(q[1][0][1], radix)
        return ret(st, Ok(K(x)) if lo <= x <= hi else Err(UNIT))
    t = ("num", q, radix)
    ip.bounds.setdefault(t, (-(1 << 200), 1 << 200))
    out = []
    for s, a in ip.fork(st, ("cmp", "le", V(t).add(-hi))):
        if not a:
            out.append((s, "ret", Err(UNIT)))
            continue
        for s2, b in ip.fork(s, ("cmp", "le", K(lo).sub(V(t)))):
            out.append((s2, "ret", Ok(V(t)) if b else Err(UNIT)))
    return out


@pmodel(r"^(core|std)::num::<impl [iu]\w+>::from_str_radix$")
def g_radix(ip, st, fr, c, args, dty, atys, sp):
    q = ip.snap(st, ip.as_seq(val(ip, st, args[0])))
    r = val(ip, st, args[1])
    if not ip.skeleton or not r.isc() or name_of(q) is None and not digits(q, r.c):
        return models.m_int(ip, st, fr, c, args, dty, atys, sp)
    return number(ip, st, q, r.c, dty.args()[0], dty)


@model("std::str::FromStr::from_str", "core::str::<impl str>::parse")
def g_parse_num(ip, st, fr, c, args, dty, atys, sp):
    q = ip.snap(st, ip.as_seq(val(ip, st, args[0])))
    ty = dty.args()[0] if dty is not None and dty.k == "adt" and dty.args() else None
    if not ip.skeleton or ty is None or not ty.isint() or name_of(q) is None and not digits(q, 10):
        return models.m_parse(ip, st, fr, c, args, dty, atys, sp)
    return number(ip, st, q, 10, ty, dty)


@model(*["%s::slice::<impl [T]>::sort%s" % (a, b) for a in ("std", "core", "alloc") for b in ("", "_by_key", "_by_cached_key", "_by", "_unstable", "_unstable_by_key", "_unstable_by")])
def g_sort(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    q = ip.snap(st, ip.as_seq(rd(ip, st, k)))
    if all(p[0] == "u" for p in q[1]):
        return sort_units(ip, st, k, [p[1] for p in q[1]], args[1] if len(args) > 1 else None, c.p.rsplit("::", 1)[1])
    if len(q[1]) != 1 or q[1][0][0] != "*":
        return models.m_sort(ip, st, fr, c, args, dty, atys, sp)
    b = ("key",)
    ip.bounds.setdefault(b, (0, 1 << 62))
    es = elements(ip, st.copy(), q[1][0], V(b))
    keys = []
    for s, e in es:
        o = ip.call_value(s, args[1], [("R", e)])
        if len(o) != 1 or o[0][1] != "ret":
            raise Unknown("a sort key that distinguishes cases")
        keys.append(ip.snap(o[0][0], o[0][2]))
    t = ip.name("sorted", A("sorted", 0, q, ("T", tuple(keys))))
    wr(ip, st, k, Q(("s", t, ZERO, parts_len(q[1]))))
    return ret(st, UNIT)
