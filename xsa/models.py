"""Semantics of the library functions the analysed code calls.

Loop-free ones are given here as transfer functions on abstract values; the
looping ones are Rust models (witness/src/models.rs) whose MIR is analysed."""
import re
from .lin import Lin, K, V, ZERO
from .engine import *
from .engine import NeedFork, NeedResidue, Callee

R = RESULT
M = {}
PM = []


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def pmodel(*pats):
    def d(f):
        for p in pats:
            PM.append((re.compile(p), f))
        return f
    return d


def ret(st, v):
    return [(st, "ret", v)]


def val(ip, st, v):
    """value behind references and pointers (shallow)"""
    while True:
        if isinstance(v, tuple) and v:
            if v[0] == "R":
                v = v[1]
                continue
            if v[0] == "P":
                v = ip.read(st, v[1], v[2])
                continue
        if isinstance(v, Sym) and v.ty is not None and v.ty.k == "ref":
            if v.ty.raw.get("m"):
                root = ("D", v.term)
                if root not in st.mem:
                    st.mem[root] = ip.mk(v.term, v.ty.sub())
                v = st.mem[root]
                continue
            v = ip.mk(v.term, v.ty.sub())
            continue
        if isA(v) and v[1] == "box":
            v = v[3][0]
            continue
        return v


def seq(ip, st, v):
    return ip.as_seq(val(ip, st, v))


def cell(ip, st, v):
    """(root, path) of a mutable reference"""
    if isinstance(v, tuple) and v and v[0] == "P":
        x = None
        try:
            x = ip.read(st, v[1], v[2])
        except Unknown:
            x = None
        if isinstance(x, tuple) and x and x[0] == "P":
            return cell(ip, st, x)
        if isinstance(x, Sym) and x.ty is not None and x.ty.k == "ref" and x.ty.raw.get("m"):
            return cell(ip, st, x)
        return v[1], v[2]
    if isinstance(v, tuple) and v and v[0] == "R":
        return cell(ip, st, v[1])
    if isinstance(v, Sym) and v.ty is not None and v.ty.k == "ref":
        root = ("D", v.term)
        if root not in st.mem:
            st.mem[root] = ip.mk(v.term, v.ty.sub())
        return root, ()
    raise Unknown("not a place: %r" % (v,))


def rd(ip, st, c):
    return ip.read(st, c[0], c[1])


def wr(ip, st, c, v):
    ip.write(st, c[0], c[1], v)


def rust(ip, name):
    b = ip.rust_models.get(name)
    if b is None:
        raise Unknown("no rust model " + name)
    return b


def run_rust(ip, st, name, args):
    return ip.exec_fn(st, rust(ip, name), args)


IT = "models::"


def ita(name, *f):
    return A(IT + name, 0, *f)


# ----------------------------------------------------------------- basics
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec",
       "std::slice::<impl [T]>::into_vec", "std::str::<impl str>::to_owned", "std::str::<impl str>::into_string",
       "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied",
       "std::option::Option::<&mut T>::cloned", "std::option::Option::<&mut T>::copied",
       "std::string::String::into_boxed_str", "std::vec::Vec::<T, A>::into_boxed_slice", "std::borrow::Cow::<'_, B>::into_owned")
def m_clone(ip, st, fr, c, args, dty, atys, sp):
    v = val(ip, st, args[0])
    if isA(v, OPTION):
        v = A(OPTION, v[2], *[val(ip, st, x) for x in v[3]])
    elif dty is not None and is_seq_ty(dty) and not isQ(v) and isinstance(v, Sym):
        v = ip.as_seq(v)
    elif isinstance(v, (tuple,)) and v and v[0] in ("A", "Q", "C"):
        v = ip.snap(st, v)
    return ret(st, v)


@model("std::convert::Into::into", "std::convert::From::from")
def m_into(ip, st, fr, c, args, dty, atys, sp):
    if c.b >= 0:
        body = c.D.bodies[c.b]
        if body["crate"] != "core" and body["crate"] != "alloc" and body["crate"] != "std":
            return NotImplemented
    ta = c.targs()
    src, dst = (ta[0], ta[1]) if c.p.endswith("Into::into") else (ta[1], ta[0])
    if src.s == dst.s:
        return ret(st, args[0])
    if (src.isint() or src.k in ("char", "bool")) and dst.isint():
        v = args[0]
        if ip.isbool(v):
            if v[0] == "b":
                return ret(st, K(1 if v[1] else 0))
            raise NeedFork(v)
        return ret(st, v)
    if is_seq_ty(src) and is_seq_ty(dst):
        return ret(st, seq(ip, st, args[0]))
    if dst.k == "adt" and dst.p == OPTION and dst.args()[0].s == src.s:
        return ret(st, Some(args[0]))
    if dst.k == "float":
        return NotImplemented if not isinstance(args[0], Sym) else ret(st, Sym(("ftof", args[0], dst.s), dst))
    return NotImplemented


@model("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
       "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
       "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::string::String::as_str",
       "std::string::String::as_bytes", "core::str::<impl str>::as_bytes", "std::string::String::into_bytes",
       "std::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_slice", "std::string::String::as_mut_str",
       "std::vec::Vec::<T, A>::leak", "std::boxed::Box::<T>::leak")
def m_asref(ip, st, fr, c, args, dty, atys, sp):
    a = args[0]
    t = c.targs()
    if c.tr is not None and c.b >= 0 and c.D.bodies[c.b]["crate"] not in ("core", "alloc", "std"):
        return NotImplemented
    if c.tr is not None and t and t[0].k in ("param", "alias", "dyn") and c.p.endswith("as_ref"):
        # AsRef of an unknown type: a fixed function of the value
        v = ip.snap(st, a)
        if isQ(strip(v)):
            return ret(st, a)
        inner = dty
        return ret(st, ip.mk(("asref", v), inner))
    if c.p.startswith("std::convert::AsRef") and t and len(t) > 1 and not is_seq_ty(t[0]):
        if not (unref(t[0]).s == t[1].s):
            return NotImplemented
    if isinstance(a, tuple) and a and a[0] == "P":
        v = ip.read(st, a[1], a[2])
        if isinstance(v, tuple) and v and v[0] in ("P", "R"):
            return ret(st, v)
        return ret(st, a)
    return ret(st, a if isinstance(a, tuple) and a and a[0] == "R" else ("R", val(ip, st, a)))


@model("std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new", "std::cell::RefCell::<T>::new",
       "std::hint::must_use", "std::hint::black_box", "std::mem::ManuallyDrop::<T>::new", "std::convert::identity",
       "std::boxed::box_new", "std::iter::IntoIterator::into_iter_id", "core::hint::must_use",
       "std::option::Option::<T>::as_slice_id", "std::num::Wrapping", "std::borrow::Cow::Owned", "std::borrow::Cow::Borrowed")
def m_id(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, args[0])


@model("std::mem::drop", "core::mem::drop", "std::mem::forget", "std::ops::Drop::drop")
def m_unit(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, UNIT)


@model("std::mem::take")
def m_take(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    v = rd(ip, st, k)
    d = default_of(c.targs()[0], v)
    wr(ip, st, k, d)
    return ret(st, v)


def default_of(ty, v=None):
    if is_seq_ty(ty) or isQ(v):
        return EMPTYQ
    if ty.isint() or isinstance(v, Lin):
        return ZERO
    if ty.k == "bool":
        return FALSE
    if ty.k == "adt" and ty.p == OPTION:
        return NONE
    raise Unknown("default of %s" % ty)


@model("std::default::Default::default")
def m_default(ip, st, fr, c, args, dty, atys, sp):
    if c.b >= 0 and c.D.bodies[c.b]["crate"] not in ("core", "alloc", "std"):
        return NotImplemented
    try:
        return ret(st, default_of(c.targs()[0]))
    except Unknown:
        return NotImplemented


@model("std::mem::replace")
def m_replace(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    v = rd(ip, st, k)
    wr(ip, st, k, args[1])
    return ret(st, v)


@model("std::mem::swap")
def m_swap(ip, st, fr, c, args, dty, atys, sp):
    a, b = cell(ip, st, args[0]), cell(ip, st, args[1])
    x, y = rd(ip, st, a), rd(ip, st, b)
    wr(ip, st, a, y)
    wr(ip, st, b, x)
    return ret(st, UNIT)


@model("std::option::Option::<T>::take")
def m_opt_take(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    v = rd(ip, st, k)
    wr(ip, st, k, NONE)
    return ret(st, v)


# ----------------------------------------------------------------- equality
def eqv(ip, st, a, b, d=0):
    a, b = val(ip, st, a), val(ip, st, b)
    if d > 20:
        raise Unknown("deep equality")
    if a == b and not (isinstance(a, Sym) and a.ty is not None and a.ty.k == "float"):
        return TRUE
    if isinstance(a, Lin) and isinstance(b, Lin):
        l = a.sub(b)
        return boolv(l.c == 0) if l.isc() else ("cmp", "eq", l)
    if ip.isbool(a) and ip.isbool(b):
        return ip.booleq(a, b)
    if isA(a) and isA(b):
        if a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3]):
            return FALSE
        r = TRUE
        for x, y in zip(a[3], b[3]):
            r = ip.band(st, r, eqv(ip, st, x, y, d + 1))
        return r
    for x, y in ((a, b), (b, a)):
        if isA(x) and isinstance(y, Sym):
            t = unref(y.ty)
            if t is not None and t.k == "adt" and t.raw["kind"] == "enum":
                dv = K(int(t.raw["v"][x[2]]["d"]))
                dd = ip.discriminant(st, y, t)
                l = dd.sub(dv)
                r = boolv(l.c == 0) if l.isc() else ("cmp", "eq", l)
                if r == FALSE:
                    return r
                for i, f in enumerate(x[3]):
                    r = ip.band(st, r, eqv(ip, st, f, ip.project(y, ("f", x[2], i)), d + 1))
                return r
    if isQ(a) or isQ(b):
        qa, qb = ip.as_seq(a), ip.as_seq(b)
        qa, qb = ip.snap(st, qa), ip.snap(st, qb)
        if qa == qb:
            return TRUE
        return seqeq(ip, st, qa, qb, d)
    x, y = sorted((ip.snap(st, a), ip.snap(st, b)), key=repr)
    return ("at", ("eq", x, y))


def kunits(parts):
    out = []
    for p in parts:
        if p[0] == "k":
            out += [("u", K(b)) for b in p[1].encode()]
        else:
            out.append(p)
    return tuple(out)


def seqeq(ip, st, qa, qb, d=0):
    a, b = qa[1], qb[1]
    if all(p[0] == "k" for p in a) and all(p[0] == "k" for p in b):
        return boolv(a == b)
    ua, ub = kunits(a), kunits(b)
    if all(p[0] == "u" for p in ua) and all(p[0] == "u" for p in ub):
        if len(ua) != len(ub):
            return FALSE
        r = TRUE
        for p, q in zip(ua, ub):
            r = ip.band(st, r, eqv(ip, st, p[1], q[1], d + 1))
        return r
    # a shared constant prefix/suffix that differs decides
    la, lb = parts_len(a), parts_len(b)
    l = la.sub(lb)
    if l.isc() and l.c != 0:
        return FALSE
    if a and b and a[0][0] == "k" and b[0][0] == "k":
        x, y = a[0][1], b[0][1]
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return FALSE
    if (not b) or (not a):
        r = ("cmp", "eq", l)
        return r
    x, y = sorted((qa, qb), key=repr)
    return ("at", ("eq", x, y))


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne", "std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq")
def m_eq(ip, st, fr, c, args, dty, atys, sp):
    t = c.targs()
    if c.b >= 0 and c.D.bodies[c.b]["crate"] not in ("core", "alloc", "std") and c.p.endswith("::eq"):
        a = val(ip, st, args[0])
        derived = c.D.bodies[c.b]["span"][-1] if c.D.bodies[c.b].get("span") else None
        if not (t and t[0].k == "adt" and isA(a)):
            pass
        try:
            r = eqv(ip, st, args[0], args[1])
        except Unknown:
            return NotImplemented
        if not derived:
            return NotImplemented
        return ret(st, r)
    r = eqv(ip, st, args[0], args[1])
    if c.p.endswith("::ne"):
        r = ip.neg(r)
    return ret(st, r)


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_ord(ip, st, fr, c, args, dty, atys, sp):
    a, b = val(ip, st, args[0]), val(ip, st, args[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.p[-2:]]
    if not isinstance(a, Lin):
        a, b = ip.snap(st, a), ip.snap(st, b)
    return ret(st, ip.binop(st, fr, op, a, b, None))


@model("std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min", "std::cmp::Ord::clamp")
def m_max(ip, st, fr, c, args, dty, atys, sp):
    a, b = args[0], args[1]
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return NotImplemented
    if c.p.endswith("clamp"):
        h = args[2]
        out = []
        for s, t in ip.fork(st, ip.binop(st, fr, "Lt", a, b, None)):
            if t:
                out.append((s, "ret", b))
            else:
                for s2, t2 in ip.fork(s, ip.binop(s, fr, "Gt", a, h, None)):
                    out.append((s2, "ret", h if t2 else a))
        return out
    out = []
    for s, t in ip.fork(st, ip.binop(st, fr, "Le", a, b, None)):
        big, small = (b, a) if t else (a, b)
        out.append((s, "ret", big if c.p.endswith("max") else small))
    return out


# ----------------------------------------------------------------- integers
def selfint(c):
    """integer type of an `impl iN` method call, from its path"""
    m = re.search(r"<impl ([iu](?:8|16|32|64|128|size))>", c.rp) or re.search(r"<impl ([iu](?:8|16|32|64|128|size))>", c.p)
    return m.group(1) if m else None


class IntTy:
    """integer type by name (for models)"""

    def __init__(self, n):
        self.s = n
        self.k = "uint" if n[0] == "u" else "int"
        self.b = 64 if n[1:] == "size" else int(n[1:])
        self.raw = {"b": self.b, "k": self.k}

    def isint(self):
        return True

    def bits(self):
        return self.b

    def rng(self):
        return Ty.rng(self)


FULL = re.compile(r"^(core|std)::num::(\w+::)?<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$")


def intcall(c):
    m = FULL.match(c.rp) or FULL.match(c.p)
    return (IntTy(m.group(3)), m.group(4)) if m else None


def tobytes(ip, bits, v, order):
    n = bits // 8
    bs = [("u", ip.byte(bits, k, v)) for k in range(n)]
    if order == "le" or order == "ne":
        bs.reverse()
    return Q(*bs)


def unitlist(ip, st, q, n, ety=None):
    q = ip.as_seq(q)
    return [val(ip, st, ip.at(st, q, K(k), ety)) for k in range(n)]


def frombytes(ip, st, n, signed, q, order):
    q = ip.as_seq(q)
    us = unitlist(ip, st, q, n)
    if order in ("le", "ne"):
        us.reverse()
    if all(isinstance(u, Lin) and u.isc() for u in us):
        x = 0
        for u in us:
            x = x * 256 + (u.c & 255)
        if signed and x >= 1 << (8 * n - 1):
            x -= 1 << (8 * n)
        return K(x)
    ats = [u.atom() if isinstance(u, Lin) else None for u in us]
    if all(a and a[0] == "at" for a in ats):
        t0, lo = ats[0][1], ats[0][2]
        if all(a[1] == t0 and a[2] == lo.add(k) for k, a in enumerate(ats)):
            return ip.mkbe(n, signed, t0, lo)
    if all(a and a[0] == "byte" for a in ats):
        b, l = ats[0][1], ats[0][3]
        if b == 8 * n and all(a[1] == b and a[3] == l and a[2] == k for k, a in enumerate(ats)):
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)
            if ip.prove_le(st, K(lo).sub(l)) and ip.prove_le(st, l.add(-hi)):
                return l
            t = ("wrap", ("int" if signed else "uint", b), l)
            ip.bounds.setdefault(t, (lo, hi))
            return V(t)
    t = ("compose", n, signed, tuple(us))
    b = 8 * n
    ip.bounds.setdefault(t, (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1))
    return V(t)


@pmodel(r"^(core|std)::num::(\w+::)?<impl [iu](8|16|32|64|128|size)>::\w+$")
def m_int(ip, st, fr, c, args, dty, atys, sp):
    ic = intcall(c)
    if ic is None:
        return NotImplemented
    ty, name = ic
    lo, hi = ty.rng()
    m = re.match(r"^to_(be|le|ne)_bytes$", name)
    if m:
        return ret(st, tobytes(ip, ty.bits(), val(ip, st, args[0]), m.group(1)))
    m = re.match(r"^from_(be|le|ne)_bytes$", name)
    if m:
        return ret(st, frombytes(ip, st, ty.bits() // 8, ty.k == "int", val(ip, st, args[0]), m.group(1)))
    m = re.match(r"^(to_be|from_be|swap_bytes|to_le|from_le)$", name)
    if m:
        if name in ("to_le", "from_le"):
            return ret(st, args[0])
        bs = tobytes(ip, ty.bits(), args[0], "be")
        return ret(st, frombytes(ip, st, ty.bits() // 8, ty.k == "int", bs, "le"))
    a = val(ip, st, args[0]) if args else None
    b = val(ip, st, args[1]) if len(args) > 1 else None
    m = re.match(r"^(checked|wrapping|saturating|overflowing|unchecked|strict)_(add|sub|mul|neg|add_signed|div|rem|shl|shr|next_multiple_of)$", name)
    if m and isinstance(a, Lin) and (b is None or isinstance(b, Lin)):
        kind, op = m.groups()
        if op == "neg":
            a, b, op = ZERO, a, "sub"
        if op == "add_signed":
            op = "add"
        if op in ("add", "sub", "mul"):
            x = ip.binop(st, fr, op.capitalize() + "WithOverflow", a, b, ty)
            if not isA(x):
                return NotImplemented
            r, ovf = x[3]
            if kind in ("wrapping", "unchecked"):
                return ret(st, ip.binop(st, fr, op.capitalize(), a, b, ty))
            out = []
            for s, t in ip.fork(st, ovf):
                if kind == "checked":
                    out.append((s, "ret", NONE if t else Some(r)))
                elif kind == "overflowing":
                    w = ip.binop(s, fr, op.capitalize(), a, b, ty)
                    out.append((s, "ret", ("A", "tuple", 0, (w, boolv(t)))))
                elif kind == "strict":
                    out.append((s, "panic", "overflow") if t else (s, "ret", r))
                elif not t:
                    out.append((s, "ret", r))
                else:
                    for s2, t2 in ip.fork(s, ("cmp", "le", r.add(1 - lo)) if not r.isc() else boolv(r.c < lo)):
                        out.append((s2, "ret", K(lo) if t2 else K(hi)))
            return out
        if op in ("div", "rem") and b is not None and b.isc() and b.c > 0 and kind != "overflowing":
            r = ip.divrem(st, op.capitalize(), a, b.c)
            return ret(st, Some(r) if kind == "checked" else r)
    if name == "div_ceil" and b is not None and b.isc() and b.c > 0:
        return ret(st, ip.divrem(st, "Div", a.add(b.c - 1), b.c))
    if name in ("next_multiple_of", "checked_next_multiple_of") and b.isc() and b.c > 0:
        return ret(st, ip.divrem(st, "Div", a.add(b.c - 1), b.c).mul(b.c))
    if name == "is_multiple_of" and b.isc() and b.c > 0:
        r = ip.divrem(st, "Rem", a, b.c)
        return ret(st, boolv(r.c == 0) if r.isc() else ("cmp", "eq", r))
    if name == "rem_euclid" and b.isc() and b.c > 0:
        if ip.prove_le(st, a.neg()):
            return ret(st, ip.divrem(st, "Rem", a, b.c))
        if isinstance(a, Lin) and all(v % b.c == 0 for v in a.t.values()):
            return ret(st, K(a.c % b.c))
        raise NeedResidue(a, b.c, "Rem")
    if name == "wrapping_neg" and isinstance(a, Lin):
        return ret(st, ip.binop(st, fr, "Sub", ZERO, a, ty))
    if name == "pow" and a.isc() and b.isc():
        return ret(st, ip.wrapv(K(a.c ** b.c), ty))
    if name in ("abs_diff",) and isinstance(a, Lin):
        out = []
        for s, t in ip.fork(st, ip.binop(st, fr, "Le", a, b, None)):
            out.append((s, "ret", b.sub(a) if t else a.sub(b)))
        return out
    if name in ("is_positive", "is_negative") and isinstance(a, Lin):
        return ret(st, ip.binop(st, fr, "Gt" if name == "is_positive" else "Lt", a, ZERO, None))
    if name in ("unsigned_abs", "abs") and isinstance(a, Lin):
        out = []
        for s, t in ip.fork(st, ip.binop(st, fr, "Lt", a, ZERO, None)):
            r = a.neg() if t else a
            out.append((s, "ret", r))
        return out
    if name in ("min_value",):
        return ret(st, K(lo))
    if name in ("max_value",):
        return ret(st, K(hi))
    if name == "from_str_radix":
        s = ip.snap(st, seq(ip, st, args[0]))
        v = Sym(("parseint", ty.s, s, args[1]), dty)
        return ret(st, v)
    if name in ("cast_signed", "cast_unsigned"):
        t = IntTy(("i" if name == "cast_signed" else "u") + ty.s[1:])
        return ret(st, ip.cast_int(st, a, ty, t))
    return NotImplemented


@pmodel(r"^(core|std)::(num::)?f(32|64)::<impl f(32|64)>::(to|from)_(be|le|ne)_bytes$", r"^(core|std)::(num::)?f(32|64)::<impl f(32|64)>::(to|from)_bits$")
def m_float(ip, st, fr, c, args, dty, atys, sp):
    m = re.search(r"<impl f(32|64)>::(to|from)_(be_bytes|le_bytes|ne_bytes|bits)$", c.rp)
    bits = int(m.group(1))
    a = val(ip, st, args[0])
    if m.group(2) == "to":
        l = fbits(ip, a, bits)
        if m.group(3) == "bits":
            return ret(st, l)
        return ret(st, tobytes(ip, bits, l, m.group(3)[:2]))
    if m.group(3) == "bits":
        l = a
    else:
        l = frombytes(ip, st, bits // 8, False, a, m.group(3)[:2])
    return ret(st, Sym(("frombits", l), dty))


@pmodel(r"^(core|std)::(num::)?f(32|64)::<impl f(32|64)>::(is_nan|is_subnormal|is_infinite|is_finite|is_normal|is_sign_negative|is_sign_positive|abs|copysign)$")
def m_fclass(ip, st, fr, c, args, dty, atys, sp):
    m = re.search(r"<impl f(32|64)>::(\w+)$", c.rp)
    w, name = int(m.group(1)), m.group(2)
    man, top = (23, 0xff << 23) if w == 32 else (52, 0x7ff << 52)
    half = 1 << (w - 1)
    b = fbits(ip, val(ip, st, args[0]), w)
    out = []

    def signs(st, b):
        return [(s, t, b.add(-half) if t else b) for s, t in ip.fork(st, cle(K(half).sub(b)))]
    for s, neg, mag in signs(st, b):
        if name in ("is_sign_negative", "is_sign_positive"):
            out.append((s, "ret", boolv(neg == (name == "is_sign_negative"))))
        elif name == "abs":
            out.append((s, "ret", Sym(("frombits", mag), dty)))
        elif name == "copysign":
            for s2, n2, _ in signs(s, fbits(ip, val(ip, s, args[1]), w)):
                out.append((s2, "ret", Sym(("frombits", mag.add(half) if n2 else mag), dty)))
        else:
            lo, hi = {"is_nan": (top + 1, half - 1), "is_subnormal": (1, (1 << man) - 1), "is_infinite": (top, top),
                      "is_finite": (0, top - 1), "is_normal": (1 << man, top - 1)}[name]
            for s2, a in ip.fork(s, cle(K(lo).sub(mag))):
                if not a:
                    out.append((s2, "ret", FALSE))
                    continue
                for s3, z in ip.fork(s2, cle(mag.add(-hi))):
                    out.append((s3, "ret", boolv(z)))
    return out


def fbits(ip, a, bits):
    if isinstance(a, Sym) and a.term[0] == "frombits":
        return a.term[1]
    t = ("fbits", a.term if isinstance(a, Sym) else a)
    ip.bounds.setdefault(t, (0, (1 << bits) - 1))
    return V(t)


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def m_tryfrom(ip, st, fr, c, args, dty, atys, sp):
    if c.b >= 0 and c.D.bodies[c.b]["crate"] not in ("core", "alloc", "std"):
        return NotImplemented
    ta = c.targs()
    src, dst = (ta[0], ta[1]) if c.p.endswith("try_into") else (ta[1], ta[0])
    if src.isint() and (dst.isint() or dst.k == "char"):
        v = val(ip, st, args[0])
        lo, hi = dst.rng()
        if dst.k == "char":
            return from_u32(ip, st, v, Ok, Err(A("std::char::CharTryFromError", 0, UNIT)))
        out = []
        bad = ip.bor(st, cle(v.add(1 - lo)), cle(K(hi + 1).sub(v)))
        for s, t in ip.fork(st, bad):
            out.append((s, "ret", Err(A("std::num::TryFromIntError", 0, UNIT)) if t else Ok(v)))
        return out
    if dst.k == "array" and is_seq_ty(src) or (unref(dst).k == "array" and is_seq_ty(src)):
        n = unref(dst).raw.get("len")
        q = seq(ip, st, args[0])
        n = K(n) if isinstance(n, int) else lenconst(ip, n)
        l = parts_len(q[1]).sub(n)
        c1 = boolv(l.c == 0) if l.isc() else ("cmp", "eq", l)
        out = []
        err = Err(A("std::array::TryFromSliceError", 0, UNIT)) if unref(src).k == "slice" else Err(q)
        for s, t in ip.fork(st, c1):
            out.append((s, "ret", Ok(q) if t else err))
        return out
    return NotImplemented


def lenconst(ip, n):
    if isinstance(n, dict):
        if "int" in n:
            return K(int(n["int"]))
        if "cparam" in n:
            return ip.cparam(n["cparam"])
    if isinstance(n, str):
        return K(int(n)) if n.isdigit() else ip.cparam(n)
    raise Unknown("array length %r" % (n,))


def cle(l):
    return boolv(l.c <= 0) if l.isc() else ("cmp", "le", l)


def ceq(l):
    return boolv(l.c == 0) if l.isc() else ("cmp", "eq", l)


def from_u32(ip, st, v, some, none):
    out = []
    big = cle(K(0x110000).sub(v))
    for s, t in ip.fork(st, big):
        if t:
            out.append((s, "ret", none))
            continue
        sur = ("and", cle(K(0xD800).sub(v)), cle(v.add(-0xDFFF)))
        if v.isc():
            sur = boolv(0xD800 <= v.c <= 0xDFFF)
        for s2, t2 in ip.fork(s, sur):
            out.append((s2, "ret", none if t2 else some(v)))
    return out


@pmodel(r"^(std|core)::char::(methods::<impl char>::|convert::)?from_u32$")
def m_from_u32(ip, st, fr, c, args, dty, atys, sp):
    return from_u32(ip, st, args[0], Some, NONE)


def cls(*rs):
    """membership of a codepoint in a union of inclusive ranges, as condition"""
    def f(ip, st, v):
        if isinstance(v, Lin) and v.isc():
            return boolv(any(a <= v.c <= b for a, b in rs))
        r = FALSE
        for a, b in rs:
            r = ip.bor(st, r, ("and", cle(K(a).sub(v)), cle(v.add(-b))) if a != b else ceq(v.add(-a)))
        return r
    return f


UP, LOW, DIG = (65, 90), (97, 122), (48, 57)
CLASSES = {
    "is_ascii_uppercase": cls(UP), "is_ascii_lowercase": cls(LOW), "is_ascii_digit": cls(DIG),
    "is_ascii_alphabetic": cls(UP, LOW), "is_ascii_alphanumeric": cls(UP, LOW, DIG),
    "is_ascii_hexdigit": cls(DIG, (65, 70), (97, 102)), "is_ascii_whitespace": cls((9, 10), (12, 13), (32, 32)),
    "is_ascii": cls((0, 127)), "is_ascii_graphic": cls((33, 126)), "is_ascii_control": cls((0, 31), (127, 127)),
    "is_ascii_punctuation": cls((33, 47), (58, 64), (91, 96), (123, 126)),
}


@pmodel(r"^(std|core)::(char::methods::<impl char>|num::<impl u8>)::(is_\w+|to_ascii_\w+|to_digit|len_utf8|is_digit|eq_ignore_ascii_case)$")
def m_char(ip, st, fr, c, args, dty, atys, sp):
    name = (c.rp or c.p).rsplit("::", 1)[1]
    v = val(ip, st, args[0])
    if name in CLASSES and isinstance(v, Lin):
        return ret(st, CLASSES[name](ip, st, v))
    if isinstance(v, Lin) and v.isc() and name in ("is_uppercase", "is_lowercase", "is_alphabetic", "is_alphanumeric", "is_numeric", "is_whitespace"):
        ch = chr(v.c)
        b = {"is_uppercase": ch.isupper(), "is_lowercase": ch.islower(), "is_alphabetic": ch.isalpha(),
             "is_alphanumeric": ch.isalnum(), "is_numeric": ch.isnumeric(), "is_whitespace": ch.isspace()}[name]
        return ret(st, boolv(b))
    if name in ("to_ascii_lowercase", "to_ascii_uppercase") and isinstance(v, Lin):
        if v.isc():
            ch = chr(v.c)
            ch = ch.lower() if name.endswith("lowercase") else ch.upper()
            return ret(st, K(ord(ch)) if v.c < 128 else v)
        src = CLASSES["is_ascii_uppercase" if name.endswith("lowercase") else "is_ascii_lowercase"](ip, st, v)
        out = []
        for s, t in ip.fork(st, src):
            out.append((s, "ret", v.add(32 if name.endswith("lowercase") else -32) if t else v))
        return out
    return ret(st, ip.mk(("app", "char::" + name, ip.snap(st, v)), dty))


# ----------------------------------------------------------------- sequences
@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::string::String::new", "std::string::String::with_capacity",
       "std::vec::Vec::<T, A>::with_capacity_in", "std::vec::Vec::<T, A>::new_in")
def m_vec_new(ip, st, fr, c, args, dty, atys, sp):
    if c.p.endswith("with_capacity"):
        alloc_event(ip, st, args[0], c.p, sp)
    return ret(st, EMPTYQ)


def alloc_event(ip, st, n, what, sp):
    """record memory demanded before the elements exist"""
    st.mem[("AL",)] = ("Q", norm_parts(st.mem.get(("AL",), EMPTYQ)[1] + (("u", ("alloc", what, n)),)))


@model("std::vec::Vec::<T, A>::reserve", "std::string::String::reserve", "std::vec::Vec::<T, A>::reserve_exact", "std::vec::Vec::<T, A>::shrink_to_fit",
       "std::vec::Vec::<T, A>::try_reserve")
def m_reserve(ip, st, fr, c, args, dty, atys, sp):
    if len(args) > 1:
        alloc_event(ip, st, args[1], c.p, sp)
    return ret(st, UNIT if not c.p.endswith("try_reserve") else Ok(UNIT))


@model("std::vec::from_elem")
def m_from_elem(ip, st, fr, c, args, dty, atys, sp):
    alloc_event(ip, st, args[1], "vec![v; n]", sp)
    return ret(st, Q(("rep", args[0], args[1])))


@model("std::vec::Vec::<T, A>::push", "std::string::String::push")
def m_push(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    q = ip.as_seq(rd(ip, st, k))
    v = args[1]
    if c.p.startswith("std::string"):
        p = char_part(ip, v)
    else:
        p = ("u", v)
    wr(ip, st, k, ("Q", norm_parts(q[1] + (p,))))
    return ret(st, UNIT)


def char_part(ip, v):
    if isinstance(v, Lin) and v.isc():
        return ("k", chr(v.c))
    return ("ch", v)


@model("std::vec::Vec::<T, A>::append", "std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str")
def m_append(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    q = ip.as_seq(rd(ip, st, k))
    o = seq(ip, st, args[1])
    if c.p.endswith("append"):
        wr(ip, st, cell(ip, st, args[1]), EMPTYQ)
    wr(ip, st, k, ("Q", norm_parts(q[1] + o[1])))
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::resize", "std::vec::Vec::<T, A>::truncate", "std::vec::Vec::<T, A>::clear", "std::string::String::clear",
       "std::string::String::truncate")
def m_resize(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    q = ip.as_seq(rd(ip, st, k))
    n = args[1] if len(args) > 1 else ZERO
    if c.p.endswith("clear"):
        wr(ip, st, k, EMPTYQ)
        return ret(st, UNIT)
    l = parts_len(q[1])
    out = []
    for s, t in ip.fork(st, cle(n.sub(l))):       # n <= len: truncate
        if t:
            if c.p == "std::string::String::truncate" and len(q[1]) == 1 and q[1][0][0] == "s":
                # inside an arbitrary text the cut may fall within a character
                for s2, z in ip.fork(s, ip.bor(s, cle(n), cle(l.sub(n)))):
                    for s3, t3 in [(s2, True)] if z else ip.fork(s2, ("at", ("boundary", q, n))):
                        if t3:
                            wr(ip, s3, k, ("Q", ip.split(s3, q, n)[0]))
                            out.append((s3, "ret", UNIT))
                        else:
                            out.append((s3, "panic", "truncate() within a character at %s" % loc(sp)))
                continue
            a, b = ip.split(s, q, n)
            wr(ip, s, k, ("Q", a))
        elif c.p.endswith("resize"):
            alloc_event(ip, s, n.sub(l), "resize", sp)
            wr(ip, s, k, ("Q", norm_parts(q[1] + (("rep", args[2], n.sub(l)),))))
        out.append((s, "ret", UNIT))
    return out


@model("std::vec::Vec::<T, A>::pop", "std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::insert", "std::vec::Vec::<T, A>::swap_remove")
def m_pop(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    q = ip.as_seq(rd(ip, st, k))
    l = parts_len(q[1])
    if c.p.endswith("pop"):
        out = []
        for s, t in ip.fork(st, cle(l)):
            if t:
                out.append((s, "ret", NONE))
            else:
                a, b = ip.split(s, q, l.add(-1))
                v = ip.at(s, ("Q", b), ZERO)
                wr(ip, s, k, ("Q", a))
                out.append((s, "ret", Some(v)))
        return out
    if c.p.endswith("::remove"):
        a, b = ip.split(st, q, args[1])
        v = ip.at(st, ("Q", b), ZERO)
        _, b2 = ip.split(st, ("Q", b), K(1))
        wr(ip, st, k, ("Q", norm_parts(a + b2)))
        return ret(st, v)
    if c.p.endswith("insert"):
        a, b = ip.split(st, q, args[1])
        wr(ip, st, k, ("Q", norm_parts(a + (("u", args[2]),) + b)))
        return ret(st, UNIT)
    return NotImplemented


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "std::string::String::len")
def m_len(ip, st, fr, c, args, dty, atys, sp):
    v = val(ip, st, args[0])
    if isA(v) and v[1].startswith(IT):
        return NotImplemented
    return ret(st, parts_len(ip.as_seq(v)[1]))


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_is_empty(ip, st, fr, c, args, dty, atys, sp):
    l = parts_len(seq(ip, st, args[0])[1])
    return ret(st, cle(l))


def sub(ip, st, v, lo, hi):
    """sub-slice value/pointer"""
    if isinstance(v, tuple) and v and v[0] == "P":
        x = ip.read(st, v[1], v[2])
        if isinstance(x, tuple) and x and x[0] in ("P", "R"):
            return sub(ip, st, x, lo, hi)
        return ("P", v[1], v[2] + (("sl", lo, hi),))
    q = seq(ip, st, v)
    a, r = ip.split(st, q, lo)
    m, _ = ip.split(st, ("Q", r), hi.sub(lo))
    return ("R", ("Q", m))


def subq(ip, st, v, lo, hi):
    q = seq(ip, st, v)
    a, r = ip.split(st, q, lo)
    m, _ = ip.split(st, ("Q", r), hi.sub(lo))
    return ("Q", m)


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_at_checked",
       "core::slice::<impl [T]>::split_at_unchecked")
def m_split_at(ip, st, fr, c, args, dty, atys, sp):
    q = seq(ip, st, args[0])
    n = parts_len(q[1])
    out = []
    ip.obligations += 1
    fs = ip.fork(st, cle(args[1].sub(n)))
    if all(t for _, t in fs):
        ip.discharged += 1
    for s, t in fs:
        if not t:
            out.append((s, "ret", NONE) if c.p.endswith("checked") and not c.p.endswith("unchecked") else (s, "panic", "split_at out of range at %s" % loc(sp)))
            continue
        if isinstance(args[0], tuple) and args[0][0] == "P":
            r = ("A", "tuple", 0, (sub(ip, s, args[0], ZERO, args[1]), sub(ip, s, args[0], args[1], n)))
        else:
            a, b = ip.split(s, q, args[1])
            r = ("A", "tuple", 0, (("R", ("Q", a)), ("R", ("Q", b))))
        out.append((s, "ret", Some(r) if c.p.endswith("_checked") else r))
    return out


def loc(sp):
    return "%s:%s" % (sp[0], sp[1]) if sp else "?"


def range_of(ip, st, r, n):
    """(lo, hi) of a range value over a sequence of length n"""
    r = val(ip, st, r)
    if not isA(r):
        raise Unknown("range %r" % (r,))
    k = r[1].rsplit("::", 1)[1]
    f = [val(ip, st, x) for x in r[3]]
    if k == "Range":
        return f[0], f[1]
    if k == "RangeFrom":
        return f[0], n
    if k == "RangeTo":
        return ZERO, f[0]
    if k == "RangeFull":
        return ZERO, n
    if k == "RangeInclusive":
        return f[0], f[1].add(1)
    if k == "RangeToInclusive":
        return ZERO, f[0].add(1)
    raise Unknown("range kind %s" % k)


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut",
       "core::str::<impl str>::get", "std::vec::Vec::<T, A>::get", "core::slice::<impl [T]>::get_unchecked")
def m_index(ip, st, fr, c, args, dty, atys, sp):
    get = "::get" in c.p
    base = val(ip, st, args[0])
    if not (isQ(base) or isinstance(base, Sym)):
        return NotImplemented
    if isinstance(base, Sym) and base.ty is not None and not is_seq_ty(base.ty):
        return NotImplemented
    q = ip.as_seq(base)
    n = parts_len(q[1])
    i = val(ip, st, args[1])
    out = []
    ip.obligations += 1
    mut = isinstance(args[0], tuple) and args[0][0] == "P"
    if isinstance(i, Lin):
        fs = ip.fork(st, cle(i.sub(n).add(1)))
        if all(t for _, t in fs):
            ip.discharged += 1
        for s, t in fs:
            if not t:
                out.append((s, "ret", NONE) if get else (s, "panic", "index out of bounds at %s" % loc(sp)))
                continue
            if mut:
                k = cell(ip, s, args[0])
                r = ("P", k[0], k[1] + (("i", i, None),))
            else:
                r = ("R", ip.at(s, q, i))
            out.append((s, "ret", Some(r) if get else r))
        return out
    lo, hi = range_of(ip, st, i, n)
    ok = ip.band(st, cle(lo.sub(hi)), cle(hi.sub(n)))
    fs = ip.fork(st, ok)
    if all(t for _, t in fs):
        ip.discharged += 1
    for s, t in fs:
        if not t:
            out.append((s, "ret", NONE) if get else (s, "panic", "slice index out of range at %s" % loc(sp)))
            continue
        r = sub(ip, s, args[0], lo, hi)
        out.append((s, "ret", Some(r) if get else r))
    return out


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last",
       "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def m_first(ip, st, fr, c, args, dty, atys, sp):
    q = seq(ip, st, args[0])
    n = parts_len(q[1])
    out = []
    for s, t in ip.fork(st, cle(n)):
        if t:
            out.append((s, "ret", NONE))
            continue
        last = "last" in c.p.rsplit("::", 1)[1]
        i = n.add(-1) if last else ZERO
        if c.p.endswith("_mut"):
            k = cell(ip, s, args[0])
            out.append((s, "ret", Some(("P", k[0], k[1] + (("i", i, None),)))))
            continue
        v = ip.at(s, q, i)
        if "split" in c.p.rsplit("::", 1)[1]:
            rest = subq(ip, s, args[0], ZERO if last else K(1), i if last else n)
            v = ("A", "tuple", 0, (("R", v), ("R", rest)))
            out.append((s, "ret", Some(v)))
        else:
            out.append((s, "ret", Some(("R", v))))
    return out


@model("core::slice::<impl [T]>::swap_with_slice", "core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice",
       "core::slice::<impl [T]>::fill", "core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::swap")
def m_slicemut(ip, st, fr, c, args, dty, atys, sp):
    name = c.p.rsplit("::", 1)[1]
    k = cell(ip, st, args[0])
    a = ip.as_seq(rd(ip, st, k))
    if name == "reverse":
        if all(p[0] == "u" for p in a[1]):
            wr(ip, st, k, ("Q", tuple(reversed(a[1]))))
            return ret(st, UNIT)
        named_list(ip, st, k, "reversed", a)
        return ret(st, UNIT)
    if name == "fill":
        wr(ip, st, k, Q(("rep", args[1], parts_len(a[1]))))
        return ret(st, UNIT)
    if name == "swap":
        x, y = ip.at(st, a, args[1]), ip.at(st, a, args[2])
        ip.write(st, k[0], k[1] + (("i", args[1]),), y)
        ip.write(st, k[0], k[1] + (("i", args[2]),), x)
        return ret(st, UNIT)
    b = seq(ip, st, args[1])
    l = parts_len(a[1]).sub(parts_len(b[1]))
    out = []
    ip.obligations += 1
    fs = ip.fork(st, ceq(l))
    if all(t for _, t in fs):
        ip.discharged += 1
    for s, t in fs:
        if not t:
            out.append((s, "panic", "%s length mismatch at %s" % (name, loc(sp))))
            continue
        wr(ip, s, k, b)
        if name == "swap_with_slice":
            wr(ip, s, cell(ip, s, args[1]), a)
        out.append((s, "ret", UNIT))
    return out


@model("core::slice::<impl [T]>::contains")
def m_contains(ip, st, fr, c, args, dty, atys, sp):
    q = seq(ip, st, args[0])
    x = args[1]
    parts = kunits(q[1])
    if all(p[0] == "u" for p in parts):
        xs = ip.snap(st, x)
        vals = [ip.snap(st, p[1]) for p in parts]
        if len(vals) > 8 and not (isinstance(xs, Lin) and xs.isc()) and not isconst(xs):
            return ret(st, ("at", ("in", xs, tuple(sorted(vals, key=repr)))))
        out = []
        cur = st
        for p in parts:
            e = eqv(ip, cur, p[1], x)
            nxt = None
            for s, t in ip.fork(cur, e):
                if t:
                    out.append((s, "ret", TRUE))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append((cur, "ret", FALSE))
        return out
    return ret(st, ("at", ("contains", ip.snap(st, q), ip.snap(st, x))))


def isconst(v):
    return isQ(v) and all(p[0] == "k" for p in v[1])


@model("std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable", "core::slice::<impl [T]>::sort_unstable_by_key",
       "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_cached_key", "core::slice::<impl [T]>::sort_unstable_by")
def m_sort(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    q = ip.snap(st, ip.as_seq(rd(ip, st, k)))
    name = c.p.rsplit("::", 1)[1]
    key = None
    s2 = st
    if len(args) > 1 and name.endswith("key"):
        el = elem_sym(ip, q)
        o = [x for x in ip.call_value(st.copy(), args[1], [("R", el)]) if x[1] == "ret"]
        if len(o) == 1:
            key = ip.snap(o[0][0], o[0][2])
        else:
            key = ("keys", tuple(sorted((repr(x[0].dec), repr(ip.snap(x[0], x[2]))) for x in o)))
    elif len(args) > 1:
        a, b = elem_sym(ip, q, "a"), elem_sym(ip, q, "b")
        o = [x for x in ip.call_value(st.copy(), args[1], [("R", a), ("R", b)]) if x[1] == "ret"]
        key = ("cmpfn", tuple(sorted(repr(ip.snap(x[0], x[2])) for x in o)))
    if all(p[0] == "u" for p in q[1]) and len(q[1]) <= 1:
        return ret(st, UNIT)
    t = ("sorted", q, key)
    ip.sorted_ety = getattr(ip, "sorted_ety", {})
    e = elem_ty(ip, q)
    if e is not None:
        ip.ety[t] = e
    wr(ip, st, k, Q(("s", t, ZERO, parts_len(q[1]))))
    return ret(st, UNIT)


def named_list(ip, st, k, name, a, *more):
    """the list in cell k becomes name(a)"""
    q = ip.snap(st, a)
    t = (name, q) + more
    e = elem_ty(ip, q)
    if e is not None:
        ip.ety[t] = e
    n = ip.lenatom(t) if name != "reversed" else parts_len(q[1])
    wr(ip, st, k, Q(("s", t, ZERO, n)))


def elem_ty(ip, q):
    for p in q[1]:
        if p[0] == "s":
            return ip.ety.get(p[1])
        if p[0] == "u" and isinstance(p[1], Sym):
            return p[1].ty
        if p[0] == "*" and len(p[3]) == 1:
            return elem_ty(ip, ("Q", p[3]))
    return None


def elem_sym(ip, q, tag=""):
    e = elem_ty(ip, q)
    t = ("elem" + tag,)
    if e is None:
        return Sym(t, None)
    return ip.mk(t, e)


# ----------------------------------------------------------------- iterators
# it.Seq fields: (Q, part index, offset in part (star iterations for stars), unit in star body)
def seqit(q):
    return A(IT + "Seq", 0, q, K(0), ZERO, K(0))


def into_iter(ip, st, v, byref=None):
    """iterator value for an IntoIterator value; mutable access yields pointers"""
    if isinstance(v, tuple) and v and v[0] == "P":
        x = val(ip, st, v)
        if isQ(x) or (isinstance(x, Sym) and is_seq_ty(x.ty)):
            k = cell(ip, st, v)
            q = ip.as_seq(x)
            return A(IT + "SeqMut", 0, ("P", k[0], k[1]), ZERO, parts_len(q[1]))
        if isA(x) and (x[1].startswith(IT) or x[1] == "std::ops::Range"):
            return v
        if isA(x, OPTION):
            return into_iter(ip, st, ("R", x))
        raise Unknown("into_iter of %r" % (x,))
    x = val(ip, st, v)
    if isQ(x):
        return seqit(x)
    if isA(x):
        if x[1] == OPTION:
            return ita("Once", x)
        if x[1] == "std::ops::RangeInclusive":
            return A("std::ops::Range", 0, x[3][0], x[3][1].add(1))
        return x
    if isinstance(x, Sym):
        t = unref(x.ty)
        if is_seq_ty(t):
            return seqit(ip.as_seq(x))
        if t is not None and t.k == "adt" and t.p == OPTION:
            return ita("Once", x)
        if t is not None and t.k == "adt" and t.p in COLLS:
            return seqit(coll_seq(ip, x))
        return x
    raise Unknown("into_iter of %r" % (x,))


COLLS = {"std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap", "std::collections::BTreeSet",
         "std::collections::VecDeque"}


def coll_seq(ip, x):
    raise Unknown("iteration over collection %r" % (x,))


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(ip, st, fr, c, args, dty, atys, sp):
    if c.b >= 0 and c.D.bodies[c.b]["crate"] not in ("core", "alloc", "std"):
        return NotImplemented
    t = c.targs()
    return ret(st, into_iter(ip, st, args[0]))


@model("core::slice::<impl [T]>::iter", "std::vec::Vec::<T, A>::iter", "core::slice::<impl [T]>::iter_mut", "std::option::Option::<T>::iter",
       "std::vec::Vec::<T, A>::into_iter", "std::array::IntoIter::<T, N>::new")
def m_iter(ip, st, fr, c, args, dty, atys, sp):
    v = args[0]
    if not c.p.endswith("iter_mut"):
        v = ("R", val(ip, st, v))
    return ret(st, into_iter(ip, st, v))


@model("std::vec::Vec::<T, A>::drain")
def m_drain(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    q = ip.as_seq(rd(ip, st, k))
    n = parts_len(q[1])
    lo, hi = range_of(ip, st, args[1], n)
    a, r = ip.split(st, q, lo)
    m, b = ip.split(st, ("Q", r), hi.sub(lo))
    wr(ip, st, k, ("Q", norm_parts(a + b)))
    return ret(st, seqit(("Q", m)))


@model("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_mut", "core::slice::<impl [T]>::chunks_exact",
       "core::slice::<impl [T]>::chunks_exact_mut")
def m_chunks(ip, st, fr, c, args, dty, atys, sp):
    exact = "exact" in c.p
    q = seq(ip, st, args[0])
    n = parts_len(q[1])
    a = args[0]
    if isinstance(a, tuple) and a[0] == "P" and c.p.endswith("mut"):
        k = cell(ip, st, a)
        base = ("P", k[0], k[1])
    else:
        base = ("R", q)
    sz = args[1]
    if exact:
        if not sz.isc():
            raise Unknown("chunk size")
        whole = ip.divrem(st, "Div", n, sz.c).mul(sz.c)
        return ret(st, A(IT + "Chunks", 0, base, ZERO, whole, sz, n))
    return ret(st, A(IT + "Chunks", 0, base, ZERO, n, sz, n))


@pmodel(r"^std::slice::ChunksExact(Mut)?::<'a, T>::(remainder|into_remainder)$")
def m_remainder(ip, st, fr, c, args, dty, atys, sp):
    v = val(ip, st, args[0])
    base, pos, end, sz, n = v[3]
    return ret(st, sub(ip, st, base, end, n))


@model("core::slice::<impl [T]>::windows")
def m_windows(ip, st, fr, c, args, dty, atys, sp):
    return NotImplemented


@model("core::str::<impl str>::chars", "core::str::<impl str>::bytes", "core::str::<impl str>::char_indices")
def m_chars(ip, st, fr, c, args, dty, atys, sp):
    q = seq(ip, st, args[0])
    if c.p.endswith("bytes"):
        return ret(st, seqit(("Q", kunits(q[1]))))
    cq = chars_of(ip, ip.snap(st, q))
    if c.p.endswith("char_indices"):
        if all(p[0] == "u" and p[1].isc() for p in cq[1]):
            out, n = [], 0
            for p in cq[1]:
                out.append(("u", ("A", "tuple", 0, (K(n), p[1]))))
                n += len(chr(p[1].c).encode())
            return ret(st, seqit(Q(*out)))
        raise Unknown("char_indices of a symbolic string")
    return ret(st, seqit(cq))


class CharTy:
    k = "char"
    s = "char"
    raw = {"k": "char"}

    def isint(self):
        return False

    def rng(self):
        return (0, 0x10FFFF)


CHAR = CharTy()


def chars_of(ip, q):
    out = []
    for p in q[1]:
        if p[0] == "k":
            out += [("u", K(ord(ch))) for ch in p[1]]
        elif p[0] == "ch":
            out.append(("u", p[1]))
        elif p[0] == "s":
            t = ("chars", p[1], p[2], p[3])
            ip.ety[t] = CHAR
            out.append(("s", t, ZERO, ip.lenatom(t)))
        elif p[0] == "*":
            out.append(("*", p[1], p[2], chars_of(ip, ("Q", p[3]))[1]))
        elif p[0] == "alt":
            out.append(("alt", tuple((c, chars_of(ip, ("Q", ps))[1]) for c, ps in p[1])))
        else:
            raise Unknown("chars of %r" % (p,))
    return ("Q", norm_parts(out))


def decs_cond(ip, decs):
    """condition value from a tuple of recorded decisions"""
    r = TRUE
    for d in decs:
        if d[0] == "le":
            c = cle(d[1])
        elif d[0] == "eq":
            c = ceq(d[1])
            if not d[2]:
                c = ip.neg(c)
        elif d[0] == "at":
            c = ("at", d[1]) if d[2] else ("not", ("at", d[1]))
        elif d[0] == "is":
            c = ceq(V(("disc", d[1])).add(-d[2]))
        elif d[0] == "isnt":
            c = ip.neg(ceq(V(("disc", d[1])).add(-d[2])))
        else:
            raise Unknown("decision %r" % (d,))
        r = ip.band(None, r, c)
    return r


def fork_decs(ip, st, decs):
    """-> states in which all decisions hold (or [])"""
    s = st.copy()
    for d in decs:
        c = decs_cond(ip, (d,))
        if not ip.assume(s, c, True):
            return None
    return s


def seq_next(ip, st, it):
    """-> [(state, iterator', elem or None)]"""
    q, pi, j, k = it[3]
    parts = q[1]
    if not pi.isc() or not k.isc():
        raise UnknownPart("iterator at an unknown part")
    out = []
    work = [(st, pi.c, j, k.c)]
    while work:
        s, p, jj, kk = work.pop()
        if p >= len(parts):
            out.append((s, A(IT + "Seq", 0, q, K(len(parts)), ZERO, K(0)), None))
            continue
        part = parts[p]
        t = part[0]
        if t == "u":
            out.append((s, A(IT + "Seq", 0, q, K(p + 1), ZERO, K(0)), part[1]))
            continue
        if t == "k":
            b = part[1].encode()
            if not jj.isc():
                raise Unknown("position in literal")
            if jj.c < len(b):
                out.append((s, A(IT + "Seq", 0, q, K(p), jj.add(1), K(0)), K(b[jj.c])))
            else:
                work.append((s, p + 1, ZERO, 0))
            continue
        if t == "ch":
            raise Unknown("byte iteration over a char")
        if t == "alt":
            done = False
            for decs, body in part[1]:
                s2 = fork_decs(ip, s, decs)
                if s2 is None:
                    continue
                nq = ("Q", parts[:p] + tuple(body) + parts[p + 1:])
                for o in seq_next(ip, s2, A(IT + "Seq", 0, nq, K(p), ZERO, K(0))):
                    out.append(o)
            continue
        sel = ip.selects(part)
        n = part[2] if t in ("rep", "*") and not sel else part_len(part)
        for s2, more in ip.fork(s, cle(jj.sub(n).add(1))):
            if not more:
                work.append((s2, p + 1, ZERO, 0))
                continue
            if sel:
                for s3, e in ip.selected(s2, part, jj):
                    out.append((s3, A(IT + "Seq", 0, q, K(p), jj.add(1), K(0)), e))
                continue
            if t == "*":
                body = part[3]
                if not body:
                    work.append((s2, p + 1, ZERO, 0))
                    continue
                e = rewrite(body[kk], lambda a: jj if a == part[1] else None)
                nk, nj = (kk + 1, jj) if kk + 1 < len(body) else (0, jj.add(1))
                if e[0] == "u":
                    out.append((s2, A(IT + "Seq", 0, q, K(p), nj, K(nk)), e[1]))
                elif e[0] == "alt":
                    for decs, bd in e[1]:
                        s3 = fork_decs(ip, s2, decs)
                        if s3 is None:
                            continue
                        if len(bd) == 0:
                            work.append((s3, p, nj, nk))
                        elif len(bd) == 1 and bd[0][0] == "u":
                            out.append((s3, A(IT + "Seq", 0, q, K(p), nj, K(nk)), bd[0][1]))
                        else:
                            raise Unknown("iteration over nested alternatives")
                else:
                    raise Unknown("iteration over nested %r" % (e[0],))
            else:
                e = ip.part_at(s2, part, jj, None)
                out.append((s2, A(IT + "Seq", 0, q, K(p), jj.add(1), K(0)), e))
    return out


def it_next(ip, st, a):
    """Iterator::next on a mutable reference value a"""
    k = cell(ip, st, a)
    v = rd(ip, st, k)
    if isinstance(v, tuple) and v and v[0] in ("P",):
        return it_next(ip, st, v)
    if isinstance(v, tuple) and v and v[0] == "R":
        v = v[1]
    if isA(v):
        name = v[1]
        if name == IT + "Seq":
            out = []
            for s, nv, e in seq_next(ip, st, v):
                wr(ip, s, k, nv)
                out.append((s, "ret", NONE if e is None else Some(e)))
            return out
        if name == IT + "SeqMut":
            base, j, n = v[3]
            out = []
            for s, t in ip.fork(st, cle(j.sub(n).add(1))):
                if t:
                    wr(ip, s, k, A(IT + "SeqMut", 0, base, j.add(1), n))
                    out.append((s, "ret", Some(("P", base[1], base[2] + (("i", j, None),)))))
                else:
                    out.append((s, "ret", NONE))
            return out
        if name == IT + "Chunks":
            base, pos, end, sz, n = v[3]
            out = []
            for s, t in ip.fork(st, cle(end.sub(pos))):
                if t:
                    out.append((s, "ret", NONE))
                    continue
                for s2, t2 in ip.fork(s, cle(pos.add(sz).sub(end))):
                    hi = pos.add(sz) if t2 else end
                    wr(ip, s2, k, A(IT + "Chunks", 0, base, hi, end, sz, n))
                    out.append((s2, "ret", Some(sub(ip, s2, base, pos, hi))))
            return out
        if name in ("std::ops::Range", "std::ops::RangeFrom"):
            lo = v[3][0]
            out = []
            cond = cle(lo.sub(v[3][1]).add(1)) if name.endswith("Range") else TRUE
            for s, t in ip.fork(st, cond):
                if t:
                    wr(ip, s, k, A(name, 0, lo.add(1), *v[3][1:]))
                    out.append((s, "ret", Some(lo)))
                else:
                    out.append((s, "ret", NONE))
            return out
        if name == "std::ops::RangeInclusive":
            wr(ip, st, k, A("std::ops::Range", 0, v[3][0], v[3][1].add(1)))
            return it_next(ip, st, a)
        if name.startswith(IT):
            return run_rust(ip, st, name[len(IT):] + "_next", [("P", k[0], k[1])])
    return None


@model("std::iter::Iterator::next")
def m_next(ip, st, fr, c, args, dty, atys, sp):
    if c.b >= 0 and c.D.bodies[c.b]["crate"] not in ("core", "alloc", "std", "quote"):
        return NotImplemented
    r = it_next(ip, st, args[0])
    if r is None:
        v = val(ip, st, args[0])
        if isA(v):
            b = find_impl_next(ip, v)
            if b is not None:
                return ip.exec_fn(st, b, [args[0]])
        if isinstance(v, Sym):
            return NotImplemented
        raise Unknown("next() on %r" % (v,))
    return r


def find_impl_next(ip, v):
    """a workspace implementation of Iterator::next for this value's type"""
    for d in ip.dumps.values():
        for r in d.roots:
            if r.get("tr") == "std::iter::Iterator" and r["name"] == "next":
                b = d.bodies[r["b"]]
                t = unref(d.ty(b["locals"][1]))
                if t.k == "adt" and t.p == v[1]:
                    return b
    return None


def exact_len(v):
    """number of elements left in an iterator that knows it, or None"""
    if not isA(v):
        return None
    if v[1] == IT + "Seq" and v[3][1:] == (K(0), ZERO, K(0)):
        return parts_len(v[3][0][1])
    if v[1] == IT + "SeqMut":
        return v[3][2].sub(v[3][1])
    if v[1] == "std::ops::Range" and v[3][0].isc() and v[3][0].c == 0:
        return v[3][1]
    if v[1] in (IT + "Map", IT + "Inspect", IT + "Enumerate", IT + "Rev"):
        return exact_len(strip(v[3][0]))
    return None


@model("std::iter::Iterator::size_hint", "std::iter::ExactSizeIterator::len")
def m_size_hint(ip, st, fr, c, args, dty, atys, sp):
    if c.b >= 0 and c.D.bodies[c.b]["crate"] not in ("core", "alloc", "std"):
        return NotImplemented
    v = val(ip, st, args[0])
    n = exact_len(v)
    if n is None and c.p.endswith("::len") and not (isA(v) and v[1].startswith(IT)):
        n = parts_len(ip.as_seq(v)[1])
    w = v
    while isA(w) and w[1] in (IT + "Map", IT + "Inspect", IT + "Enumerate", IT + "Filter"):
        w = strip(w[3][0])
    if n is None and exact_len(w) is not None:
        return ret(st, A("tuple", 0, ZERO, Some(exact_len(w))))
    if n is None:
        return NotImplemented
    return ret(st, n if c.p.endswith("::len") else A("tuple", 0, n, Some(n)))


@model("std::iter::DoubleEndedIterator::next_back")
def m_next_back(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    v = rd(ip, st, k)
    if isA(v):
        if v[1] == "std::ops::Range":
            lo, hi = v[3]
            out = []
            for s, t in ip.fork(st, cle(lo.sub(hi).add(1))):
                if t:
                    wr(ip, s, k, A(v[1], 0, lo, hi.add(-1)))
                    out.append((s, "ret", Some(hi.add(-1))))
                else:
                    out.append((s, "ret", NONE))
            return out
        if v[1] == IT + "Seq":
            q = ip.as_seq(v[3][0])
            if v[3][1] == K(0) and v[3][2] == ZERO and v[3][3] == K(0):
                n = parts_len(q[1])
                out = []
                for s, t in ip.fork(st, cle(n)):
                    if t:
                        out.append((s, "ret", NONE))
                    else:
                        e = ip.at(s, q, n.add(-1))
                        l, _ = ip.split(s, q, n.add(-1))
                        wr(ip, s, k, seqit(("Q", l)))
                        out.append((s, "ret", Some(e)))
                return out
        if v[1].startswith(IT) and v[1][len(IT):] + "_next_back" in ip.rust_models:
            return run_rust(ip, st, v[1][len(IT):] + "_next_back", [("P", k[0], k[1])])
    raise Unknown("next_back on %r" % (v,))


ADAPT = {
    "map": ("Map", 1), "filter": ("Filter", 1), "filter_map": ("FilterMap", 1), "inspect": ("Inspect", 1), "map_while": ("MapWhile", 1),
    "by_ref": None,
}
LOCALC = ("core", "alloc", "std", "quote")


def adaptor(name):
    def d(f):
        M["std::iter::Iterator::" + name] = f
        return f
    return d


def ii(ip, st, v):
    return into_iter(ip, st, v)


for _n, _s in (("map", "Map"), ("filter", "Filter"), ("filter_map", "FilterMap"), ("inspect", "Inspect"), ("map_while", "MapWhile")):
    def _mk(_s):
        def f(ip, st, fr, c, args, dty, atys, sp):
            return ret(st, ita(_s, ii(ip, st, args[0]), args[1]))
        return f
    M["std::iter::Iterator::" + _n] = _mk(_s)


@adaptor("by_ref")
def m_by_ref(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, args[0])


@adaptor("enumerate")
def m_enumerate(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Enumerate", ii(ip, st, args[0]), ZERO))


@adaptor("zip")
def m_zip(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Zip", ii(ip, st, args[0]), ii(ip, st, args[1])))


M["std::iter::zip"] = m_zip


@adaptor("chain")
def m_chain(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Chain", Some(ii(ip, st, args[0])), ii(ip, st, args[1])))


@adaptor("take")
def m_itake(ip, st, fr, c, args, dty, atys, sp):
    i = ii(ip, st, args[0])
    if isA(i) and i[1] == IT + "Seq" and i[3][1:] == (K(0), ZERO, K(0)):
        q = i[3][0]
        n = parts_len(q[1])
        out = []
        for s, t in ip.fork(st, cle(n.sub(args[1]))):
            out.append((s, "ret", i if t else seqit(subq(ip, s, ("R", q), ZERO, args[1]))))
        return out
    return ret(st, ita("Take", i, args[1]))


@adaptor("skip")
def m_skip(ip, st, fr, c, args, dty, atys, sp):
    i = ii(ip, st, args[0])
    if isA(i) and i[1] == IT + "Seq" and i[3][1:] == (K(0), ZERO, K(0)):
        q = i[3][0]
        n = parts_len(q[1])
        out = []
        for s, t in ip.fork(st, cle(n.sub(args[1]))):
            out.append((s, "ret", seqit(EMPTYQ) if t else seqit(subq(ip, s, ("R", q), args[1], n))))
        return out
    return ret(st, ita("Skip", i, args[1]))


@adaptor("step_by")
def m_step(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("StepBy", ii(ip, st, args[0]), args[1], TRUE))


@adaptor("take_while")
def m_tw(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("TakeWhile", ii(ip, st, args[0]), args[1], FALSE))


@adaptor("skip_while")
def m_sw(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("SkipWhile", ii(ip, st, args[0]), args[1], FALSE))


@adaptor("scan")
def m_scan(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Scan", ii(ip, st, args[0]), args[1], args[2]))


@adaptor("peekable")
def m_peekable(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Peekable", ii(ip, st, args[0]), NONE))


@pmodel(r"^std::iter::Peekable::<I>::peek$")
def m_peek(ip, st, fr, c, args, dty, atys, sp):
    k = cell(ip, st, args[0])
    return run_rust(ip, st, "Peekable_peek", [("P", k[0], k[1])])


@adaptor("flat_map")
def m_flat_map(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("FlatMap", ii(ip, st, args[0]), args[1], NONE))


@adaptor("flatten")
def m_flatten(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Flatten", ii(ip, st, args[0]), NONE))


@adaptor("rev")
def m_rev(ip, st, fr, c, args, dty, atys, sp):
    i = ii(ip, st, args[0])
    if isA(i) and i[1] == IT + "Seq" and i[3][1:] == (K(0), ZERO, K(0)):
        q = kunits(i[3][0][1])
        if all(p[0] == "u" for p in q):
            return ret(st, seqit(("Q", tuple(reversed(q)))))
        if len(q) == 1 and q[0][0] in ("s", "*") and (q[0][0] == "s" or len(q[0][3]) == 1):
            n = part_len(q[0])
            b = ("rv", ip.fresh())
            e = ip.part_at(st, q[0], n.add(-1).sub(V(b)), None)
            return ret(st, seqit(Q(star(b, n, (("u", e),)))))
    return ret(st, ita("Rev", i))


for _n in ("cloned", "copied", "fuse", "into_iter"):
    def _id(ip, st, fr, c, args, dty, atys, sp):
        return ret(st, ii(ip, st, args[0]))
    M["std::iter::Iterator::" + _n] = _id


@model("std::iter::once")
def m_once(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Once", Some(args[0])))


@model("std::iter::empty")
def m_empty(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Once", NONE))


@model("std::iter::from_fn")
def m_from_fn(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("FromFn", args[0]))


@model("std::iter::successors")
def m_succ(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Successors", args[0], args[1]))


@model("std::iter::repeat")
def m_repeat(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("Repeat", args[0]))


@model("std::iter::repeat_n")
def m_repeat_n(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, ita("RepeatN", args[0], args[1]))


@pmodel(r"^std::ops::RangeInclusive::<Idx>::new$")
def m_ri(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, A("std::ops::RangeInclusive", 0, args[0], args[1]))


@pmodel(r"^std::ops::Range\w*::<Idx>::contains$")
def m_rc(ip, st, fr, c, args, dty, atys, sp):
    r = val(ip, st, args[0])
    x = val(ip, st, args[1])
    k = r[1].rsplit("::", 1)[1]
    f = [val(ip, st, y) for y in r[3]]
    if not isinstance(x, Lin):
        return NotImplemented
    b = TRUE
    if k in ("Range", "RangeFrom", "RangeInclusive"):
        b = ip.band(st, b, cle(f[0].sub(x)))
    if k == "Range":
        b = ip.band(st, b, cle(x.sub(f[1]).add(1)))
    if k == "RangeInclusive":
        b = ip.band(st, b, cle(x.sub(f[1])))
    if k == "RangeTo":
        b = ip.band(st, b, cle(x.sub(f[0]).add(1)))
    if k == "RangeToInclusive":
        b = ip.band(st, b, cle(x.sub(f[0])))
    return ret(st, b)


def terminal(*names, byref=False):
    for n in names:
        def mk(n):
            def f(ip, st, fr, c, args, dty, atys, sp):
                return run_rust(ip, st, n, [args[0] if isptr(args[0]) else ii(ip, st, args[0])] + list(args[1:]))
            return f
        M["std::iter::Iterator::" + n] = mk(n)


def isptr(v):
    return isinstance(v, tuple) and v and v[0] == "P"


terminal("fold", "for_each", "any", "all", "find", "find_map", "position", "count", "last", "nth", "max_by_key", "min_by_key", "try_for_each")


@model("std::iter::Iterator::sum")
def m_sum(ip, st, fr, c, args, dty, atys, sp):
    return run_rust(ip, st, "sum", [ii(ip, st, args[0])])


@model("std::iter::Iterator::try_fold")
def m_try_fold(ip, st, fr, c, args, dty, atys, sp):
    t = dty
    n = "try_fold_opt" if t is not None and t.k == "adt" and t.p == OPTION else "try_fold"
    return run_rust(ip, st, n, [args[0], args[1], args[2]])


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(ip, st, fr, c, args, dty, atys, sp):
    t = c.targs()
    target = dty if dty is not None else (t[1] if c.p.endswith("collect") else t[0])
    return collect(ip, st, c, args[0], target, t)


def item_ty(c, t):
    return None


def collect(ip, st, c, a, target, t):
    it = ii(ip, st, a)
    if target.k == "adt":
        if target.p == "std::vec::Vec" or target.p == "std::boxed::Box" or target.p == "std::collections::VecDeque":
            if isA(it) and it[1] == IT + "Seq" and it[3][1:] == (K(0), ZERO, K(0)):
                return ret(st, it[3][0])
            return run_rust(ip, st, "collect_vec", [it])
        if target.p == RESULT:
            if is_seq_ty(target.args()[0]) and not is_str(target.args()[0]):
                return run_rust(ip, st, "collect_result", [it])
        if target.p == OPTION:
            if is_seq_ty(target.args()[0]):
                return run_rust(ip, st, "collect_option", [it])
        if target.p == "std::string::String":
            if isA(it) and it[1] == IT + "Seq" and it[3][1:] == (K(0), ZERO, K(0)):
                q = unchars(ip, it[3][0])
                if q is not None:
                    return ret(st, q)
            s = str_item(c, t)
            if s is None:
                s = probe_item(ip, st, it)
            return run_rust(ip, st, "collect_concat_char" if s == "char" else "collect_concat_str", [it])
        if target.p == "proc_macro2::TokenStream":
            return run_rust(ip, st, "collect_concat_str", [it])
    return NotImplemented


def is_str(t):
    return t.k == "adt" and t.p == "std::string::String"


def str_item(c, t):
    """'char' or 'str' from the iterator's type, when evident"""
    s = t[0].s if t else ""
    if "Chars<" in s and "Map<" not in s:
        return "char"
    return None


def probe_item(ip, st, it):
    s = st.copy()
    h = ("h", ip.fresh())
    s.mem[h] = it
    for o in it_next(ip, s, ("P", h, ())) or []:
        if o[1] == "ret" and isA(o[2], OPTION, 1):
            v = val(ip, o[0], o[2][3][0])
            if isinstance(v, Lin):
                return "char"
            return "str"
    return "str"


def unchars(ip, q):
    """String from a sequence of chars, when whole pieces are recognisable"""
    out = []
    for p in q[1]:
        if p[0] == "u" and isinstance(p[1], Lin):
            out.append(char_part(ip, p[1]))
        elif p[0] == "s" and isinstance(p[1], tuple) and p[1][0] == "chars" and p[2] == ZERO and p[3] == ip.lenatom(p[1]):
            out.append(("s", p[1][1], p[1][2], p[1][3]))
        elif p[0] == "u" and isQ(strip(p[1])):
            out += list(strip(p[1])[1])
        else:
            return None
    return ("Q", norm_parts(out))


@model("std::iter::Extend::extend")
def m_extend(ip, st, fr, c, args, dty, atys, sp):
    t = c.targs()
    if t[0].k == "adt" and t[0].p == "proc_macro2::TokenStream":
        k = cell(ip, st, args[0])
        a = unref(atys[1]) if len(atys) > 1 and atys[1] is not None else None
        if any(x is not None and x.k == "adt" and x.p == "proc_macro2::TokenStream" for x in [a] + list(t[2:])):
            v = val(ip, st, args[1])
            if isQ(v):
                wr(ip, st, k, ("Q", norm_parts(ip.as_seq(rd(ip, st, k))[1] + v[1])))
                return ret(st, UNIT)
        return run_rust(ip, st, "extend_string_str", [("P", k[0], k[1]), ii(ip, st, args[1])])
    if not is_seq_ty(t[0]):
        return NotImplemented
    it = ii(ip, st, args[1])
    k = cell(ip, st, args[0])
    s = is_str(unref(t[0]))
    if isA(it) and it[1] == IT + "Seq" and it[3][1:] == (K(0), ZERO, K(0)):
        q = it[3][0] if not s else unchars(ip, it[3][0])
        if q is not None:
            wr(ip, st, k, ("Q", norm_parts(ip.as_seq(rd(ip, st, k))[1] + q[1])))
            return ret(st, UNIT)
    n = "extend_vec" if not s else ("extend_string" if probe_item(ip, st, it) == "char" else "extend_string_str")
    return run_rust(ip, st, n, [("P", k[0], k[1]), it])


@model("std::vec::Vec::<T, A>::retain")
def m_retain(ip, st, fr, c, args, dty, atys, sp):
    return run_rust(ip, st, "retain", args)


@model("std::vec::Vec::<T, A>::dedup", "std::vec::Vec::<T, A>::dedup_by", "std::vec::Vec::<T, A>::dedup_by_key")
def m_dedup(ip, st, fr, c, args, dty, atys, sp):
    return run_rust(ip, st, c.p.rsplit("::", 1)[1], args)


@model("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat", "std::slice::Join::join", "std::slice::Concat::concat")
def m_join(ip, st, fr, c, args, dty, atys, sp):
    if c.p.endswith("concat"):
        q = seq(ip, st, args[0])
        out = []
        for p in q[1]:
            if p[0] != "u":
                if p[0] == "*" and len(p[3]) == 1 and p[3][0][0] == "u":
                    out.append(("*", p[1], p[2], seq(ip, st, p[3][0][1])[1]))
                    continue
                return NotImplemented
            out += list(seq(ip, st, p[1])[1])
        return ret(st, ("Q", norm_parts(out)))
    q = seq(ip, st, args[0])
    sep = seq(ip, st, args[1])
    if all(p[0] == "u" for p in q[1]):
        out = []
        for i, p in enumerate(q[1]):
            if i:
                out += list(sep[1])
            out += list(seq(ip, st, p[1])[1])
        return ret(st, ("Q", norm_parts(out)))
    return ret(st, Sym(("join", ip.snap(st, q), ip.snap(st, sep)), dty))


@pmodel(r"^std::ops::Fn(Once|Mut)?::call(_once|_mut)?$")
def m_call(ip, st, fr, c, args, dty, atys, sp):
    f = args[0]
    tup = val(ip, st, args[1])
    if not isA(tup, "tuple"):
        if isinstance(tup, Sym):
            tup = ip.expand(tup)
        else:
            raise Unknown("call args %r" % (tup,))
    g = f
    while isinstance(g, tuple) and g and g[0] == "R":
        g = g[1]
    if isinstance(g, tuple) and g and g[0] == "P":
        x = ip.read(st, g[1], g[2])
        y = strip(x)
        if isinstance(y, tuple) and y and y[0] == "P":
            return m_call(ip, st, fr, c, [y, tup], dty, atys, sp)
        if isinstance(y, tuple) and y and y[0] == "F":
            return ip.call_fn(st, fr, y[1], list(tup[3]), dty, [None] * len(tup[3]), sp)
        if isinstance(y, tuple) and y and y[0] == "C":
            return ip.call_closure(st, y, list(tup[3]), g)
        if isinstance(y, Sym):
            if y.ty is not None and y.ty.k == "fndef":
                return ip.call_value(st, y, list(tup[3]), dty)
            return ip.opaque_call(st, ("callval", y.term), list(tup[3]), dty, None)
        raise Unknown("call through %r" % (y,))
    return ip.call_value(st, g, list(tup[3]), dty)


# ----------------------------------------------------------------- strings
@model("std::str::from_utf8", "core::str::converts::from_utf8", "std::string::String::from_utf8", "core::str::<impl str>::from_utf8")
def m_from_utf8(ip, st, fr, c, args, dty, atys, sp):
    q = ip.snap(st, seq(ip, st, args[0]))
    t = ("utf8", q)
    out = []
    if all(p[0] == "k" for p in q[1]):
        return ret(st, Ok(("R", q)))
    for s, ok in ip.fork(st, ("at", t)):
        if ok:
            out.append((s, "ret", Ok(("R", q) if not c.p.startswith("std::string") else q)))
        else:
            out.append((s, "ret", Err(Sym(("utf8err", q), err_ty(dty)))))
    return out


@model("std::str::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked", "std::string::String::from_utf8_unchecked")
def m_utf8_unchecked(ip, st, fr, c, args, dty, atys, sp):
    st.mem[("EV",)] = ("Q", norm_parts(st.mem.get(("EV",), EMPTYQ)[1] + (("u", ("ev", "from_utf8_unchecked", (), (), ())),)))
    return ret(st, ("R", seq(ip, st, args[0])))


@model("std::string::String::from_utf8_lossy")
def m_lossy(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, Sym(("lossy", ip.snap(st, seq(ip, st, args[0]))), dty))


def err_ty(dty):
    try:
        return dty.args()[1]
    except Exception:
        return None


@model("std::string::ToString::to_string")
def m_to_string(ip, st, fr, c, args, dty, atys, sp):
    v = val(ip, st, args[0])
    return ret(st, disp(ip, st, v, atys[0] if atys else None))


def disp(ip, st, v, ty=None):
    """Display rendering as a sequence"""
    v = val(ip, st, v)
    if isA(v, "quote::__private::IdentFragmentAdapter"):
        t = unref(ty) if ty is not None else None
        t = t.args()[0] if t is not None and t.args() else None
        while t is not None and t.k == "ref":
            t = t.sub()
        return disp(ip, st, v[3][0], t)
    if isA(v, "proc_macro2::Ident"):
        return v[3][0]
    if ty is not None:
        t = unref(ty)
        while t is not None and t.k == "ref":
            t = t.sub()
        if t is not None and t.k == "adt" and t.p == "proc_macro2::TokenStream" and isQ(v):
            tt = ("tostr", v)
            return Q(("s", tt, ZERO, ip.lenatom(tt)))
    if isQ(v):
        return v
    if isinstance(v, Sym) and is_seq_ty(unref(v.ty)):
        return ip.as_seq(v)
    if isinstance(v, Lin):
        t = unref(ty) if ty is not None else None
        if v.isc() and (t is None or t.k in ("int", "uint")):
            return Q(("k", str(v.c)))
        if t is not None and t.k == "char":
            return Q(char_part(ip, v))
        tt = ("dec", v)
        return Q(("s", tt, ZERO, ip.lenatom(tt)))
    if ip.isbool(v) and v[0] == "b":
        return Q(("k", "true" if v[1] else "false"))
    tt = ("disp", ip.snap(st, v))
    return Q(("s", tt, ZERO, ip.lenatom(tt)))


@pmodel(r"^core::fmt::rt::Argument::<'_>::new_(display|debug|lower_hex|upper_hex|octal|binary|lower_exp|upper_exp|pointer)$")
def m_fmtarg(ip, st, fr, c, args, dty, atys, sp):
    kind = c.rp.rsplit("_", 1)[1] if "hex" not in c.rp else c.rp.rsplit("::", 1)[1][4:]
    t = c.targs()
    v = args[0]
    ty = t[-1] if t else None
    return ret(st, A("fmt.arg", 0, ("k", kind), ("R", ip.snap(st, v)), ("ty", ty)))


@pmodel(r"^std::fmt::Arguments::<'a>::from_str$", r"^std::fmt::Arguments::<'a>::from_str_nonconst$")
def m_fmt_str(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, A("fmt.args", 0, seq(ip, st, args[0])))


def fmt_parts(ip, st, tmpl, args):
    parts = []
    i, n = 0, 0
    b = tmpl
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(("k", bytes(b[i:i + x]).decode()))
            i += x
            continue
        if x == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            parts.append(("k", bytes(b[i:i + ln]).decode()))
            i += ln
            continue
        spec = []
        if x & 1:
            spec.append(("flags", tuple(b[i:i + 4])))
            i += 4
        if x & 2:
            spec.append(("width", tuple(b[i:i + 2])))
            i += 2
        if x & 4:
            spec.append(("prec", tuple(b[i:i + 2])))
            i += 2
        if x & 8:
            n = b[i] | b[i + 1] << 8
            i += 2
        a = args[n]
        n += 1
        kind, v, ty = a[3][0][1], a[3][1], a[3][2][1]
        if kind == "display" and not spec:
            parts += list(disp(ip, st, v, ty)[1])
        else:
            t = ("fmt", kind, tuple(spec), ip.snap(st, v))
            parts.append(("s", t, ZERO, ip.lenatom(t)))
    return Q(*parts)


@pmodel(r"^std::fmt::Arguments::<'a>::new$", r"^std::fmt::Arguments::<'a>::new_v1$")
def m_fmt_new(ip, st, fr, c, args, dty, atys, sp):
    t = seq(ip, st, args[0])
    a = seq(ip, st, args[1])
    bs = []
    for p in t[1]:
        if p[0] == "u" and isinstance(p[1], Lin) and p[1].isc():
            bs.append(p[1].c)
        elif p[0] == "k":
            bs += list(p[1].encode())
        elif p[0] == "rep" and p[2].isc():
            bs += [p[1].c] * p[2].c
        else:
            raise Unknown("format template %r" % (p,))
    av = [val(ip, st, p[1]) for p in a[1]]
    return ret(st, A("fmt.args", 0, fmt_parts(ip, st, bs, av)))


@model("std::fmt::format", "alloc::fmt::format")
def m_format(ip, st, fr, c, args, dty, atys, sp):
    v = val(ip, st, args[0])
    if isA(v) and v[1] == "fmt.args":
        return ret(st, v[3][0])
    return NotImplemented


@pmodel(r"^std::fmt::Arguments::<'a>::as_str$")
def m_fmt_as_str(ip, st, fr, c, args, dty, atys, sp):
    v = val(ip, st, args[0])
    if isA(v) and all(p[0] == "k" for p in v[3][0][1]):
        return ret(st, Some(("R", v[3][0])))
    return ret(st, NONE)


@model("std::fmt::Write::write_fmt", "std::fmt::Write::write_str", "std::fmt::Write::write_char")
def m_write_fmt(ip, st, fr, c, args, dty, atys, sp):
    t = c.targs()
    if not (t and is_str(unref(t[0]))):
        return NotImplemented
    k = cell(ip, st, args[0])
    v = val(ip, st, args[1])
    if isA(v) and v[1] == "fmt.args":
        ps = v[3][0][1]
    elif isinstance(v, Lin):
        ps = (char_part(ip, v),)
    else:
        ps = ip.as_seq(v)[1]
    wr(ip, st, k, ("Q", norm_parts(ip.as_seq(rd(ip, st, k))[1] + ps)))
    return ret(st, Ok(UNIT))


@model("std::ops::Add::add", "std::ops::AddAssign::add_assign")
def m_stradd(ip, st, fr, c, args, dty, atys, sp):
    t = c.targs()
    if t and is_str(unref(t[0])):
        if c.p.endswith("add_assign"):
            k = cell(ip, st, args[0])
            wr(ip, st, k, ("Q", norm_parts(ip.as_seq(rd(ip, st, k))[1] + seq(ip, st, args[1])[1])))
            return ret(st, UNIT)
        return ret(st, ("Q", norm_parts(seq(ip, st, args[0])[1] + seq(ip, st, args[1])[1])))
    if t and t[0].isint() and not c.p.endswith("add_assign"):
        a, b = val(ip, st, args[0]), val(ip, st, args[1])
        return ret(st, a.add(b))
    return NotImplemented


@model("std::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_ascii_uppercase", "std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_uppercase",
       "core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end", "std::str::<impl str>::repeat")
def m_case(ip, st, fr, c, args, dty, atys, sp):
    q = ip.snap(st, seq(ip, st, args[0]))
    n = c.p.rsplit("::", 1)[1]
    if all(p[0] == "k" for p in q[1]):
        s = "".join(p[1] for p in q[1])
        f = {"to_ascii_lowercase": str.lower, "to_lowercase": str.lower, "to_ascii_uppercase": str.upper, "to_uppercase": str.upper,
             "trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip}.get(n)
        if f is not None and s.isascii():
            return ret(st, Q(("k", f(s))))
    if n == "repeat":
        return NotImplemented
    t = (n.replace("_ascii", ""), q)
    return ret(st, Q(("s", t, ZERO, ip.lenatom(t))))


@model("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::contains",
       "core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with", "core::str::<impl str>::eq_ignore_ascii_case")
def m_starts(ip, st, fr, c, args, dty, atys, sp):
    q = ip.snap(st, seq(ip, st, args[0]))
    n = c.p.rsplit("::", 1)[1]
    p = ip.snap(st, args[1])
    if isinstance(strip(p), Lin) and strip(p).isc() and "str" in c.p:
        p = Q(("k", chr(strip(p).c)))
    if isQ(q) and isconst(q) and isQ(p) and isconst(p):
        a, b = "".join(x[1] for x in q[1]), "".join(x[1] for x in p[1])
        r = {"starts_with": a.startswith(b), "ends_with": a.endswith(b), "contains": b in a, "eq_ignore_ascii_case": a.lower() == b.lower()}[n]
        return ret(st, boolv(r))
    if isQ(p) and isconst(p) and isQ(q) and q[1]:
        b = "".join(x[1] for x in p[1])
        if n == "starts_with" and q[1][0][0] == "k":
            a = q[1][0][1]
            if len(a) >= len(b) or not a.startswith(b[:len(a)]):
                return ret(st, boolv(a.startswith(b)))
        if n == "ends_with" and q[1][-1][0] == "k":
            a = q[1][-1][1]
            if len(a) >= len(b):
                return ret(st, boolv(a.endswith(b)))
        if n == "contains" and any(x[0] == "k" and b in x[1] for x in q[1]):
            return ret(st, TRUE)
    return ret(st, ("at", (n, q, p)))


@model("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix", "core::str::<impl str>::trim_start_matches",
       "core::str::<impl str>::trim_end_matches", "core::str::<impl str>::split", "core::str::<impl str>::split_inclusive",
       "core::str::<impl str>::match_indices", "core::str::<impl str>::matches", "core::str::<impl str>::find", "core::str::<impl str>::rfind",
       "core::str::<impl str>::split_once", "core::str::<impl str>::lines", "core::str::<impl str>::split_whitespace", "std::str::<impl str>::replace",
       "core::str::<impl str>::splitn", "core::str::<impl str>::rsplit", "core::str::<impl str>::trim_matches", "core::str::<impl str>::char_count")
def m_strfn(ip, st, fr, c, args, dty, atys, sp):
    n = c.p.rsplit("::", 1)[1]
    q = ip.snap(st, seq(ip, st, args[0]))
    rest = tuple(ip.snap(st, a) for a in args[1:])
    rest = tuple(patkey(ip, st, a, r) for a, r in zip(args[1:], rest))
    t = ("str." + n, q) + rest
    if n in ("strip_prefix", "strip_suffix") and isconst(q) and rest and isinstance(rest[0], tuple) and rest[0] and rest[0][0] == "Q" and isconst(rest[0]):
        a, b = "".join(x[1] for x in q[1]), "".join(x[1] for x in rest[0][1])
        if n == "strip_prefix":
            return ret(st, Some(("R", Q(("k", a[len(b):])))) if a.startswith(b) else NONE)
        return ret(st, Some(("R", Q(("k", a[:len(a) - len(b)])))) if a.endswith(b) else NONE)
    if n in ("split", "split_inclusive", "match_indices", "matches", "lines", "split_whitespace", "splitn", "rsplit"):
        ln = ip.lenatom(t)
        return ret(st, seqit(Q(("s", t, ZERO, ln))))
    return ret(st, ip.mk(t, dty))


def patkey(ip, st, a, snapped):
    """canonical form of a string pattern argument"""
    v = strip(snapped)
    if isinstance(v, tuple) and v and v[0] in ("C", "F"):
        # a character predicate: its condition on a symbolic character
        ch = V(("patch",))
        ip.bounds.setdefault(("patch",), (0, 0x10FFFF))
        try:
            outs = ip.call_value(st.copy(), v, [ch])
            conds = []
            for s, k, r in outs:
                if k != "ret":
                    return ("panic",)
                conds.append((tuple(s.dec[len(st.dec):]), r))
            return ("pred", tuple(sorted(conds, key=repr)))
        except Unknown:
            return v
    return v


@model("std::str::FromStr::from_str", "core::str::<impl str>::parse")
def m_parse(ip, st, fr, c, args, dty, atys, sp):
    if c.b >= 0 and c.D.bodies[c.b]["crate"] not in ("core", "alloc", "std"):
        return NotImplemented
    q = ip.snap(st, seq(ip, st, args[0]))
    t = c.targs()
    ty = t[-1] if c.p.endswith("parse") else t[0]
    if ty.isint():
        return ret(st, Sym(("parseint", ty.s, q, K(10)), dty))
    return ret(st, ip.mk(("parse", ty.s, q), dty))


# ----------------------------------------------------------------- panics
@pmodel(r"^(core|std)::panicking::", r"^std::rt::panic", r"^core::(option|result)::(expect|unwrap)_failed", r"^std::(option|result)::(expect|unwrap)_failed",
        r"^core::slice::index::slice_\w+fail", r"^(std|alloc)::(process|alloc)::(abort|handle_alloc_error)", r"^std::rt::begin_panic")
def m_panic(ip, st, fr, c, args, dty, atys, sp):
    return [(st, "panic", "panic (%s) at %s" % (c.rp.rsplit("::", 1)[1], loc(sp)))]


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect", "std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect",
       "std::result::Result::<T, E>::unwrap_err", "std::option::Option::<T>::unwrap_unchecked")
def m_unwrap(ip, st, fr, c, args, dty, atys, sp):
    v = args[0]
    good = 1 if "Option" in c.p else (1 if c.p.endswith("_err") else 0)
    what = c.p.rsplit("::", 1)[1] + "()"
    ip.obligations += 1
    v2 = val(ip, st, v)
    if isA(v2):
        if v2[2] == good:
            ip.discharged += 1
            return ret(st, v2[3][0])
        return [(st, "panic", "%s of a %s at %s" % (what, "None" if "Option" in c.p else "Err", loc(sp)))]
    d = ip.discriminant(st, v2, c.targs()[0] if False else (v2.ty if isinstance(v2, Sym) else None))
    out = []
    fs = ip.fork(st, ceq(d.add(-good)))
    if all(t for _, t in fs):
        ip.discharged += 1
    for s, t in fs:
        if t:
            out.append((s, "ret", ip.project(v2, ("f", good, 0), dty)))
        else:
            out.append((s, "panic", "%s may fail at %s" % (what, loc(sp))))
    return out


# ---------------------------------------------------------------- serde
# The deserializers serde builds from a single value (`index.into_deserializer()`)
# hand it to the visitor whatever is asked for; serde's seeds and primitive
# implementations ask for exactly their own type.
VALUE_DE = re.compile(r"^serde(_core)?::de::value::(U8|U16|U32|U64|Usize|I8|I16|I32|I64|Isize)Deserializer$")
PRIMS = ("bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char")


def trait_call(ip, st, recv, trait, meth, args, dty):
    """call trait::meth on recv (and args): its implementation when known"""
    v = val(ip, st, recv)
    p = v[1] if isA(v) and v[1] != "tuple" else None
    if p is None and isinstance(v, Sym) and v.ty is not None and unref(v.ty).k == "adt":
        p = unref(v.ty).p
    b = ip.pick([x for x in ip.impls().get((p, meth), ()) if x[0].rsplit("::", 1)[1] == trait.rsplit("::", 1)[1]], v)
    if b is not None:
        return ip.exec_fn(st, b, [recv] + list(args))
    if p is not None and (p, trait) in ip.impl_types:
        return None
    return ip.opaque_call(st, trait + "::" + meth, [recv] + list(args), dty, None)


@pmodel(r"^serde(_core)?::Deserializer::deserialize_")
def m_value_deserializer(ip, st, fr, c, args, dty, atys, sp):
    d = val(ip, st, args[0])
    if not isA(d):
        return NotImplemented
    m = VALUE_DE.match(d[1])
    if not m or c.p.endswith("_enum"):
        return NotImplemented
    kind = m.group(2).lower()
    if c.p.endswith("_option") or c.p.endswith("newtype_struct"):
        return NotImplemented
    x, vis = d[3][0], args[-1]
    order = {"usize": ["visit_u64"], "isize": ["visit_i64"]}.get(kind) or ["visit_" + kind, "visit_%s64" % kind[0]]
    for meth in order:
        r = trait_call(ip, st, vis, "serde::de::Visitor", meth, [x], dty)
        if r is not None:
            return r
    return ret(st, Err(Sym(("invalid_type", ip.snap(st, vis)), None)))


def tparam(fr, t):
    """a type, seen through the type arguments of this call"""
    n = 0
    while t is not None and t.k == "param" and fr is not None and t.s in fr.sub and n < 5:
        t = fr.sub[t.s]
        n += 1
    return t


@pmodel(r"^serde(_core)?::Serialize::serialize$")
def m_serialize(ip, st, fr, c, args, dty, atys, sp):
    """serialize of a primitive calls serialize_<its type>"""
    t = tparam(fr, unref(atys[0])) if atys and atys[0] is not None else None
    n = 0
    while t is not None and t.k == "ref" and n < 4:
        t = tparam(fr, t.sub())
        n += 1
    if t is None or t.s not in PRIMS:
        return NotImplemented
    r = trait_call(ip, st, args[1], "serde::Serializer", "serialize_" + t.s, [val(ip, st, args[0])], dty)
    return NotImplemented if r is None else r


def wbody(ip, path):
    for D in ip.dumps.values():
        for r in D.roots:
            if r["path"] == path:
                return D.bodies[r["b"]]
    return None


@pmodel(r"^serde(_core)?::de::DeserializeSeed::deserialize$", r"^serde(_core)?::Deserialize::deserialize$")
def m_seed(ip, st, fr, c, args, dty, atys, sp):
    if c.p.endswith("Seed::deserialize"):
        s = val(ip, st, args[0])
        if not isA(s, "std::marker::PhantomData"):
            return NotImplemented
        t = s[3][0].term[1] if s[3] and isinstance(s[3][0], Sym) and s[3][0].term[0] == "T" else None
        de = args[1]
    else:
        t = tparam(fr, c.targs()[0]) if c.targs() else None
        t, de = (t.s if t is not None else None), args[0]
    if t is None:
        return NotImplemented
    if t in PRIMS:
        return trait_call(ip, st, de, "serde::Deserializer", "deserialize_" + t, [("A", "codec::Prim_" + t, 0, ())], dty) or NotImplemented
    base = re.sub(r"<'\w+(, '\w+)*>$", "", t)
    for tr, b, _ in ip.impls().get((base, "deserialize"), ()):
        if tr.endswith("::Deserialize"):
            return ip.exec_fn(st, b, [de])
    return NotImplemented


def install(ip, witness=None):
    ip.models = dict(M)
    ip.pmodels = list(PM)
    ip.ety = {}
    if witness is not None:
        for r in witness.roots:
            if r["path"].startswith("models::"):
                ip.rust_models[r["path"][len("models::"):]] = witness.bodies[r["b"]]
        ip.dumps[witness.name] = witness
    return ip
