"""The command line tool: flags, errors and output, for all arguments and files."""
import itertools, re
from .engine import *
from . import frontend, models
from .models import ret, val, seq, cell, rd, wr
from .judge import Report

PID = ("G17",)
FLAGS = ("use-std-trait", "use-extra-trait", "use-indexer", "use-union")
ARG, CMD, MATCH = "clap::Arg", "clap::Command", "clap::ArgMatches"
OUT = ("stdout",)


def want_config(f):
    std, extra, idx, uni = (f[x] for x in FLAGS)
    return {"remove_typedef": True, "enum_impl_std_trait": std, "enum_impl_indexer": not std and idx,
            "union_impl_union": uni, "union_impl_indexer": not uni and (extra or idx)}


M = {}
PM = []


def model(*n):
    def d(f):
        for x in n:
            M[x] = f
        return f
    return d


def pmodel(p):
    def d(f):
        PM.append((re.compile(p), f))
        return f
    return d


def text(ip, st, v):
    q = ip.snap(st, seq(ip, st, v))
    if all(p[0] == "k" for p in q[1]):
        return "".join(p[1] for p in q[1])
    raise Unknown("not a constant text: %r" % (q,))


@model("clap::Arg::new")
def arg_new(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, A(ARG, 0, ("k", text(ip, st, args[0])), ("opts", ())))


@pmodel(r"^clap::Arg::(\w+)$|^clap::(builder::)?Arg::(\w+)$")
def arg_opt(ip, st, fr, c, args, dty, atys, sp):
    n = c.p.rsplit("::", 1)[1]
    a = strip(args[0])
    x = None
    if n == "long":
        x = text(ip, st, args[1])
    elif n in ("required", "num_args", "action", "short", "default_value", "index"):
        x = ip.snap(st, val(ip, st, args[1])) if len(args) > 1 else None
    elif n not in ("help", "value_name", "long_help", "id", "hide", "display_order"):
        raise Unknown("clap::Arg::%s" % n)
    return ret(st, A(ARG, 0, a[3][0], ("opts", a[3][1][1] + ((n, x),))))


@pmodel(r"^clap::(builder::)?Command::(\w+)$")
def cmd(ip, st, fr, c, args, dty, atys, sp):
    n = c.p.rsplit("::", 1)[1]
    if n == "new":
        return ret(st, A(CMD, 0, ("args", ())))
    a = strip(args[0])
    if n == "arg":
        x = strip(val(ip, st, args[1]))
        if not isA(x, ARG):
            raise Unknown("argument %r" % (x,))
        return ret(st, A(CMD, 0, ("args", a[3][0][1] + (x,))))
    if n == "args":
        q = ip.as_seq(val(ip, st, args[1]))
        xs = tuple(strip(p[1]) for p in q[1])
        if not all(p[0] == "u" for p in q[1]) or not all(isA(x, ARG) for x in xs):
            raise Unknown("arguments")
        return ret(st, A(CMD, 0, ("args", a[3][0][1] + xs)))
    if n in ("get_matches",):
        return ret(st, A(MATCH, 0, a[3][0]))
    if n in ("version", "about", "author", "long_about", "name", "bin_name"):
        return ret(st, a)
    raise Unknown("clap::Command::%s" % n)


def find_arg(ip, st, m, name):
    m = val(ip, st, m)
    if not isA(m, MATCH):
        raise Unknown("matches %r" % (m,))
    for a in m[3][0][1]:
        if a[3][0][1] == name:
            return dict(a[3][1][1])
    return None


def is_switch(o):
    n = o.get("num_args")
    if isinstance(n, Lin) and n.isc() and n.c == 0:
        return True
    a = o.get("action")
    return "action" in o and "SetTrue" in repr(a) or isA(a) and a[1].endswith("ArgAction") and a[2] == 2


@pmodel(r"^clap::(parser::)?ArgMatches::(get_one|get_flag|contains_id)$")
def get(ip, st, fr, c, args, dty, atys, sp):
    n = c.p.rsplit("::", 1)[1]
    name = text(ip, st, args[1])
    o = find_arg(ip, st, args[0], name)
    if o is None:
        return [(st, "panic", "asks for the argument %s, which is not defined" % name)]
    if n == "get_flag":
        if not is_switch(o) or "long" not in o:
            return [(st, "panic", "the argument %s is not a switch" % name)]
        return ret(st, ("at", ("flag", o["long"])))
    if n == "get_one":
        if "long" in o or "short" in o:
            raise Unknown("an option with a value")
        v = Sym(("argument", name), c.targs()[0] if c.targs() else None)
        r = o.get("required")
        if r == TRUE:
            return ret(st, Some(("R", v)))
        out = []
        for s, t in ip.fork(st, ("at", ("given", name))):
            out.append((s, "ret", Some(("R", v)) if t else NONE))
        return out
    raise Unknown("clap::ArgMatches::%s" % n)


@model("std::fs::read_to_string")
def read(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, Sym(("file", ip.snap(st, val(ip, st, args[0]))), dty))


@pmodel(r"(^|::)parser::parse$")
def parse(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, Sym(("parsed", ip.snap(st, seq(ip, st, args[0]))), dty))


@pmodel(r"(^|::)gen_code::gen_code$")
def gen(ip, st, fr, c, args, dty, atys, sp):
    cf = ip.snap(st, val(ip, st, args[1]))
    ip.generated.append((st.copy(), cf))
    return ret(st, Sym(("generated", ip.snap(st, val(ip, st, args[0])), cf), dty))


@model("std::io::_print")
def out(ip, st, fr, c, args, dty, atys, sp):
    v = val(ip, st, args[0])
    if not (isA(v) and v[1] == "fmt.args"):
        raise Unknown("prints %r" % (v,))
    old = st.mem.get(OUT, EMPTYQ)
    st.mem[OUT] = ("Q", norm_parts(old[1] + ip.snap(st, v[3][0])[1]))
    return ret(st, UNIT)


@pmodel(r"^std::io::(stdout|stderr)$|^std::io::(stdio::)?(Stdout|Stderr)::lock$|^std::io::(BufWriter|LineWriter)::<W>::new$")
def stdout(ip, st, fr, c, args, dty, atys, sp):
    n = c.p.rsplit("::", 1)[1]
    return ret(st, A("std::io::Out", 1 if n == "stderr" else 0)) if n in ("stdout", "stderr") else ret(st, strip(val(ip, st, args[0])))


@pmodel(r"^std::io::Write::(write_fmt|write_all|flush)$")
def write(ip, st, fr, c, args, dty, atys, sp):
    w = strip(val(ip, st, args[0]))
    n = c.p.rsplit("::", 1)[1]
    if not isA(w, "std::io::Out"):
        raise Unknown("writes to %r" % (w,))
    if n != "flush":
        v = val(ip, st, args[1])
        q = ip.snap(st, v[3][0] if isA(v) and v[1] == "fmt.args" else ip.as_seq(v))
        if w[2] == 0:
            st.mem[OUT] = ("Q", norm_parts(st.mem.get(OUT, EMPTYQ)[1] + q[1]))
    return ret(st, Sym(("written", ip.fresh()), dty))


@model("std::io::_eprint")
def err(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, UNIT)


@pmodel(r"^std::process::(exit|abort)$")
def exit_(ip, st, fr, c, args, dty, atys, sp):
    a = val(ip, st, args[0]) if args else K(1)
    return [(st, "panic", ("exit", a))]


@model("std::convert::AsRef::as_ref")
def as_ref(ip, st, fr, c, args, dty, atys, sp):
    return ret(st, args[0])


def truth(c, f):
    """value of a condition over the flags, or None"""
    if c[0] == "b":
        return bool(c[1])
    if c[0] == "at":
        return f[c[1][1]] if c[1][0] == "flag" and c[1][1] in f else None
    if c[0] == "not":
        x = truth(c[1], f)
        return None if x is None else not x
    if c[0] in ("and", "or"):
        xs = [truth(x, f) for x in c[1:]]
        if None in xs:
            return None
        return all(xs) if c[0] == "and" else any(xs)
    return None


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, Sym):
        return mentions(v.term, t)
    if isinstance(v, Lin):
        return any(mentions(a, t) for a in v.t)
    return isinstance(v, tuple) and any(mentions(x, t) for x in v)


class Cli:
    def __init__(self):
        self.R = Report()

    def run(self, only=None):
        R = self.R
        D = Dump(frontend.load("rpcgen.bin"), "rpcgen.bin")
        W = Dump(frontend.load("xwitness.lib"), "xwitness.lib")
        ip = Interp([D, W])
        models.install(ip, W)
        ip.models.update(M)
        ip.pmodels[:0] = PM
        ip.generated = []
        R.did(PID)
        mains = [D.bodies[r["b"]] for r in D.roots if r["path"] == "main"]
        if len(mains) != 1:
            R.add(PID, "main", "there is no main function")
            return R
        try:
            outs = ip.exec_fn(St(), mains[0], [])
            R.saw(PID, ip)
            for s, k, v in outs:
                R.paths += 1
                n = len(R.findings)
                self.path(ip, s, k, v)
                if len(R.findings) > n and ip.strange_in(s, v):
                    del R.findings[n:]
                    R.undecided(PID, "main", "depends on the library function %s" % ", ".join(ip.strange_in(s, v)))
            for s, cf in ip.generated:
                self.config(D, s, cf)
            if not ip.generated:
                R.add(PID, "main", "never generates code")
        except Unknown as e:
            R.undecided(PID, "main", str(e)[:400])
        return R

    def path(self, ip, s, k, v):
        R = self.R
        R.did(PID)
        printed = ip.snap(s, s.mem.get(OUT, EMPTYQ))
        res = {}
        for t, var in s.known.items():
            if isinstance(t, tuple) and t[0] in ("file", "parsed", "generated", "written"):
                if t[0] != "written" or var == 1:
                    res[t[0]] = (t, var)
        if k != "ret":
            if isinstance(v, tuple) and v and v[0] == "exit":
                code = v[1]
                failed = isinstance(code, Lin) and code.isc() and code.c != 0
            else:
                R.add(PID, "main", "may panic: %s" % (v,))
                return
        else:
            v = strip(v)
            if not isA(v, RESULT):
                raise Unknown("main returns %r" % (v,))
            failed = v[2] == 1
        for w in ("file", "parsed", "generated"):
            if w in res and res[w][1] == 1:
                what = {"file": "reading the file", "parsed": "parsing", "generated": "generating"}[w]
                if not failed:
                    R.add(PID, "main", "succeeds although %s fails" % what)
                elif k == "ret" and not mentions(ip.snap(s, v), res[w][0]):
                    R.add(PID, "main", "does not report the error of %s" % what)
                if printed[1]:
                    R.add(PID, "main", "prints code although %s fails" % what)
                return
        if "written" in res:
            if not failed:
                R.add(PID, "main", "succeeds although writing fails")
            return
        if failed:
            R.add(PID, "main", "fails although nothing failed")
            return
        if len(res) < 3:
            R.add(PID, "main", "succeeds without %s" % ", ".join(w for w in ("file", "parsed", "generated") if w not in res))
            return
        f = res["file"][0]
        if not mentions(f, ("argument", "path")) and not (f[0] == "file" and "argument" in repr(f)):
            R.add(PID, "main", "reads another file than the one named: %r" % (f,))
        if not mentions(res["parsed"][0], f):
            R.add(PID, "main", "parses something else than the file: %r" % (res["parsed"][0],))
        if not mentions(res["generated"][0][1], res["parsed"][0]):
            R.add(PID, "main", "generates code for something else than what was parsed")
        g = ("f", res["generated"][0], 0, 0)
        ps = printed[1]
        if not (len(ps) in (1, 2) and ps[0][0] == "s" and ps[0][1] == g and ps[0][2] == ZERO and ps[0][3] == V(("len", g)) and ps[1:] in ((), (("k", "\n"),))):
            R.add(PID, "main", "prints %s instead of the generated code" % repr(ps)[:200])
        p = res["parsed"][0][1]
        t = ("f", f, 0, 0)
        if p != Q(("s", t, ZERO, V(("len", t)))):
            R.add(PID, "main", "parses an altered text: %s" % repr(p)[:200])
        x = strip(res["generated"][0][1])
        d = ("f", res["parsed"][0], 0, 0)
        if not (isinstance(x, Sym) and x.term == d or isQ(x) and x == Q(("s", d, ZERO, V(("len", d))))):
            R.add(PID, "main", "alters the definitions before generating code: %s" % repr(x)[:200])

    def config(self, D, s, cf):
        R = self.R
        cf = strip(cf)
        if not isA(cf):
            raise Unknown("configuration %r" % (cf,))
        t = next(D.ty(i) for i in range(len(D.j["types"])) if D.ty(i).k == "adt" and D.ty(i).p == cf[1])
        names = [x[0] for x in t.raw["v"][0]["f"]]
        for vals in itertools.product((False, True), repeat=4):
            f = dict(zip(FLAGS, vals))
            if any(d[0] == "at" and isinstance(d[1], tuple) and d[1][0] == "flag" and f.get(d[1][1]) is not None and f[d[1][1]] != d[2] for d in s.dec):
                continue
            R.did(PID)
            want = want_config(f)
            for n, v in zip(names, cf[3]):
                if n not in want:
                    raise Unknown("configuration field %s" % n)
                got = truth(v, f)
                if got is None:
                    R.add(PID, "main", "%s depends on %s" % (n, repr(v)[:100]))
                elif got != want[n]:
                    R.add(PID, "main", "with %s the generator is given %s = %s" % (
                        " ".join("--" + x for x in FLAGS if f[x]) or "no flag", n, str(got).lower()))


class Pure:
    """parser and generator depend on nothing but their arguments"""

    def run(self, only=None):
        from . import effects
        R = Report()
        p = ("G16",)
        D = Dump(frontend.load("rpcgen.lib"), "rpcgen.lib")
        re_ = effects.Reach(D, [r["b"] for r in D.roots])
        R.did(p, len(re_.bodies) + len(re_.external))
        R.fn(p, *[b["path"] for b in re_.bodies.values()])
        R.sample(p, "%d functions of the rpcgen library and %d library functions they call" % (len(re_.bodies), len(re_.external)))
        for who, what, span in re_.violations():
            R.add(p, who, what, span)
        for f, what in effects.unsafe_uses("rpcgen/"):
            R.add(p, f, what)
        for r in D.roots:
            if r.get("unsafe"):
                R.add(p, r["path"], "is an unsafe function")
        return R
