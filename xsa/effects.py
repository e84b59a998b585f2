"""Call-graph effect analysis: what the functions reachable from given roots can do."""
import os, re
from . import frontend
from .engine import Dump, Callee

EFFECTS = [
    (r"^std::(io|fs|net|os|process|thread|time|env)::", "touches the operating system"),
    (r"^(std|core|alloc)::sync::(Mutex|RwLock|OnceLock|LazyLock|Condvar|mpsc|poison|Once)", "shared state"),
    (r"^(std|core)::sync::atomic::", "shared state"),
    (r"^(std|core)::cell::", "interior mutability"),
    (r"collections::(hash_map::|hash_set::)?Hash(Map|Set)\b.*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|difference|intersection|symmetric_difference)$",
     "hash order differs between runs"),
    (r"Hash(Map|Set)<.* as std::iter::IntoIterator>", "hash order differs between runs"),
    (r"RandomState", "hash order differs between runs"),
    (r"^std::hash::random", "hash order differs between runs"),
    (r"^(core|std)::(ptr|intrinsics)::.*(read|write|copy|offset|volatile|transmute)", "raw memory"),
    (r"transmute", "raw memory"),
    (r"_unchecked(_mut)?$", "unchecked operation"),
    (r"std::thread_local|LocalKey", "thread-local state"),
    (r"std::panic::", "depends on panics"),
]
EFFECTS = [(re.compile(p), w) for p, w in EFFECTS]
HASH = re.compile(r"collections::(hash_map::|hash_set::)?Hash(Map|Set)\b")
HASHIT = re.compile(r"collections::(hash_map|hash_set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain)\b")
TAKES = ("into_iter", "extend", "from_iter", "zip", "chain", "eq", "quote_into_iter")


def operands(x):
    """every dict (constant) and callee mentioned in a JSON body fragment"""
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


class Reach:
    """bodies reachable from roots; calls that leave the crate are classified by name"""

    def __init__(self, D, roots):
        self.D = D
        self.bodies = {}
        self.external = {}      # callee path -> (caller path, span)
        self.statics = {}
        self.closures = 0
        todo = [D.bodies[r] for r in roots]
        traits = {}
        for r in D.roots:
            if r.get("tr"):
                traits.setdefault((r["tr"], r["name"]), []).append(D.bodies[r["b"]])
        clos = {}
        for b in D.bodies.values():
            clos.setdefault(b["path"], b)
        while todo:
            b = todo.pop()
            if b["id"] in self.bodies:
                continue
            self.bodies[b["id"]] = b
            for d in operands(b["blocks"]):
                if "static" in d and d.get("smut"):
                    self.statics.setdefault(d["static"], (b["path"], b.get("span")))
                if "p" in d and "args" in d:
                    c = Callee(d, D)
                    i = c.b if c.b >= 0 else d.get("db", -1)
                    if i >= 0 and D.bodies[i]["crate"] == D.crate:
                        todo.append(D.bodies[i])
                    else:
                        self.external.setdefault(c.rp, (b["path"], b.get("span")))
                        name = c.p.rsplit("::", 1)[1]
                        for t in c.targs():
                            if HASHIT.search(t.s) or name in TAKES and HASH.search(t.s):
                                self.external.setdefault("%s over a HashMap<K, V> as std::iter::IntoIterator>" % c.rp, (b["path"], b.get("span")))
                        # trait calls on type parameters: every local implementation
                        if c.tr:
                            for t in traits.get((c.tr, c.p.rsplit("::", 1)[1]), ()):
                                todo.append(t)
            for s in b["blocks"]:
                for st in s["s"]:
                    for d in operands(st):
                        pass
            # closures are bodies named by their type
            for i in b["locals"]:
                ty = D.ty(i)
                if ty.k == "closure" and ty.raw.get("body", -1) >= 0:
                    todo.append(D.bodies[ty.raw["body"]])

    def violations(self):
        out = []
        for p, (who, span) in sorted(self.external.items()):
            for rx, what in EFFECTS:
                if rx.search(p):
                    out.append((who, "calls %s (%s)" % (p, what), span))
                    break
        for p, (who, span) in sorted(self.statics.items()):
            out.append((who, "uses the mutable static %s" % p, span))
        return out


def unsafe_uses(prefix):
    """unsafe blocks, functions and impls the compiler's unsafe_code lint reports under `prefix`"""
    p = os.path.join(frontend.dump(), "diag.txt")
    out = []
    lines = open(p).read().splitlines()
    for i, l in enumerate(lines):
        if re.search(r"^warning: .*`?unsafe`?", l):
            for m in lines[i + 1:i + 4]:
                g = re.search(r"-->\s+(\S+?):(\d+)", m)
                if g and g.group(1).startswith(prefix):
                    out.append((g.group(1), l[len("warning: "):]))
    return out
