"""Equality of values and byte strings under the facts of a path.

`same` answers True (proved equal) or False (not proved); it may raise NeedFork
when a case distinction would decide, which the judges resolve by splitting."""
from .engine import *
from .lin import *


def _zero(ip, st, l):
    if l == ZERO:
        return True
    return ip.prove_le(st, l) and True


def peel(ip, st, p):
    """first element(s) of a star that certainly has one: (parts, rest)"""
    _, var, n, body = p
    first = norm_parts(rewrite(body, lambda a: K(0) if a == var else None))
    rest = ("*", var, n.add(-1), rewrite(body, lambda a: V(var).add(1) if a == var else None))
    return list(first), rest


def units(ip, part):
    """constant strings as units (bytes of the UTF-8 encoding)"""
    return [("u", K(b)) for b in part[1].encode()]


def dec_cond(d):
    """the condition a recorded decision stands for, or None"""
    if d[0] == "le":
        return ("cmp", "le", d[1])
    if d[0] == "eq":
        c = ("cmp", "eq", d[1])
        return c if d[2] else ("not", c)
    if d[0] == "at":
        return ("at", d[1]) if d[2] else ("not", ("at", d[1]))
    return None


def alt_pick(ip, st, part):
    """(parts of the branch that applies, None) or (None, an undecided condition)"""
    left, cond = [], None
    for conds, parts in part[1]:
        truth = True
        for d in conds:
            c = dec_cond(d)
            t = ip.decide(st, c) if c is not None else None
            if t is False:
                truth = False
                break
            if t is None:
                truth = None
                if c is not None and cond is None:
                    cond = c
        if truth is True:
            return parts, None
        if truth is None:
            left.append(parts)
    if len(left) == 1:
        return left[0], None
    return None, cond


def settle_star(ip, st, p):
    """a star whose body distinguishes cases by its index: the cases resolved,
    splitting the range where the case changes; [parts] or None"""
    _, var, n, body = p
    k = next((i for i, x in enumerate(body) if x[0] == "alt"), None)
    if k is None:
        return None
    s2 = under_var(ip, st, var, n)
    parts, cond = alt_pick(ip, s2, body[k])
    if parts is not None:
        return [("*", var, n, norm_parts(body[:k] + tuple(parts) + body[k + 1:]))]
    if cond is None:
        return None
    while cond[0] == "not":
        cond = cond[1]
    if cond[0] != "cmp":
        return None
    l = cond[2]
    v = l.t.get(var, 0)
    if v not in (1, -1):
        return None
    m = l.sub(V(var).mul(v)).mul(-v)
    if not (v == -1 and cond[1] == "le"):
        # index <= m, index == m: the case changes after m
        if cond[1] == "eq" and ip.prove_le(st, n.add(-1).sub(m)):
            pass
        else:
            m = m.add(1)
    for c in (("cmp", "le", m.neg()), ("cmp", "le", m.sub(n))):
        d = ip.decide(st, c)
        if d is None:
            raise NeedFork(c)
        if not d:
            return None
    return [("*", var, m, body),
            ("*", var, n.sub(m), rewrite(body, lambda x: V(var).add(m) if x == var else None))]


def same_seq(ip, st, qa, qb, depth=0):
    a, b = list(qa[1]), list(qb[1])
    guard = 0
    while True:
        guard += 1
        if guard > 600:
            return False
        while a and part_zero(ip, st, a[0]):
            a.pop(0)
        while b and part_zero(ip, st, b[0]):
            b.pop(0)
        if not a and not b:
            return True
        if not a or not b:
            p = (a or b)[0]
            l = part_len(p)
            c = ("cmp", "le", l)
            d = ip.decide(st, c)
            if d is None:
                raise NeedFork(c)
            if d:
                (a or b).pop(0)
                continue
            return False
        p, q = a[0], b[0]
        if p == q:
            a.pop(0)
            b.pop(0)
            continue
        if p[0] == "k" and q[0] == "k":
            x, y = p[1], q[1]
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            a[:1] = [("k", x[n:])] if x[n:] else []
            b[:1] = [("k", y[n:])] if y[n:] else []
            continue
        if p[0] == "k":
            a[:1] = units(ip, p)
            continue
        if q[0] == "k":
            b[:1] = units(ip, q)
            continue
        if p[0] == "u" and q[0] == "u":
            if not same(ip, st, p[1], q[1], depth + 1):
                return False
            a.pop(0)
            b.pop(0)
            continue
        again = False
        for x, xs in ((p, a), (q, b)):
            if x[0] == "alt":
                parts, cond = alt_pick(ip, st, x)
                if parts is None:
                    if cond is None:
                        return False
                    raise NeedFork(cond)
                xs[:1] = list(parts)
                again = True
                break
            if x[0] == "*":
                if x[2].isc() and x[2].c == 1:
                    xs[:1] = peel(ip, st, x)[0]
                    again = True
                    break
                r = settle_star(ip, st, x)
                if r is not None:
                    xs[:1] = r
                    again = True
                    break
        if again:
            continue
        if p[0] == "*" and q[0] == "*":
            if ip.prove_eq(st, p[2].sub(q[2])):
                if star_same(ip, st, p, q, depth):
                    a.pop(0)
                    b.pop(0)
                    continue
                return False
            lp, lq = parts_len(p[3]), parts_len(q[3])
            if lp.isc() and lq.isc() and lp != lq and lp.c > 0 and lq.c > 0:
                # regroup the finer star into blocks of the coarser one
                xs, fine, k = (b, q, lp.c // lq.c) if lp.c % lq.c == 0 else (a, p, lq.c // lp.c)
                m = ip.divc(fine[2], k) if k > 1 else None
                if m is not None:
                    body = ()
                    for t in range(k):
                        body += tuple(rewrite(fine[3], lambda x: V(fine[1]).mul(k).add(t) if x == fine[1] else None))
                    xs[0] = ("*", fine[1], m, norm_parts(body))
                    continue
            d = p[2].sub(q[2])
            # the shorter one first
            if ip.prove_le(st, d) or ip.prove_le(st, d.neg()):
                sh, lo = (p, q) if ip.prove_le(st, d) else (q, p)
                head = ("*", lo[1], sh[2], lo[3])
                tail = ("*", lo[1], lo[2].sub(sh[2]), rewrite(lo[3], lambda x: V(lo[1]).add(sh[2]) if x == lo[1] else None))
                if not star_same(ip, st, sh, head, depth):
                    return False
                if sh is p:
                    a.pop(0)
                    b[0] = tail
                else:
                    b.pop(0)
                    a[0] = tail
                continue
            raise NeedFork(("cmp", "le", d))
        if p[0] == "s" and q[0] == "s":
            if p[1] != q[1] or not ip.prove_eq(st, p[2].sub(q[2])):
                return False
            d = p[3].sub(q[3])
            if ip.prove_eq(st, d):
                a.pop(0)
                b.pop(0)
            elif ip.prove_le(st, d):
                a.pop(0)
                b[0] = ("s", q[1], p[3], q[3])
            elif ip.prove_le(st, d.neg()):
                b.pop(0)
                a[0] = ("s", p[1], q[3], p[3])
            else:
                raise NeedFork(("cmp", "le", d))
            continue
        if p[0] == "rep" and q[0] == "rep":
            if not same(ip, st, p[1], q[1], depth + 1):
                return False
            d = p[2].sub(q[2])
            if ip.prove_eq(st, d):
                a.pop(0)
                b.pop(0)
            elif ip.prove_le(st, d):
                a.pop(0)
                b[0] = ("rep", q[1], q[2].sub(p[2]))
            elif ip.prove_le(st, d.neg()):
                b.pop(0)
                a[0] = ("rep", p[1], p[2].sub(q[2]))
            else:
                raise NeedFork(("cmp", "le", d))
            continue
        # a symbolic slice against a star of its elements
        for x, y, xs, ys in ((p, q, a, b), (q, p, b, a)):
            if x[0] == "s" and y[0] == "*":
                bl = parts_len(y[3])
                if bl.isc() and bl.c > 0:
                    var = y[1]
                    n = y[2].mul(bl.c)
                    want = norm_parts(tuple(("s", x[1], x[2].add(V(var).mul(bl.c)).add(k), x[2].add(V(var).mul(bl.c)).add(k + 1)) for k in range(bl.c)))
                    s2 = under_var(ip, st, var, y[2])
                    if same_seq(ip, s2, ("Q", y[3]), ("Q", want), depth + 1):
                        hi = x[2].add(n)
                        if not ip.prove_le(st, hi.sub(x[3])):
                            raise NeedFork(("cmp", "le", hi.sub(x[3])))
                        ys.pop(0)
                        xs[0] = ("s", x[1], hi, x[3])
                        break
                    return False
        else:
            # peel one element of whichever side is compound
            done = False
            for xs in (a, b):
                x = xs[0]
                if x[0] == "*":
                    c = ("cmp", "le", K(1).sub(x[2]))
                    d = ip.decide(st, c)
                    if d is None:
                        raise NeedFork(c)
                    if d:
                        f, r = peel(ip, st, x)
                        xs[:1] = f + [r]
                    else:
                        xs.pop(0)
                    done = True
                    break
            if not done:
                for xs in (a, b):
                    x = xs[0]
                    if x[0] in ("s", "rep"):
                        l = part_len(x)
                        c = ("cmp", "le", K(1).sub(l))
                        d = ip.decide(st, c)
                        if d is None:
                            raise NeedFork(c)
                        if not d:
                            xs.pop(0)
                        elif x[0] == "s":
                            u = ip.part_at(st, x, ZERO, ip.ety.get(x[1]))
                            xs[:1] = [("u", u), ("s", x[1], x[2].add(1), x[3])]
                        else:
                            xs[:1] = [("u", x[1]), ("rep", x[1], x[2].add(-1))]
                        done = True
                        break
            if not done:
                return False
        continue


def part_zero(ip, st, p):
    if p[0] in ("u", "k"):
        return False
    l = part_len(p)
    if l == ZERO:
        return True
    if l.isc():
        return False
    return ip.prove_le(st, l)


def under_var(ip, st, var, n):
    s = st.copy()
    s.facts = s.facts + (V(var).neg(), V(var).sub(n).add(1))
    return s


def star_same(ip, st, p, q, depth):
    if p[1] != q[1]:
        v = p[1]
        q = ("*", v, q[2], rewrite(q[3], lambda x: V(v) if x == q[1] else None))
    if p[3] == q[3]:
        return True
    s2 = under_var(ip, st, p[1], p[2])
    try:
        return same_seq(ip, s2, ("Q", norm_parts(p[3])), ("Q", norm_parts(q[3])), depth + 1)
    except NeedFork:
        return False


def lin_same(ip, st, a, b):
    d = a.sub(b)
    if ip.prove_eq(st, d):
        return True
    # atoms that are equal because their own parts are
    if 1 < len(d.t) <= 6:
        for x, v in d.t.items():
            for y, w in d.t.items():
                if v == -w and v > 0 and term_same(ip, st, x, y):
                    t = dict(d.t)
                    del t[x], t[y]
                    return lin_same(ip, st, Lin(d.c, t), ZERO)
    return False


def term_same(ip, st, x, y):
    if x == y:
        return True
    if isinstance(x, Lin) and isinstance(y, Lin):
        return ip.prove_eq(st, x.sub(y))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(term_same(ip, st, p, q) for p, q in zip(x, y))
    if isinstance(x, Sym) and isinstance(y, Sym):
        return term_same(ip, st, x.term, y.term)
    return False


def same(ip, st, a, b, depth=0):
    a, b = strip(a), strip(b)
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return lin_same(ip, st, a, b)
    if isQ(a) or isQ(b):
        if not isQ(a):
            try:
                a = ip.as_seq(a)
            except Unknown:
                return False
        if not isQ(b):
            try:
                b = ip.as_seq(b)
            except Unknown:
                return False
        return same_seq(ip, st, a, b, depth + 1)
    if isA(a) and isA(b):
        if a[1:3] != b[1:3] or len(a[3]) != len(b[3]):
            return False
        return all(same(ip, st, x, y, depth + 1) for x, y in zip(a[3], b[3]))
    if Interp.isbool(a) and Interp.isbool(b):
        if a[0] == "b" and b[0] == "b":
            return a == b
        da, db = ip.decide(st, a), ip.decide(st, b)
        if da is None:
            raise NeedFork(a)
        if db is None:
            raise NeedFork(b)
        return da == db
    if isinstance(a, Sym) and isA(b):
        try:
            a = ip.expand(a, b[2])
        except Unknown:
            return False
        return same(ip, st, a, b, depth + 1)
    if isinstance(b, Sym) and isA(a):
        return same(ip, st, b, a, depth + 1)
    return False
