"""Entailment between linear inequalities over integers: elimination of unknowns one by one (a polyhedral domain, without a
solver). Used when the interval facts do not decide a comparison."""
from math import gcd
from .core import Lin, add, mulc, lin_of

MAXROWS = 1000


def rows_of(st, terms, depth):
    """the known inequalities (row <= 0) that are connected with the given terms; a row is (const, {atom: coef})"""
    rows = []
    seen = {}
    todo = []

    def touch(t):
        for a, _ in t:
            if a not in seen:
                seen[a] = level + 1
                todo.append(a)

    level = 0

    for t in terms:
        touch(t.t)
    facts = [(Lin(0, k), lo, hi) for k, (lo, hi) in st.iv.items()]
    used = set()
    results = {}          # results of operations on an unknown, as far as something is known about them
    for f, _, _ in facts:
        for b, _ in f.t:
            if b.kind == "op" and b.key[0] in ("alignup", "padlen"):
                x = st.norm(b.key[1])
                for z, _ in x.t if isinstance(x, Lin) else ():
                    results.setdefault(z, []).append(b)
    while todo:
        a = todo.pop(0)
        level = seen[a]
        lo, hi = st.atom_range(a)
        if a.kind == "region":
            lo = None
        if lo is not None:
            rows.append((lo, {a: -1}))
        if hi is not None:
            rows.append((-hi, {a: 1}))
        if a.kind == "op":
            y = a.key
            x = None
            if y[0] in ("alignup", "padlen"):
                x = st.norm(y[1])
            elif y[0] == "bin" and y[1] in ("udiv", "urem") and isinstance(y[3], int) and y[3] > 0:
                x = st.norm(y[2])
            if x is not None:
                c = y[2] if y[0] != "bin" else y[3]
                if y[0] == "alignup":       # x <= a <= x+c-1
                    one(rows, touch, add(x, lin_of(a), -1))
                    one(rows, touch, add(add(lin_of(a), x, -1), -(c - 1)))
                elif y[0] == "padlen" or y[1] == "urem":
                    rows.append((-(c - 1), {a: 1}))
                    rows.append((0, {a: -1}))
                else:                       # c*a <= x <= c*a+c-1
                    one(rows, touch, add(mulc(lin_of(a), c), x, -1))
                    one(rows, touch, add(add(x, lin_of(a), -c), -(c - 1)))
        if level > depth:
            continue
        for b in results.get(a, ()):
            touch(((b, 1),))
        for i, (f, lo, hi) in enumerate(facts):
            if i in used or all(b is not a for b, _ in f.t):
                continue
            used.add(i)
            touch(f.t)
            if hi is not None:
                rows.append((-hi, dict(f.t)))
            if lo is not None:
                rows.append((lo, {b: -k for b, k in f.t}))
    return rows


def one(rows, touch, e):
    if isinstance(e, int):
        return
    touch(e.t)
    rows.append((e.c, dict(e.t)))


def scaled(rows):
    """alignup(x,c) and other terms that are known multiples are written as multiples, so that rounding is exact"""
    out = []
    for c, d in rows:
        out.append((c, {a: (k * a.key[2] if a.kind == "op" and a.key[0] == "alignup" else
                            k * a.extra["align"] if a.kind == "sym" and a.extra and a.extra.get("align") else k) for a, k in d.items()}))
    return out


def tight(c, d):
    """integer rounding: sum(g*k'x) + c <= 0  ->  sum(k'x) + ceil(c/g) <= 0"""
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c = -((-c) // g)
    return c, d


def infeasible(rows):
    cur = {}

    def put(c, d):
        d = {a: k for a, k in d.items() if k}
        if not d:
            return c > 0
        c, d = tight(c, d)
        key = tuple(sorted(((a.id, k) for a, k in d.items())))
        o = cur.get(key)
        if o is None or c > o[0]:
            cur[key] = (c, d)
        return False

    for c, d in scaled(rows):
        if put(c, d):
            return True
    while cur:
        pos, neg = {}, {}
        for c, d in cur.values():
            for a, k in d.items():
                (pos if k > 0 else neg)[a] = (pos if k > 0 else neg).get(a, 0) + 1
        best = min(set(pos) | set(neg), key=lambda a: (pos.get(a, 0) * neg.get(a, 0) - pos.get(a, 0) - neg.get(a, 0), a.id))
        ps, ns, rest = [], [], []
        for r in cur.values():
            k = r[1].get(best, 0)
            (ps if k > 0 else ns if k < 0 else rest).append(r)
        if len(rest) + len(ps) * len(ns) > MAXROWS:
            return False
        cur = {}
        for c, d in rest:
            put(c, d)
        for c1, d1 in ps:
            for c2, d2 in ns:
                m1, m2 = -d2[best], d1[best]
                d = {a: k * m1 for a, k in d1.items()}
                for a, k in d2.items():
                    d[a] = d.get(a, 0) + k * m2
                if put(c1 * m1 + c2 * m2, d):
                    return True
    return False


_memo = {}


def contradiction(rows, *more):
    key = tuple(sorted((c,) + tuple(sorted((a.id, k) for a, k in d.items())) for c, d in rows + list(more)))
    r = _memo.get(key)
    if r is None:
        if len(_memo) > 200000:
            _memo.clear()
        r = _memo[key] = infeasible(rows + list(more))
    return r


def levels(st, d):
    """growing sets of facts"""
    n = 0
    for depth in (1, 2, 99):
        rows = rows_of(st, [d], depth)
        if len(rows) < 2:
            return
        if len(rows) > 160:
            return
        if len(rows) > n:
            n = len(rows)
            yield rows


def compare(st, d, strict):
    """truth of d < 0 (strict) or d <= 0, None if not implied"""
    d = st.norm(d)
    if isinstance(d, int):
        return d < 0 if strict else d <= 0
    pos, neg = dict(d.t), {a: -k for a, k in d.t}
    for rows in levels(st, d):
        # not (d < 0): -d <= 0 ; not (d <= 0): -d + 1 <= 0
        if contradiction(rows, (-d.c + (0 if strict else 1), neg)):
            return True
        if contradiction(rows, (d.c + (1 if strict else 0), pos)):
            return False
    return None


def size_of(st, a):
    r = st.mem.get(a)
    if r is None or r.state != "live":
        return None
    s = r.info.get("asize", r.size) if r.kind == "heap" else r.size
    return st.norm(s) if s is not None else None


def is_zero(st, d):
    """False if d == 0 is impossible, True if implied"""
    rs = [(a, k) for a, k in d.t if a.kind == "region"]
    if len(rs) == 2 and sorted(k for _, k in rs) == [-1, 1]:
        # x - y + t with disjoint objects x and y: t has to lead out of one and into the other
        (x, _), (y, _) = rs if rs[0][1] == 1 else rs[::-1]
        t = add(add(d, lin_of(x), -1), lin_of(y))
        sx, sy = size_of(st, x), size_of(st, y)
        if sx is not None and sy is not None and below(st, add(t, sx, -1)) and below(st, add(mulc(t, -1), sy, -1)):
            return False
    pos, neg = dict(d.t), {a: -k for a, k in d.t}
    for rows in levels(st, d):
        if contradiction(rows, (d.c, pos), (-d.c, neg)):
            return False
        if contradiction(rows, (d.c + 1, pos)) and contradiction(rows, (-d.c + 1, neg)):
            return True
    return None


def below(st, d):
    return d < 0 if isinstance(d, int) else compare(st, d, True) is True


def pairs(st, c, out):
    """pairs of objects whose addresses are compared in a condition"""
    from .core import Cond
    for x in c.k[1:]:
        if isinstance(x, Cond):
            pairs(st, x, out)
    d = None
    if c.k[0] == "eq":
        d = st.norm(c.k[1])
    elif c.k[0] in ("lt", "le"):
        d = add(st.norm(c.k[2]), st.norm(c.k[3]), -1)
    if isinstance(d, Lin):
        rs = [(a, k) for a, k in d.t if a.kind == "region"]
        if len(rs) == 2 and sorted(k for _, k in rs) == [-1, 1]:
            x, y = rs[0][0], rs[1][0]
            sx, sy = size_of(st, x), size_of(st, y)
            if sx is not None and sy is not None:
                out.append((x, sx, y, sy))
    return out
