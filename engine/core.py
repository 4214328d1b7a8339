"""Disjunctive abstract interpretation of clang IR (before coroutine splitting).

Values are linear terms over atoms (unknowns), memory is a set of regions (objects) whose unknown cells are materialised
lazily, branches on undecided facts split the abstract state, loops are closed by subsumption or cut at a bound."""
import sys
from .ir import Module, loop_heads, live_in, coro_info, succs

sys.setrecursionlimit(10000)

# ------------------------------------------------------------------------------------------------ values


class Atom:
    __slots__ = ("id", "kind", "name", "key", "extra")
    n = 0

    def __init__(self, kind, name, key=None, extra=None):
        Atom.n += 1
        self.id = Atom.n
        self.kind = kind      # 'region' (an object created during analysis), 'sym' (unknown), 'op', 'func', 'undef'
        self.name = name
        self.key = key
        self.extra = extra

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.id < o.id


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = "+".join((a.name if k == 1 else "%d*%s" % (k, a.name)) for a, k in self.t)
        return s + ("%+d" % self.c if self.c else "")


class Cond:
    """boolean term: k = ('eq',lin) ('lt'/'le', signed?, a, b) ('not',c) ('and',a,b) ('or',a,b) ('xor',a,b) ('b',atom)"""
    __slots__ = ("k", "h")

    def __init__(self, *k):
        self.k = k
        self.h = hash(k)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k

    def __repr__(self):
        return "(" + " ".join(map(repr, self.k)) + ")"


def mklin(c, terms):
    t = tuple(sorted(((a, k) for a, k in terms.items() if k), key=lambda x: x[0].id))
    if not t:
        return c
    return Lin(c, t)


def lin_of(atom, c=0):
    return Lin(c, ((atom, 1),))


def add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    if isinstance(b, int):
        return Lin(a.c + kb * b, a.t) if b else a
    if isinstance(a, int):
        if kb == 1:
            return Lin(b.c + a, b.t) if a else b
        return Lin(a + kb * b.c, tuple((x, k * kb) for x, k in b.t)) if kb else a
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + kb * k
    return mklin(a.c + kb * b.c, d)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(a.c * k, tuple((x, c * k) for x, c in a.t))


_ops = {}


def opatom(*key):
    a = _ops.get(key)
    if a is None:
        a = Atom("op", "%s(%s)" % (key[0], ",".join(repr(x) for x in key[1:])), key)
        _ops[key] = a
    return a


def op(*key):
    return lin_of(opatom(*key))


def signed(v, bits):
    v &= (1 << bits) - 1
    if bits > 1 and v >> (bits - 1):
        v -= 1 << bits
    return v


class Abort(Exception):
    """ends a path"""

    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Fork(Exception):
    """raised by a model: the instruction is re-executed in each successor state"""

    def __init__(self, states):
        self.states = states


class AnalysisError(Exception):
    pass


class Gap(Exception):
    """a construct this analysis cannot follow: the path is given up and counted"""


# ------------------------------------------------------------------------------------------------ memory


class Region:
    __slots__ = ("atom", "kind", "size", "cells", "state", "info", "shared", "zero")

    def __init__(self, atom, kind, size=None, info=None):
        self.atom = atom
        self.kind = kind       # 'lazy','stack','heap','global'
        self.size = size
        self.cells = {}        # (symkey, off) -> (size, value)
        self.state = "live"    # live | freed | handed | ended
        self.info = info or {}
        self.shared = False
        self.zero = False

    def copy(self):
        r = Region.__new__(Region)
        r.atom, r.kind, r.size, r.state, r.info, r.shared, r.zero = self.atom, self.kind, self.size, self.state, self.info, self.shared, self.zero
        r.cells = dict(self.cells)
        return r


class Coro:
    __slots__ = ("h", "fn", "status", "block", "idx", "env", "visits", "lastf", "promise", "gen", "allocas", "resident", "name", "mem")

    def copy(self):
        c = Coro.__new__(Coro)
        for s in Coro.__slots__:
            setattr(c, s, getattr(self, s))
        return c


class Act:
    __slots__ = ("fn", "b", "i", "env", "visits", "stack", "coro", "mode", "gen", "prevb", "started", "noret", "tag", "pend", "lastf")

    def copy(self):
        a = Act.__new__(Act)
        a.fn, a.b, a.i, a.env, a.visits = self.fn, self.b, self.i, dict(self.env), dict(self.visits)
        a.stack, a.coro, a.mode, a.gen, a.prevb = list(self.stack), self.coro, self.mode, self.gen, self.prevb
        a.started = set(self.started)
        a.noret = self.noret
        a.tag = self.tag
        a.pend = self.pend
        a.lastf = dict(self.lastf)
        return a


class State:
    __slots__ = ("acts", "mem", "own", "subst", "neq", "iv", "trace", "coros", "mon", "caught", "exc", "inj", "inj_busy",
                 "pending", "steps", "ntrace", "gcnt", "thr", "cur", "curname", "race", "tids", "hist", "node", "fstep")

    def __init__(self):
        self.acts = []
        self.mem = {}
        self.own = set()
        self.subst = {}
        self.neq = frozenset()
        self.iv = {}
        self.trace = None
        self.ntrace = 0
        self.coros = {}
        self.mon = {}
        self.caught = ()
        self.exc = None
        self.inj = ()
        self.inj_busy = None
        self.pending = None
        self.steps = 0
        self.gcnt = 0
        self.thr = {}            # other threads: id -> Thr
        self.cur = 0             # current thread
        self.curname = (None, None)
        self.race = {}
        self.tids = ()
        self.node = 0            # last point of the reachability graph this path went through
        self.fstep = 0           # steps at the last decision
        self.hist = {}           # earlier values of atomic objects which some thread may still read

    def fork(self):
        s = State.__new__(State)
        s.acts = [a.copy() for a in self.acts]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.subst = dict(self.subst)
        s.neq = self.neq
        s.iv = dict(self.iv)
        s.trace = self.trace
        s.ntrace = self.ntrace
        s.coros = {k: v.copy() for k, v in self.coros.items()}
        s.mon = dict(self.mon)
        s.caught = self.caught
        s.exc = self.exc
        s.inj = self.inj
        s.inj_busy = self.inj_busy
        s.pending = self.pending
        s.steps = self.steps
        s.gcnt = self.gcnt
        s.thr = {k: t.copy() for k, t in self.thr.items()}
        s.cur = self.cur
        s.curname = self.curname
        s.race = {k: {b: dict(c) for b, c in d.items()} for k, d in self.race.items()} if self.race else {}
        s.tids = self.tids
        s.hist = dict(self.hist)
        s.node = self.node
        s.fstep = self.fstep
        return s

    # ---- terms
    def norm(self, v):
        if isinstance(v, (int, str)) or v is None:
            return v
        if isinstance(v, Lin):
            sub = self.subst
            if sub:
                for _ in range(50):
                    for a, k in v.t:
                        if a in sub:
                            break
                    else:
                        break
                    r = v.c
                    for a, k in v.t:
                        s = sub.get(a)
                        r = add(r, lin_of(a) if s is None else s, k)
                    v = r
                    if isinstance(v, int):
                        return v
            # simplify b2i of decided conditions
            for a, k in v.t:
                if a.kind == "op":
                    w = self._simp(a)
                    if w is not None:
                        return self.norm(add(add(v, lin_of(a), -k), w, k))
            return v
        return v

    def _simp(self, a):
        key = a.key
        if key[0] == "b2i":
            d = self.decide(key[1])
            if d is not None:
                return 1 if d else 0
            return None
        if key[0] in ("bin",):
            o, x, y = key[1], key[2], key[3]
            nx, ny = self.norm(x), self.norm(y)
            if nx != x or ny != y:
                return binop(self, o, nx, ny, key[4])
        if key[0] in ("alignup", "padlen") and isinstance(key[1], Lin):
            x = self.norm(key[1])
            r = rem_known(self, x, key[2])
            if r is not None:
                return add(x, (-r) % key[2]) if key[0] == "alignup" else (-r) % key[2]
            if x != key[1]:
                return op(key[0], x, key[2])
        return None

    def range_of(self, v):
        """interval of an integer term, or (None,None)"""
        v = self.norm(v)
        if isinstance(v, int):
            return v, v
        lo = hi = v.c
        for a, k in v.t:
            l, h = self.atom_range(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        key, neg, c = ivkey(v)
        r = self.iv.get(key)
        if r:
            l, h = r
            if neg:
                l, h = (None if h is None else -h), (None if l is None else -l)
            if l is not None and (lo is None or l + v.c > lo):
                lo = l + v.c
            if h is not None and (hi is None or h + v.c < hi):
                hi = h + v.c
        return lo, hi

    def atom_range(self, a):
        lo = hi = None
        if a.kind == "region":
            lo = 16
        elif a.kind == "op":
            k = a.key
            if k[0] == "bin" and k[1] in ("urem",) and isinstance(k[3], int):
                lo, hi = 0, k[3] - 1
            elif k[0] == "bin" and k[1] == "urem":
                lo = 0
            elif k[0] == "bin" and k[1] == "and" and isinstance(k[3], int) and k[3] >= 0:
                lo, hi = 0, k[3]
            elif k[0] in ("b2i",):
                lo, hi = 0, 1
            elif k[0] == "alignup":
                l, h = self.range_of(k[1])
                lo = l
                hi = None
            elif k[0] == "zext":
                lo = 0
        elif a.extra and a.extra.get("lo") is not None:
            lo = a.extra["lo"]
        r = self.iv.get(((a, 1),))
        if r:
            if r[0] is not None and (lo is None or r[0] > lo):
                lo = r[0]
            if r[1] is not None and (hi is None or r[1] < hi):
                hi = r[1]
        return lo, hi

    def sumrange(self, v):
        """range of a term, also using facts about differences of pairs (a small closure)"""
        v = self.norm(v)
        lo, hi = self.range_of(v)
        if isinstance(v, int) or (lo is not None and lo >= 0) or (hi is not None and hi < 0):
            return lo, hi
        # try v = fact + rest
        for key, (l, h) in self.iv.items():
            for s in (1, -1):
                f = Lin(0, key)
                rest = add(v, f, -s)
                if isinstance(rest, Lin) and len(rest.t) >= len(v.t):
                    continue
                rl, rh = self.range_of(rest)
                fl, fh = (l, h) if s == 1 else ((None if h is None else -h), (None if l is None else -l))
                if rl is not None and fl is not None and (lo is None or rl + fl > lo):
                    lo = rl + fl
                if rh is not None and fh is not None and (hi is None or rh + fh < hi):
                    hi = rh + fh
        # alignup(x) >= x, alignup(x) <= x + c - 1
        if isinstance(v, Lin):
            for a, k in v.t:
                if a.kind == "op" and a.key[0] == "alignup":
                    w = add(add(v, lin_of(a), -k), a.key[1], k)
                    l, h = self.range_of(w)
                    c = a.key[2] - 1
                    if k > 0:
                        if l is not None and (lo is None or l > lo):
                            lo = l
                        if h is not None and (hi is None or h + k * c < hi):
                            hi = h + k * c
                    else:
                        if h is not None and (hi is None or h < hi):
                            hi = h
                        if l is not None and (lo is None or l + k * c > lo):
                            lo = l + k * c
        return lo, hi

    def decide(self, c):
        """truth of a condition in this state: True, False or None"""
        if isinstance(c, int):
            return bool(c)
        k = c.k
        t = k[0]
        if t == "eq":
            d = self.norm(k[1])
            if isinstance(d, int):
                return d == 0
            if len(d.t) == 1:
                a, cf = d.t[0]
                if a.kind in ("region", "func"):
                    return False
                if a.kind == "op" and a.key[0] == "b2i" and cf in (1, -1):
                    want = -d.c * cf
                    if want == 1:
                        return self.decide(a.key[1])
                    if want == 0:
                        r = self.decide(a.key[1])
                        return None if r is None else not r
                    return False
            if d in self.neq or mulc(d, -1) in self.neq:
                return False
            if len(d.t) == 2:
                (a, ka), (b, kb) = d.t
                if ka == -kb and abs(ka) == 1 and self.distinct(a, b):
                    return False
            lo, hi = self.range_of(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
            for a, _ in d.t:
                if a.kind == "undef":
                    raise Abort("uninit", a)
            e = same_arith(self, d)
            if isinstance(e, int):
                return e == 0
            if self.iv and len(d.t) > 1:
                from . import linear
                return linear.is_zero(self, d)
            return None
        if t == "not":
            r = self.decide(k[1])
            return None if r is None else not r
        if t == "and":
            a = self.decide(k[1])
            if a is False:
                return False
            b = self.decide(k[2])
            if b is False:
                return False
            return True if a and b else None
        if t == "or":
            a = self.decide(k[1])
            if a:
                return True
            b = self.decide(k[2])
            if b:
                return True
            return False if a is False and b is False else None
        if t == "xor":
            a, b = self.decide(k[1]), self.decide(k[2])
            return None if a is None or b is None else a != b
        if t in ("lt", "le"):
            sg, a, b = k[1], self.norm(k[2]), self.norm(k[3])
            if isinstance(a, int) and isinstance(b, int):
                if not sg:
                    a, b = a & (2**64 - 1) if a < 0 else a, b & (2**64 - 1) if b < 0 else b
                return a < b if t == "lt" else a <= b
            if not sg:
                # unsigned: negative constants are huge
                if isinstance(b, int) and b < 0:
                    return True
                if isinstance(a, int) and a < 0:
                    return False
                if isinstance(a, int) and a == 0 and t == "le":
                    return True
                if isinstance(b, int) and b == 0 and t == "lt":
                    return False
                if isinstance(a, int) and a == 0 and t == "lt":
                    r = self.decide(Cond("eq", b))
                    return None if r is None else not r
                if isinstance(b, int) and b == 0 and t == "le":
                    return self.decide(Cond("eq", a))
            d = add(a, b, -1)
            if isinstance(d, int):
                return d < 0 if t == "lt" else d <= 0
            lo, hi = self.sumrange(d)
            if t == "lt":
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            else:
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            if isinstance(d, Lin) and self.iv and (len(d.t) > 1 or d.t[0][0].kind == "op" or any(
                    x.kind == "op" or len(key) > 1 and x is d.t[0][0] for key in self.iv for x, _ in key)):
                from . import linear
                r = linear.compare(self, d, t == "lt")
                if r is not None:
                    return r
            for x in (a, b):
                if isinstance(x, Lin):
                    for at, _ in x.t:
                        if at.kind == "undef":
                            raise Abort("uninit", at)
            return None
        if t == "b":
            v = self.subst.get(k[1])
            if v is None and k[1].kind == "undef":
                raise Abort("uninit", k[1])
            return None if v is None else bool(v)
        return None

    def distinct(self, a, b):
        ka, kb = a.kind, b.kind
        if ka in ("region", "func") and kb in ("region", "func"):
            return True
        if ka == "sym" and kb == "sym" and a.extra and b.extra and "tid" in a.extra and "tid" in b.extra:
            return True     # ids of different threads differ
        am, bm = a in self.mem, b in self.mem
        if am and bm:
            return True
        if ka == "region" and kb == "sym" and not b.extra:
            return self.mem[a].kind in ("stack", "heap") if am else True
        if kb == "region" and ka == "sym" and not a.extra:
            return self.mem[b].kind in ("stack", "heap") if bm else True
        return False

    def assume(self, c, val):
        """adds the fact c==val; returns False if infeasible"""
        d = self.decide(c)
        if d is not None:
            return d == val
        k = c.k
        t = k[0]
        if t == "not":
            return self.assume(k[1], not val)
        if t == "and":
            if val:
                return self.assume(k[1], True) and self.assume(k[2], True)
            a, b = self.decide(k[1]), self.decide(k[2])
            if a is True:
                return self.assume(k[2], False)
            if b is True:
                return self.assume(k[1], False)
            return True
        if t == "or":
            return self.assume(Cond("and", Cond("not", k[1]), Cond("not", k[2])), not val)
        if t == "xor":
            a, b = self.decide(k[1]), self.decide(k[2])
            if a is not None:
                return self.assume(k[2], val != a)
            if b is not None:
                return self.assume(k[1], val != b)
            return True
        if t == "b":
            self.subst[k[1]] = 1 if val else 0
            return True
        if t == "eq":
            d = self.norm(k[1])
            if len(d.t) == 1 and d.t[0][0].kind == "op" and d.t[0][0].key[0] == "b2i":
                a, cf = d.t[0]
                want = -d.c * cf
                return self.assume(a.key[1], (want == 1) == val)
            if not val:
                self.neq = self.neq | {d}
                # tighten bounds
                return True
            cand = None
            for a, cf in d.t:
                if cf in (1, -1) and a.kind in ("sym", "op", "undef") and a not in self.mem:
                    if cand is None or (a.kind == "sym" and cand[0].kind != "sym") or (a.kind == cand[0].kind and a.id > cand[0].id):
                        cand = (a, cf)
            if cand is None:
                for a, cf in d.t:
                    if cf in (1, -1) and a.kind == "sym" and a in self.mem and not self.mem[a].cells:
                        cand = (a, cf)
                        del self.mem[a]
                        break
            if cand is None:
                if all(a.kind in ("region", "func") or a in self.mem for a, _ in d.t):
                    return False
                return True
            a, cf = cand
            rest = mulc(add(d, lin_of(a), -cf), -cf)
            r = self.iv.get(((a, 1),))
            self.subst[a] = rest
            return self._recheck(a, r)
        if t in ("lt", "le"):
            sg, a, b = k[1], self.norm(k[2]), self.norm(k[3])
            if not val:
                a, b = b, a
                t = "le" if t == "lt" else "lt"
            if not sg and isinstance(b, int) and b >= 0 and isinstance(a, Lin) and len(a.t) == 1 and self.range_of(a)[0] is None:
                # 0 <= a too
                if not self.assume(Cond("le", True, 0, a), True):
                    return False
            d = add(a, b, -1)      # d < 0 or d <= 0
            bound = -1 if t == "lt" else 0
            if not sg:
                # unsigned facts imply both sides nonnegative in the ranges we use
                if isinstance(a, int) and t == "lt" and a == 0:
                    self.neq = self.neq | {b}
            key, neg, cc = ivkey(d)
            lo, hi = self.iv.get(key, (None, None))
            if not neg:
                h = bound - cc
                if hi is None or h < hi:
                    hi = h
            else:
                l = -(bound - cc)
                if lo is None or l > lo:
                    lo = l
            if lo is not None and hi is not None:
                if lo > hi:
                    return False
                if lo == hi:
                    self.iv[key] = (lo, hi)
                    return self.assume(Cond("eq", add(Lin(0, key), -lo)), True) if self.decide(Cond("eq", add(Lin(0, key), -lo))) is not False else False
            self.iv[key] = (lo, hi)
            # exclusion by neq: if bound value excluded, tighten once
            for _ in range(2):
                lo, hi = self.iv[key]
                if hi is not None and (add(Lin(0, key), -hi) in self.neq or mulc(add(Lin(0, key), -hi), -1) in self.neq):
                    self.iv[key] = (lo, hi - 1)
                elif lo is not None and (add(Lin(0, key), -lo) in self.neq or mulc(add(Lin(0, key), -lo), -1) in self.neq):
                    self.iv[key] = (lo + 1, hi)
            lo, hi = self.iv[key]
            return not (lo is not None and hi is not None and lo > hi)
        return True

    def _recheck(self, a, r):
        """after a substitution of atom a: re-evaluate facts that mention it"""
        new = set()
        for d in self.neq:
            n = self.norm(d)
            if isinstance(n, int):
                if n == 0:
                    return False
                continue
            new.add(n)
        self.neq = frozenset(new)
        for key in list(self.iv):
            if any(x in self.subst for x, _ in key):
                lo, hi = self.iv.pop(key)
                n = self.norm(Lin(0, key))
                if isinstance(n, int):
                    if (lo is not None and n < lo) or (hi is not None and n > hi):
                        return False
                    continue
                k2, neg, c = ivkey(n)
                if neg:
                    lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
                    c = -c
                lo = None if lo is None else lo - c
                hi = None if hi is None else hi - c
                l2, h2 = self.iv.get(k2, (None, None))
                if l2 is not None and (lo is None or l2 > lo):
                    lo = l2
                if h2 is not None and (hi is None or h2 < hi):
                    hi = h2
                if lo is not None and hi is not None and lo > hi:
                    return False
                self.iv[k2] = (lo, hi)
        return True

    def refute(self, c):
        """values of the unknowns, consistent with the known facts about them, for which c does not hold (as text);
        None if there are none among those tried, False if c cannot be evaluated"""
        if self.decide(c) is False:
            return ""
        rel = set()
        atoms_of(c, rel, self)
        facts = [(Lin(0, k), lo, hi) for k, (lo, hi) in self.iv.items()]
        # facts about the same unknowns
        use = []
        for _ in range(3):
            for f in facts:
                s = set()
                atoms_of(f[0], s, self)
                if s & rel and f not in use:
                    use.append(f)
                    rel |= s
        # what results of operations are known to be equal to
        known = []
        for a, e in self.subst.items():
            if a.kind == "op" and a.key[0] in EVALUABLE:
                s = set()
                for x in a.key[1:]:
                    if isinstance(x, (Lin, Cond)):
                        atoms_of(x, s, self)
                if isinstance(e, Lin):
                    atoms_of(e, s, self)
                if s & rel and len(rel | s) <= 6:
                    known.append((a, e))
                    rel |= s
        if len(rel) > 6:
            return False
        rel = sorted(rel, key=lambda a: a.id)
        cand = []
        for a in rel:
            lo, hi = self.atom_range(a)
            if a.kind == "region":
                cand.append([65536 * (len(cand) + 1) + x for x in (0, 16, 4096, 8208)])
                continue
            al = (a.extra or {}).get("align", 1)
            if lo is None:
                lo = 0 if hi is None else hi - 64
            lo = (lo + al - 1) // al * al
            vs = [lo + al * i for i in (0, 1, 2, 3, 7, 8, 15, 16, 31, 4999)]
            for f, l, h in use:                       # about as large as the facts say
                if any(x is a or x.kind == "op" and x.key[0] == "alignup" and isinstance(x.key[1], Lin) and any(
                        z is a for z, _ in x.key[1].t) for x, _ in f.t):
                    for x in (l, h):
                        if x is not None and 0 < x < 2**40:
                            vs += [y // al * al for y in (x, x - 1, x - 17, x // 2) if y // al * al >= lo]
            vs = list(dict.fromkeys(vs))[:16]
            cand.append([v for v in vs if hi is None or v <= hi])
        import itertools
        evaluated = 0
        for vals in itertools.islice(itertools.product(*cand), 20000):
            m = dict(zip(rel, vals))
            ok = True
            for f, lo, hi in use:
                v = evaluate(f, m, self)
                if v is None or (lo is not None and v < lo) or (hi is not None and v > hi):
                    ok = False
                    break
            if ok:
                for d in self.neq:
                    v = evaluate(d, m, self)
                    if v == 0:
                        ok = False
                        break
            if ok:
                for a, e in known:
                    x, y = eval_op(a.key, m, self), e if isinstance(e, int) else evaluate(e, m, self)
                    if x is not None and y is not None and (x - y) % 2**64:
                        ok = False
                        break
            if ok:
                v = evaluate(c, m, self)
                if v is False:
                    return ", ".join("%s=%d" % (a.name, v) for a, v in m.items())
                evaluated += v is True
        return None if evaluated >= 3 else False

    # ---- memory
    def region_w(self, a):
        r = self.mem[a]
        if a not in self.own:
            r = r.copy()
            self.mem[a] = r
            self.own.add(a)
        return r

    def new_region(self, kind, name, size=None, info=None):
        a = Atom("region", name)
        r = Region(a, kind, size, info)
        self.mem[a] = r
        self.own.add(a)
        return a


def ivkey(d):
    """canonical key of a difference: (terms with first coefficient positive), negated?, constant"""
    if d.t[0][1] < 0:
        return tuple((a, -k) for a, k in d.t), True, d.c
    return d.t, False, d.c


def atoms_of(v, out, st):
    if isinstance(v, Cond):
        for x in v.k[1:]:
            if isinstance(x, (Cond, Lin)):
                atoms_of(x, out, st)
            elif isinstance(x, Atom):
                out.add(x)
        return
    v = st.norm(v)
    if isinstance(v, Lin):
        for a, _ in v.t:
            if a.kind == "op" and a.key[0] in EVALUABLE:
                for x in a.key[1:]:
                    if isinstance(x, (Lin, Cond)):
                        atoms_of(x, out, st)
            else:
                out.add(a)


def piece(st, v, off, size):
    """the bytes [off, off+size) of a value"""
    v = st.norm(v) if isinstance(v, Lin) else v
    if isinstance(v, int):
        return signed(((v & ((1 << 64) - 1)) >> (8 * off)) & ((1 << (8 * size)) - 1), 8 * size)
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].kind == "op":
        k = v.t[0][0].key
        if k[0] == "join":
            inside = []
            for o, z, x in k[2]:
                if o <= off and off + size <= o + z:
                    return x if (o, z) == (off, size) else piece(st, x, off - o, size)
                if off <= o and o + z <= off + size:
                    inside.append((o - off, z, x))
                elif o < off + size and off < o + z:
                    return op("part", v, off, size)
            return op("join", size, tuple(inside))
        if k[0] == "part":
            return piece(st, k[1], k[2] + off, size)
    return op("part", v, off, size)


def is_join(v):
    return isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].kind == "op" and v.t[0][0].key[0] == "join"


EVALUABLE = ("alignup", "padlen", "bin", "part", "trunc", "b2i")


def eval_op(y, m, st):
    x = None
    if y[0] == "alignup":
        e = evaluate(y[1], m, st)
        x = None if e is None else -(-e // y[2]) * y[2]
    elif y[0] == "padlen":
        e = evaluate(y[1], m, st)
        x = None if e is None else (-e) % y[2]
    elif y[0] == "bin":
        p, q = evaluate(y[2], m, st), evaluate(y[3], m, st)
        if p is not None and q is not None:
            z = binop(st, y[1], p, q, y[4])
            x = z if isinstance(z, int) else None
    elif y[0] == "part":
        e = evaluate(y[1], m, st)
        x = None if e is None else (e >> (8 * y[2])) & ((1 << (8 * y[3])) - 1)
    elif y[0] == "trunc":
        e = evaluate(y[1], m, st)
        x = None if e is None else signed(e, y[2])
    elif y[0] == "b2i":
        e = evaluate(y[1], m, st)
        x = None if e is None else int(e)
    return x


def evaluate(v, m, st):
    """value of a term or condition under an assignment of its unknowns, None if unknown"""
    if isinstance(v, Cond):
        k = v.k
        if k[0] == "eq":
            x = evaluate(k[1], m, st)
            return None if x is None else x % 2**64 == 0
        if k[0] in ("lt", "le"):
            x, y = evaluate(k[2], m, st), evaluate(k[3], m, st)
            if x is None or y is None:
                return None
            if not k[1]:
                x, y = x % 2**64, y % 2**64
            return x < y if k[0] == "lt" else x <= y
        if k[0] == "not":
            x = evaluate(k[1], m, st)
            return None if x is None else not x
        if k[0] in ("and", "or"):
            x, y = evaluate(k[1], m, st), evaluate(k[2], m, st)
            if x is None or y is None:
                return None
            return x and y if k[0] == "and" else x or y
        if k[0] == "xor":
            x, y = evaluate(k[1], m, st), evaluate(k[2], m, st)
            return None if x is None or y is None else x != y
        return None
    v = st.norm(v)
    if isinstance(v, int):
        return v
    if not isinstance(v, Lin):
        return None
    r = v.c
    for a, k in v.t:
        x = m.get(a)
        if x is None and a.kind == "op":
            x = eval_op(a.key, m, st)
        if x is None:
            return None
        r += k * x
    return r


def same_arith(st, d):
    """d with remainders and roundings written as divisions"""
    d = st.norm(d)
    if isinstance(d, int):
        return d
    for _ in range(8):
        for a, k in d.t:
            if a.kind != "op":
                continue
            y = a.key
            r = None
            if y[0] == "bin" and y[1] == "urem" and isinstance(y[3], int) and y[3] > 1 and y[4] == 64:
                x = same_arith(st, y[2])
                r = add(x, op("bin", "udiv", x, y[3], 64), -y[3]) if isinstance(x, Lin) else None
            elif y[0] == "alignup":
                x = add(y[1], y[2] - 1)
                x = same_arith(st, x)
                r = mulc(op("bin", "udiv", x, y[2], 64), y[2]) if isinstance(x, Lin) else None
            elif y[0] == "padlen":
                x = op("alignup", y[1], y[2])
                r = add(x, y[1], -1)
            elif y[0] == "part" and isinstance(y[1], Lin):
                x = same_arith(st, y[1])
                if x != y[1] and isinstance(x, Lin):
                    r = op("part", x, *y[2:])
            if r is not None:
                d = add(add(d, lin_of(a), -k), r, k)
                break
        else:
            return d
        if isinstance(d, int):
            return d
    return d


def _is_pow2(x):
    return x > 0 and (x & (x - 1)) == 0


def binop(st, o, a, b, bits):
    a, b = st.norm(a), st.norm(b)
    if isinstance(a, Cond):
        a = op("b2i", a) if o in ("add", "sub", "mul") else a
    if isinstance(b, Cond):
        b = op("b2i", b) if o in ("add", "sub", "mul") else b
    if isinstance(a, Cond) or isinstance(b, Cond) or bits == 1:
        ca = a if isinstance(a, Cond) else (a if isinstance(a, int) else Cond("not", Cond("eq", a)))
        cb = b if isinstance(b, Cond) else (b if isinstance(b, int) else Cond("not", Cond("eq", b)))
        if o == "and":
            if isinstance(ca, int):
                return cb if ca else 0
            if isinstance(cb, int):
                return ca if cb else 0
            return Cond("and", ca, cb)
        if o == "or":
            if isinstance(ca, int):
                return 1 if ca else cb
            if isinstance(cb, int):
                return 1 if cb else ca
            return Cond("or", ca, cb)
        if o == "xor":
            if isinstance(ca, int):
                ca, cb = cb, ca
            if isinstance(cb, int):
                if isinstance(ca, int):
                    return (ca ^ cb) & 1
                return Cond("not", ca) if cb & 1 else ca
            return Cond("xor", ca, cb)
    if isinstance(a, int) and isinstance(b, int):
        m = (1 << bits) - 1
        ua, ub = a & m, b & m
        if o == "add":
            return signed(a + b, bits)
        if o == "sub":
            return signed(a - b, bits)
        if o == "mul":
            return signed(a * b, bits)
        if o == "and":
            return signed(ua & ub, bits)
        if o == "or":
            return signed(ua | ub, bits)
        if o == "xor":
            return signed(ua ^ ub, bits)
        if o == "shl":
            return signed(ua << ub, bits) if ub < bits else 0
        if o == "lshr":
            return signed(ua >> ub, bits) if ub < bits else 0
        if o == "ashr":
            return signed(a >> ub, bits) if ub < bits else 0
        if ub != 0 or b != 0:
            if o == "udiv":
                return signed(ua // ub, bits)
            if o == "urem":
                return signed(ua % ub, bits)
            if o == "sdiv":
                q = abs(a) // abs(b)
                return signed(q if (a < 0) == (b < 0) else -q, bits)
            if o == "srem":
                r = abs(a) % abs(b)
                return signed(-r if a < 0 else r, bits)
        return op("bin", o, a, b, bits)
    if o == "add":
        r = add(a, b)
        if isinstance(r, Lin):
            # x + urem(c - urem(x,c), c) == alignup(x,c)
            for t, k in r.t:
                if k == 1 and t.kind == "op" and t.key[0] == "padlen":
                    x, c = t.key[1], t.key[2]
                    rest = add(r, lin_of(t), -1)
                    if rest == x:
                        return roundup(st, x, c)
        return as_rem(r)
    if o == "sub":
        return as_rem(add(a, b, -1))
    if o == "mul":
        if isinstance(b, int):
            if isinstance(a, Lin) and a.c == 0 and len(a.t) == 1 and a.t[0][1] == 1 and a.t[0][0].kind == "op":
                k = a.t[0][0].key
                if k[0] == "bin" and k[1] == "udiv" and k[3] == b and isinstance(k[2], Lin) and _is_pow2(b):
                    return roundup(st, add(k[2], -(b - 1)), b)
            return mulc(a, b)
        if isinstance(a, int):
            return binop(st, "mul", b, a, bits)
    if o == "shl" and isinstance(b, int):
        return binop(st, "mul", a, 1 << b, bits)
    if o == "and" and isinstance(b, int):
        if b == 0:
            return 0
        if b == -1:
            return a
        if b < 0 and _is_pow2(-b):
            return roundup(st, add(a, -((-b) - 1)), -b)
        if b > 0 and _is_pow2(b + 1):
            return binop(st, "urem", a, b + 1, bits)
        if isinstance(a, Lin) and len(a.t) == 1 and a.t[0][0].kind == "op" and a.t[0][0].key[0] == "b2i" and a.c == 0 and a.t[0][1] == 1 and b & 1:
            return a
    if o == "and" and isinstance(a, int):
        return binop(st, "and", b, a, bits)
    if o == "or" and isinstance(b, int) and b == 0:
        return a
    if o == "or" and isinstance(a, int) and a == 0:
        return b
    if o == "lshr" and isinstance(b, int) and b % 8 == 0 and is_join(a) and b // 8 < a.t[0][0].key[1]:
        return piece(st, a, b // 8, a.t[0][0].key[1] - b // 8)
    if o in ("lshr",) and isinstance(b, int):
        return binop(st, "udiv", a, 1 << b, bits)
    if o == "ashr" and isinstance(b, int):
        o, b = "sdiv", 1 << b
    if o in ("udiv", "sdiv") and isinstance(b, int) and b > 0:
        if b == 1:
            return a
        if isinstance(a, Lin) and a.c % b == 0 and all(k % b == 0 for _, k in a.t):
            return Lin(a.c // b, tuple((x, k // b) for x, k in a.t))
    if o == "urem" and isinstance(b, int):
        if b == 1:
            return 0
        if b > 1:
            m = rem_known(st, a, b)
            if m is not None:
                return m
            # (c - urem(x,c)) urem c
            if isinstance(a, Lin) and a.c == b and len(a.t) == 1 and a.t[0][1] == -1 and a.t[0][0].kind == "op":
                k = a.t[0][0].key
                if k[0] == "bin" and k[1] == "urem" and k[3] == b:
                    return op("padlen", k[2], b)
    if o == "urem":
        lo, hi = st.range_of(a)
        if isinstance(b, int) and lo is not None and hi is not None and 0 <= lo and hi < b:
            return a
    return op("bin", o, a, b, bits)


def roundup(st, x, c):
    """x rounded up to a multiple of c: plain arithmetic when its remainder is known"""
    r = rem_known(st, x, c)
    return op("alignup", x, c) if r is None else add(x, (-r) % c)


def as_rem(r):
    """x - c*(x/c) is x mod c"""
    if not isinstance(r, Lin) or len(r.t) < 2:
        return r
    for t, k in r.t:
        if t.kind != "op":
            continue
        y = t.key
        if y[0] == "bin" and y[1] == "udiv" and isinstance(y[3], int) and y[3] > 1 and y[4] == 64:
            x, c, q = y[2], y[3], -k // y[3]
            if k % c:
                continue
        elif y[0] == "alignup":
            c = y[2]
            x, q = add(y[1], c - 1), -k
        else:
            continue
        if not isinstance(x, Lin):
            continue
        d = dict(r.t)
        if all(d.get(a) == q * f for a, f in x.t):
            return add(add(add(r, lin_of(t), -k), x, -q), op("bin", "urem", x, c, 64), q)
    return r


def rem_known(st, a, c):
    """a mod c if derivable from alignment facts (region bases are 16-aligned)"""
    a = st.norm(a)
    # replace terms by congruent ones
    for _ in range(8):
        if isinstance(a, int):
            return a % c
        for t, k in a.t:
            r = None
            if k % c == 0 or (t.kind == "region" and (16 * k) % c == 0) or (
                    t.kind == "sym" and t.extra and (t.extra.get("align", 1) * k) % c == 0):
                r = 0
            elif t.kind == "op" and t.key[0] == "alignup" and (t.key[2] * k) % c == 0:
                r = 0
            elif t.kind == "op" and t.key[0] == "padlen" and t.key[2] % c == 0:
                r = mulc(t.key[1], -1)
            elif t.kind == "op" and t.key[0] == "bin" and t.key[1] == "urem" and isinstance(t.key[3], int) and t.key[3] % c == 0:
                r = t.key[2]
            elif t.kind == "op" and t.key[0] == "bin" and t.key[1] == "udiv" and isinstance(t.key[3], int) and k % t.key[3] == 0 \
                    and t.key[3] > 0 and c <= t.key[3] and t.key[3] % c == 0:
                r = 0
            if r is not None:
                a = st.norm(add(add(a, lin_of(t), -k), r, k))
                break
        else:
            # coefficients modulo c may cancel
            b = mklin(a.c % c, {t: k % c for t, k in a.t})
            if isinstance(b, int):
                return b % c
            # a remainder that was looked at before
            for sh in range(min(c, 64)):
                x = add(b, sh - b.c)
                w = _ops.get(("bin", "urem", x, c, 64))
                if w is not None:
                    v = st.norm(lin_of(w))
                    if isinstance(v, int):
                        return (v - sh + b.c) % c
            return None
    return a % c if isinstance(a, int) else None
