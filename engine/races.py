"""Happens-before bookkeeping. For every pair of threads (i, j): which memory accesses of i are not yet ordered before
what j does. A release by i on an atomic object (or mutex) marks what j may learn from it; an acquire by j of that object
takes these accesses out. A conflicting access that is still in the set is a data race, whatever the hardware does."""
from .core import Abort


def cls(F):
    c = _cls.get(F)
    if c is None:
        f = F.file or ""
        if "/kelcoro/" in f:
            c = "lib"
        elif "drivers/" in f:
            c = "drv"
        else:
            c = "std"
        _cls[F] = c
    return c


_cls = {}


def owner_class(st):
    for a in reversed(st.acts):
        c = cls(a.fn)
        if c != "std":
            return c
    return "drv"


def start(st, child):
    """thread child is created by the current thread: everything the parent did or knows is ordered before it"""
    r = st.race
    i = st.cur
    ids = st.tids
    for k in ids:
        if k != i and (k, i) in r:
            r[(k, child)] = {b: dict(v) for b, v in r[(k, i)].items()}
    st.tids = ids + (child,)


READ, WRITE, AREAD, AWRITE = 0, 1, 2, 3
NAMES = ("read", "write", "atomic read", "atomic write")


def conflict(k1, k2):
    return not (k1 >= 2 and k2 >= 2) and bool((k1 | k2) & 1)


def access(eng, st, kind, base, sym, off, size):
    i = st.cur
    r = st.race
    for j in st.tids:
        if j == i:
            continue
        d = r.get((j, i))
        if d:
            c = d.get(base)
            if c:
                for (s2, o2, k2), (z2, l2, at) in c.items():
                    if o2 < off + size and off < o2 + z2 and s2 == sym and conflict(kind, k2):
                        race(eng, st, NAMES[kind], NAMES[k2], base, at)
    me = None
    for j in st.tids:
        if j == i:
            continue
        d = r.get((i, j))
        if d is None:
            d = r[(i, j)] = {}
        c = d.get(base)
        if c is None:
            c = d[base] = {}
        if me is None:
            w = eng.where(st, 12)
            lib = next((x for x in w if "/kelcoro/" in (x[1] or "")), w[0])
            me = lib[1:3]
        k = (sym, off, kind)
        old = c.get(k)
        c[k] = (max(size, old[0]) if old else size, frozenset(), me)


def race(eng, st, mine, other, base, at):
    eng.obligations += 1
    eng.violate(st, "data-race", "%s of %s is not ordered with the %s of it by another thread (%s:%s)" % (
        mine, base.name.split("#")[0], other, (at[0] or "?").split("/")[-1], at[1]))
    raise Abort("violation")


def kill(eng, st, base, what, quiet=False):
    """the object ends its life: all accesses of other threads must be ordered before"""
    i = st.cur
    r = st.race
    for j in st.tids:
        if j == i:
            continue
        d = r.get((j, i))
        if d and base in d and not quiet:
            for (s2, o2, k2), (z2, l2, at) in d[base].items():
                race(eng, st, what, NAMES[k2], base, at)
    forget(st, base)


def forget(st, base):
    for d in st.race.values():
        d.pop(base, None)
    for loc in [l for l in st.hist if l[0] is base]:
        del_hist(st, loc, st.hist[loc])


def _mark(st, i, loc, pred=None):
    r = st.race
    for (a, j), d in r.items():
        if j == i:
            continue
        if a != i:
            # what i knows of a is passed on as well
            known = r.get((a, i), {})
        for b, c in d.items():
            for k, (z, l, at) in list(c.items()):
                if a != i and b in known and k in known[b]:
                    continue
                if pred is not None and not pred(l):
                    continue
                if loc not in l:
                    c[k] = (z, l | {loc}, at)


# ---- values which a thread that is not synchronised with the last writers may still read
# history of an atomic object: ((token, value, size, seq_cst) ...), oldest first; token stands for "this write", it is kept in
# the happens-before sets like an access: as long as it is in race[(i, j)], thread j need not know of the write.
def written(st, loc, old, new, size, order):
    # the reference counts of the standard library are right by themselves
    if any("_Sp_counted" in a.fn.dem for a in st.acts[-3:]):
        return
    h = st.hist.get(loc)
    if h is None or h[-1][2] != size:
        if h is not None:
            drop(st, [t for t, *_ in h])
        h = ((None, old, size, False),)
    i = st.cur
    n = h[-1][0][2] + 1 if h[-1][0] is not None else 0
    tok = ("W", loc, n)
    for j in st.tids:
        if j != i:
            st.race.setdefault((i, j), {})[tok] = {((), 0, READ): (1, frozenset(), None)}
    # what whoever reads this very value learns
    for d in st.race.values():
        for c in d.values():
            for k, (z, l, at) in c.items():
                if loc in l:
                    c[k] = (z, l | {tok}, at)
    h = h + ((tok, new, size, order == "seq_cst"),)
    # only what somebody may still read is kept
    keep = 1 + max([reach(st, h, j) for j in st.tids])
    keep = min(keep, 4)
    if keep == 1:
        del_hist(st, loc, h)
        return
    gone = [t for t, *_ in h[:-keep]] + [h[-keep][0]]
    drop(st, gone)
    e = h[-keep]
    st.hist[loc] = h[-keep:]


def del_hist(st, loc, h):
    st.hist.pop(loc, None)
    drop(st, [t for t, *_ in h])


def drop(st, toks):
    toks = set(toks)
    toks.discard(None)
    if not toks:
        return
    for d in st.race.values():
        for t in toks:
            d.pop(t, None)
        for c in d.values():
            for k, (z, l, at) in c.items():
                if l & toks:
                    c[k] = (z, l - toks, at)


def known(st, tok, j):
    for i in st.tids:
        if i != j and tok in st.race.get((i, j), ()):
            return False
    return True


def reach(st, h, j, sc=False):
    """how many steps back from the last value thread j may still read"""
    n = 0
    for t, v, z, c in reversed(h[1:]):
        if (sc and c) or known(st, t, j):
            break
        n += 1
    return n


def choices(st, loc, size, order):
    h = st.hist.get(loc)
    if h is None or h[-1][2] != size:
        return 0
    return reach(st, h, st.cur, order == "seq_cst")


def read_stale(st, loc, back, order):
    """the current thread reads the value 'back' steps before the last one"""
    h = st.hist[loc]
    tok, v, z, c = h[-1 - back]
    if tok is not None and order in ACQ:
        acquire(st, tok)
    seen(st, h[:len(h) - back])
    return v


def seen(st, h):
    # coherence: nothing older can be read any more by this thread or those that hear of it
    j = st.cur
    for t, *_ in h:
        if t is not None:
            for i in st.tids:
                d = st.race.get((i, j))
                if d:
                    d.pop(t, None)


def _unmark(st, loc):
    for d in st.race.values():
        for c in d.values():
            for k, (z, l, at) in list(c.items()):
                if loc in l:
                    c[k] = (z, l - {loc}, at)


def release(st, loc):
    _mark(st, st.cur, loc)


def acquire(st, loc):
    i = st.cur
    for (a, j), d in st.race.items():
        if j != i:
            continue
        for b in list(d):
            c = d[b]
            for k in [k for k, e in c.items() if loc in e[1]]:
                del c[k]
            if not c:
                del d[b]


def sync_all(st):
    """everything any thread did so far is ordered before what the current thread does next"""
    for (a, j) in list(st.race):
        if j == st.cur:
            del st.race[(a, j)]


ACQ = ("acquire", "acq_rel", "seq_cst", "consume")
REL = ("release", "acq_rel", "seq_cst")


def on_event(eng, st, kind, kw):
    if len(st.tids) < 2:
        return
    if kind in ("aload", "astore", "rmw", "cas") and owner_class(st) == "lib":
        access(eng, st, AREAD if kind == "aload" or (kind == "cas" and not kw["ok"]) else AWRITE, kw["base"], kw["sym"], kw["off"], 1)
    if kind == "aload" and kw.get("stale"):
        return
    if kind == "aload":
        h = st.hist.get((kw["base"], kw["sym"], kw["off"]))
        if h:
            seen(st, h)
        read(st, (kw["base"], kw["sym"], kw["off"]), kw["order"])
        if kw.get("size", 1) > 4:       # one load that covers several atomic objects
            for o in range(4, kw["size"], 4):
                read(st, (kw["base"], kw["sym"], kw["off"] + o), kw["order"])
    elif kind == "astore":
        l = (kw["base"], kw["sym"], kw["off"])
        write(st, l, kw["order"], False)
        written(st, l, kw["old"], kw["val"], kw["size"], kw["order"])
    elif kind == "rmw":
        l = (kw["base"], kw["sym"], kw["off"])
        read(st, l, kw["order"])
        write(st, l, kw["order"], True)
        written(st, l, kw["old"], kw["new"], kw["size"], kw["order"])
    elif kind == "cas":
        l = (kw["base"], kw["sym"], kw["off"])
        if kw["ok"]:
            read(st, l, kw["order"])
            write(st, l, kw["order"], True)
            written(st, l, kw["old"], kw["new"], kw["size"], kw["order"])
        else:
            h = st.hist.get(l)
            if h:
                seen(st, h)
            read(st, l, kw["forder"])
    elif kind == "fence":
        i = st.cur
        if kw["order"] in ACQ:
            acquire(st, ("A", i))
        if kw["order"] in REL:
            _mark(st, i, ("F", i))
        if kw["order"] == "seq_cst":
            # writes before an earlier such fence are seen after this one
            for (a, j), d in st.race.items():
                for t, c in d.items():
                    if isinstance(t, tuple):
                        for k, (z, l, at) in list(c.items()):
                            if j == i and "SC" in l:
                                c[k] = (z, l | {"SCX"}, at)
                            elif a == i or known(st, t, i):
                                c[k] = (z, l | {"SC"}, at)
            for (a, j), d in st.race.items():
                if j == i:
                    for t in [t for t, c in d.items() if isinstance(t, tuple) and any("SCX" in e[1] for e in c.values())]:
                        del d[t]
    elif kind == "lock":
        acquire(st, kw["key"])
    elif kind in ("unlock", "cv_wait"):
        release(st, kw["key"])
    elif kind == "free" and kw.get("mem") is not None:
        kill(eng, st, kw["mem"], "deallocation")
    elif kind == "frame_free":
        co = st.coros.get(kw["h"])
        if co is not None:
            kill(eng, st, kw["h"], "destruction of a coroutine frame")
            for x in eng.frame_regions(st, co):
                if x is not None:
                    kill(eng, st, x, "destruction of a coroutine frame holding an object")
            for x in co.allocas:
                forget(st, x)


def read(st, loc, order):
    i = st.cur
    if order in ACQ:
        acquire(st, loc)
    else:
        # an acquire fence later on makes this read count
        for (a, j), d in st.race.items():
            if j == i:
                for c in d.values():
                    for k, (z, l, at) in list(c.items()):
                        if loc in l:
                            c[k] = (z, l | {("A", i)}, at)


def write(st, loc, order, rmw):
    i = st.cur
    if not rmw:
        _unmark(st, loc)
    if order in REL:
        release(st, loc)
    else:
        _mark(st, i, loc, lambda l: ("F", i) in l)


def on_access(eng, st, kind, base, sym, off, size, val, order):
    if len(st.tids) < 2:
        return
    r = st.mem.get(base)
    if r is not None and (r.info.get("const") or r.info.get("tls")):
        return
    if owner_class(st) != "lib":
        return
    access(eng, st, READ if kind == "load" else WRITE, base, sym, off, size)


def install(eng):
    eng.hooks.append(on_event)
    eng.access_hooks.append(on_access)
