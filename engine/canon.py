"""Canonical form of an abstract state up to renaming of unknowns: two states with the same form have the same futures."""
from .core import Atom, Lin, Cond
from .ir import live_in, succs, _ops, dead_allocas_at

SKIP = {"__nheap", "__ncoro", "__nthreads", "__nosync", "__preempt", "__nthr"}


def live_at(F, b, i):
    """SSA ids needed after instruction i of block b"""
    cache = getattr(F, "model", None)
    key = (F.name, b, i)
    r = _cache.get(key)
    if r is not None:
        return r
    live = live_in(F)
    out = set()
    for s in succs(F, b):
        out |= live[s]
        for ins in F.blocks[s]:
            if ins[0] != "phi":
                break
            for p, v in ins[4]:
                if p == b and isinstance(v, int):
                    out.add(v)
    blk = F.blocks[b]
    for j in range(len(blk) - 1, i - 1, -1):
        ins = blk[j]
        if j > i:
            out.discard(ins[2])
        if ins[0] != "phi":
            for v in _ops(ins):
                out.add(v)
    out.discard(blk[i][2])
    for v in _ops(blk[i]):
        out.add(v)
    r = _cache[key] = sorted(out)
    return r


_cache = {}
DEBUG = None


def signature(eng, st):
    num = {}
    todo = []

    def atom(a):
        if a.kind == "func":
            return ("F", a.name)
        if a in num:
            return num[a]
        if a.kind == "op":
            # structural
            return ("op",) + tuple(key(x) for x in a.key)
        r = st.mem.get(a)
        if r is not None and r.kind == "global":
            n = ("G", a.name)
        else:
            n = len(num)
        num[a] = n
        if r is not None:
            todo.append(a)
        elif a in st.coros:
            todo.append(a)
        return n

    def key(v):
        if v is None or isinstance(v, (int, str, bool)):
            return v
        if isinstance(v, Lin):
            v = st.norm(v)
            if isinstance(v, int):
                return v
            if len(v.t) == 1:
                return ("L", v.c, atom(v.t[0][0]), v.t[0][1])
            return ("L", v.c) + tuple(sorted(((atom(a), k) for a, k in v.t), key=repr))
        if isinstance(v, Cond):
            d = st.decide(v)
            if d is not None:
                return int(d)
            return ("C",) + tuple(key(x) for x in v.k)
        if isinstance(v, Atom):
            return atom(v)
        if isinstance(v, (tuple, list)):
            return ("T",) + tuple(key(x) for x in v)
        if isinstance(v, (frozenset, set)):
            return ("S",) + tuple(sorted((key(x) for x in v), key=repr))
        if isinstance(v, dict):
            return ("D",) + tuple((k, key(x)) for k, x in sorted(v.items(), key=lambda kv: repr(kv[0])))
        return repr(v)

    sig = []
    later = []      # objects whose contents no longer matter unless something else points to them
    acts = [(0, a) for a in st.acts]
    if st.thr:
        sig.append(("cur", st.cur, st.curname[0] and atom(st.curname[0])))
        for j, t in sorted(st.thr.items()):
            sig.append(("thr", j, key(t.block), key(t.caught), key(t.exc), t.unc, t.name and atom(t.name), len(t.acts)))
            acts += [(j, a) for a in t.acts]
    for n, (thr, a) in enumerate(acts):
        sig.append((a.fn.name, a.b, a.i, a.mode, a.tag, a.pend is None))
        env = a.env
        dead = dead_allocas_at(a.fn, a.b, a.i)
        for x in live_at(a.fn, a.b, a.i):
            if x in env:
                if x in dead:
                    later.append((n, x, env[x]))
                else:
                    sig.append((x, key(env[x])))
        if a.coro is not None:
            co = st.coros.get(a.coro)
            sig.append(("co", atom(a.coro), a.gen == co.gen if co else None))
        later.append((n, None, a))
    for k in sorted((k for k in st.mon if k not in SKIP and st.mon[k] not in (0, None, ())), key=repr):
        sig.append((repr(k) if not isinstance(k, tuple) else tuple(key(x) for x in k), key(st.mon[k])))
    sig.append(("inj", tuple((f, key(tuple(a))) for f, a in st.inj), st.inj_busy, key(st.caught), key(st.exc)))
    pos = {}        # earlier values that may still be read
    for loc, h in st.hist.items():
        ln = (repr(atom(loc[0])), repr(key(Lin(0, loc[1])) if loc[1] else 0), loc[2])
        for n, e in enumerate(h):
            if e[0] is not None:
                pos[e[0]] = ("W",) + ln + (n,)
        sig.append(("hist", ln, tuple((repr(key(e[1])), e[2], e[3]) for e in h)))
    done = set()
    while todo:
        a = todo.pop(0)
        if a in done:
            continue
        done.add(a)
        r = st.mem.get(a)
        if r is not None:
            cells = []
            for (sy, off), (z, v) in sorted(r.cells.items(), key=lambda kv: (repr(kv[0][0]), kv[0][1])) if r.state not in ("ended", "freed") else ():
                if r.kind == "stack" and isinstance(v, Lin) and len(v.t) == 1 and v.t[0][0].kind == "undef":
                    continue
                cells.append((key(Lin(0, sy)) if sy else 0, off, z, key(v)))
            info = r.info
            sig.append(("R", num.get(a), r.kind, r.state, r.size, key(info.get("asize")), key(info.get("res")), info.get("etype"), tuple(cells)))
        co = st.coros.get(a)
        if co is not None:
            parked = co.status in ("suspended", "done")
            sig.append(("C", num.get(a), co.fn.name, co.status, co.block if parked else 0, co.idx if parked else 0, key(co.mem), key(co.promise)))
            if co.status in ("suspended", "done"):
                dead = dead_allocas_at(co.fn, co.block, co.idx)
                for x in live_at(co.fn, co.block, co.idx):
                    if x in co.env:
                        if x in dead:
                            later.append((num.get(a), x, co.env[x]))
                        else:
                            sig.append((x, key(co.env[x])))
                later.append((num.get(a), None, co))
    for n, x, o in later:
        if x is None:
            if hasattr(o, "stack"):
                sig.append((n, tuple(sorted(repr(num[r]) for r in o.stack if r in num)), tuple(sorted(repr(num[r]) for r in o.started if r in num))))
            else:
                sig.append((n, tuple(sorted(repr(num[r]) for r in o.resident if r in num))))
        else:
            v = st.norm(o) if isinstance(o, Lin) else o
            if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][0] in num:
                sig.append((n, x, v.c, num[v.t[0][0]]))
    def label(x):
        if len(x) == 3:
            if x[0] == "W":
                return repr(pos.get(x))
            return repr((num.get(x[0], x[0].name), x[2]))
        return repr(x)
    for k, d in sorted(st.race.items()):
        for b, c in d.items():
            nb = pos.get(b) if isinstance(b, tuple) else num.get(b)
            if nb is not None:
                sig.append(("race", k, repr(nb), tuple(sorted(((repr(key(Lin(0, s)) if s else 0), o, w, z, tuple(sorted(
                    label(x) for x in l))) for (s, o, w), (z, l, at) in c.items()), key=repr))))
    # memory that is still allocated but no longer referenced
    lost = sum(1 for a, r in st.mem.items() if r.kind in ("heap", "frame") and r.state in ("live", "handed") and a not in done)
    sig.append(("lost", lost))
    facts = []
    for d in st.neq:
        if all(a in num for a, _ in d.t if a.kind != "op"):
            facts.append(("ne", d.c if d.t[0][1] > 0 else -d.c) + tuple(sorted(((repr(atom(a)), abs(k)) for a, k in d.t))))
    for kk, (lo, hi) in st.iv.items():
        if all(a in num for a, _ in kk if a.kind != "op"):
            facts.append(("iv", lo, hi) + tuple(sorted(((repr(atom(a)), k) for a, k in kk))))
    facts.sort(key=repr)
    sig.append(tuple(facts))
    if DEBUG is not None:
        DEBUG.append(sig)
    return hash(repr(sig))
