"""Several threads in one abstract state: every thread has its own activation stack; control may move to another thread at
every synchronisation operation (a bounded number of times) and must move when the current one blocks or ends."""
from .core import *
from .core import Atom, Lin
from . import races


class Thr:
    __slots__ = ("acts", "caught", "exc", "unc", "block", "name", "state")

    def copy(self):
        t = Thr()
        t.acts = [a.copy() for a in self.acts]
        t.caught, t.exc, t.unc, t.block, t.name, t.state = self.caught, self.exc, self.unc, self.block, self.name, self.state
        return t


def spawn(eng, st, f, args, name=None, state=None):
    n = st.mon.get("__nthr", 0) + 1
    st.mon["__nthr"] = n
    t = Thr()
    save, st.acts = st.acts, []
    eng.push(st, f, args)
    st.acts[0].tag = "t%d" % n
    t.acts, st.acts = st.acts, save
    t.caught, t.exc, t.unc, t.block = (), None, 0, None
    t.name, t.state = name, state
    st.thr[n] = t
    if not st.tids:
        st.tids = (0,)
    races.start(st, n)
    eng.ev(st, "spawn", thread=n, fn=f.dem)
    return n


def stash(st):
    t = Thr()
    t.acts, t.caught, t.exc, t.unc, t.block = st.acts, st.caught, st.exc, st.mon.get("__uncaught", 0), None
    t.name, t.state = st.curname
    return t


def activate(st, j):
    t = st.thr.pop(j)
    st.acts, st.caught, st.exc = t.acts, t.caught, t.exc
    st.mon["__uncaught"] = t.unc
    st.curname = (t.name, t.state)
    st.cur = j
    if t.block is not None and t.block[0] == "idle":
        st.mon["__idle"] = j
    st.mon["__nosync"] = (len(st.acts), st.steps + 1)


def switch_to(eng, st, j):
    i = st.cur
    st.thr[i] = stash(st)
    activate(st, j)
    eng.ev(st, "switch", frm=i, to=j)


def runnable(st, t):
    b = t.block
    if b is None:
        return True
    if b[0] == "mutex":
        return b[1] not in dict(st.mon.get("__locks", ()))
    if b[0] == "join":
        return b[1] in st.mon.get("__finished", ())
    if b[0] == "all":
        return False   # set runnable when the last other thread ends
    if b[0] == "flag":
        base, sym, off = b[1]
        c = st.mem[base].cells.get((sym, off)) if base in st.mem else None
        return c is not None and st.norm(c[1]) == 1
    return False


def candidates(st):
    out = []
    for j, t in sorted(st.thr.items()):
        if t.block is not None and t.block[0] == "all":
            if len(st.thr) == 1 and st.cur is None:
                out.append(j)
        elif runnable(st, t):
            out.append(j)
    if not out and st.cur is None:
        # nobody else can go on: those who waited for that
        out = [j for j, t in sorted(st.thr.items()) if t.block is not None and t.block[0] == "idle"]
    return out


def fresh(eng, st):
    """is this scheduling state new?"""
    if eng.fresh(st, "sw"):
        return True
    eng.stats["subsumed"] += 1
    return False


def preempt(eng, st):
    """returns the successor states of a synchronisation point, or None"""
    if not st.thr:
        return None
    outs = []
    if st.mon.get("__preempt", 0) < eng.preemptions:
        for j in candidates(st):
            o = st.fork()
            o.mon["__preempt"] = o.mon.get("__preempt", 0) + 1
            switch_to(eng, o, j)
            if fresh(eng, o):
                outs.append(o)
    if fresh(eng, st):
        outs.append(st)
    return outs


def block(eng, st, why):
    """the current thread cannot go on: every other thread that can, may"""
    i = st.cur
    t = stash(st)
    t.block = why
    st.thr[i] = t
    st.cur = None
    st.acts = []
    c = candidates(st)
    if not c:
        # show where it blocks
        st.acts = t.acts
        st.cur = i
        eng.ev(st, "blocked", threads=[(j, x.block and x.block[0]) for j, x in st.thr.items()])
        raise Abort("blocked")
    outs = []
    for n, j in enumerate(c):
        o = st.fork() if n < len(c) - 1 else st
        outs.append((o, j))
    res = []
    for o, j in outs:
        activate(o, j)
        eng.ev(o, "switch", frm=i, to=j, why=why[0])
        res.append(o)
    raise Fork([o for o in res if fresh(eng, o)])


def finished(eng, st):
    """the bottom function of a spawned thread returned"""
    i = st.cur
    races.release(st, ("end", i))
    st.mon["__finished"] = st.mon.get("__finished", ()) + (i,)
    name, state = st.curname
    if state is not None:
        v = st.norm(state)
        a = v.t[0][0]
        if a in st.mem:
            st.region_w(a).state = "freed"
    eng.ev(st, "thread_end", thread=i)
    if [k for k, o in dict(st.mon.get("__locks", ())).items() if o == "t%d" % i]:
        eng.violate(st, "lock-held-at-exit", "a thread ends holding a mutex")
        raise Abort("violation")
    st.cur = None
    st.acts = []
    c = candidates(st)
    if not c:
        if not st.thr:
            raise Abort("allended")
        eng.ev(st, "blocked", threads=[(j, x.block and x.block[0]) for j, x in st.thr.items()])
        j = sorted(st.thr)[0]
        st.acts = st.thr[j].acts
        raise Abort("blocked")
    outs = []
    for n, j in enumerate(c):
        o = st.fork() if n < len(c) - 1 else st
        outs.append((o, j))
    for o, j in outs:
        activate(o, j)
    raise Fork([o for o, j in outs if fresh(eng, o)])


def wake(st, kind, key, all_):
    """threads blocked on (kind, key): those made runnable"""
    w = [j for j, t in st.thr.items() if t.block is not None and t.block[0] == kind and t.block[1] == key]
    return w


def all_acts(st):
    for a in st.acts:
        yield a
    for t in st.thr.values():
        for a in t.acts:
            yield a
