"""Models of what lies below the analysed code: LLVM intrinsics, the C++ runtime, threads, locks, the heap, and the va_*
vocabulary drivers use to describe unknown clients. A model gets (eng, st, act, ins, f, args) and returns the call's value,
NOTHING when it arranged the control flow itself, or ("__throw", exc)."""
import re
from . import threads, races
from .core import *
from .core import Atom, Lin, Cond, Region, Coro, Act
from .ir import coro_info

EXACT = {}
PATTERNS = []


def model(*names):
    def d(fn):
        for n in names:
            EXACT[n] = fn
        return fn
    return d


def pattern(rx):
    def d(fn):
        PATTERNS.append((re.compile(rx), fn))
        return fn
    return d


def N():
    from .interp import NOTHING
    return NOTHING


def install(eng):
    eng.lib = __import__(__name__, fromlist=["x"])


def find(eng, f):
    m = EXACT.get(f.name)
    if m:
        return m
    if f.name.startswith("llvm."):
        for k, v in LLVM:
            if f.name.startswith(k):
                return v
        return None
    for rx, fn in PATTERNS:
        if rx.match(f.dem):
            return fn
    return None


def extern_global(eng, st, name, r):
    if name == "__libc_single_threaded":
        r.cells[((), 0)] = (1, 0)
    if name == "__dso_handle":
        r.info["lazy"] = 1


def exc_match(thrown, caught):
    if thrown == caught:
        return True
    if caught == "_ZTISt9exception" and thrown.startswith("_ZTISt"):
        return True
    return False


def cstring(eng, st, p):
    p = st.norm(p)
    try:
        base, sym, off = eng.resolve(st, p, "read")
        g = eng.m.globals.get(st.mem[base].info.get("global"))
        if g and g["init"] and g["init"][0] == "agg":
            return "".join(chr(x[2]) for x in g["init"][1] if x[0] == "c" and x[2])[off:]
    except Abort:
        pass
    return "?"


# ------------------------------------------------------------------------------------------------ LLVM intrinsics


def m_nop(eng, st, act, ins, f, args):
    return None


def m_zero(eng, st, act, ins, f, args):
    return 0


def m_coro_id(eng, st, act, ins, f, args):
    return ("coro.id", args[1])


def m_coro_alloc(eng, st, act, ins, f, args):
    return 1


def coro_name(fn):
    d = fn.dem
    return d.split("(")[0][-50:]


def m_coro_size(eng, st, act, ins, f, args):
    a = eng.garea.get(("size", act.fn.name))
    if a is None:
        a = Atom("sym", "framesize(%s)" % coro_name(act.fn), extra={"lo": 32, "align": 8})
        eng.garea[("size", act.fn.name)] = a
    return lin_of(a)


def m_coro_begin(eng, st, act, ins, f, args):
    prom = args[0][1] if isinstance(args[0], tuple) else 0
    mem = st.norm(args[1])
    ci = coro_info(act.fn)
    n = st.mon.get("__ncoro", 0) + 1
    st.mon["__ncoro"] = n
    h = st.new_region("frame", "frame#%d(%s)" % (n, coro_name(act.fn)))
    co = Coro()
    co.h, co.fn, co.status, co.block, co.idx, co.env, co.visits, co.lastf = h, act.fn, "running", 0, 0, {}, {}, {}
    co.gen = 1
    act.gen = 1
    p = st.norm(prom)
    co.promise = p.t[0][0] if isinstance(p, Lin) else None
    co.allocas = list(act.stack)
    act.stack = []
    for r in co.allocas:
        w = st.region_w(r)
        w.info = dict(w.info, coro=h)
    co.resident = set()
    co.name = "%s#%d" % (coro_name(act.fn), n)
    co.mem = mem
    st.coros[h] = co
    act.coro = h
    eng.ev(st, "coro_begin", h=h, name=co.name, mem=mem)
    return lin_of(h)


def m_coro_save(eng, st, act, ins, f, args):
    eng.coro_save(st, act, ins[2])
    return ("tok", ins[2])


def m_coro_suspend(eng, st, act, ins, f, args):
    co = st.coros.get(act.coro)
    if args[0] is None and co is not None:
        eng.mark_suspended(st, act, co, (act.b, act.i))
    act.pend = None
    eng.ev(st, "suspend", h=act.coro, name=co.name if co else "?")
    return -1


def m_coro_end(eng, st, act, ins, f, args):
    unwind = args[1]
    co = st.coros.get(act.coro)
    if not unwind:
        if act.mode in ("resume", "destroy"):
            return_from(eng, st)
            return N()
        return 0
    if act.mode in ("resume", "destroy"):
        if co is not None and co.status != "destroyed":
            ci = coro_info(act.fn)
            pos = ci.final
            if pos is None:
                pos = max(ci.suspends.values())
            eng.mark_suspended(st, act, co, pos)
            co.status = "done"
        return 1
    return 0


def return_from(eng, st):
    r = eng.do_return(st, None)
    if r == "ret":
        st.mon["__ret"] = 1


def m_coro_free(eng, st, act, ins, f, args):
    h = args[1]
    co = eng.coro_of(st, h)
    if co is None:
        return h
    if co.status == "destroyed":
        eng.violate(st, "double-destroy", "coroutine %s destroyed twice" % co.name)
        raise Abort("violation")
    eng.ev(st, "frame_free", h=co.h, name=co.name)
    eng.frame_free(st, co.h)
    return co.mem


def m_coro_promise(eng, st, act, ins, f, args):
    p, frm = st.norm(args[0]), args[2]
    if isinstance(p, int):
        if p == 0 and not frm:
            eng.violate(st, "null-dereference", "promise of a null coroutine handle")
            raise Abort("violation")
        return p
    if frm:
        if isinstance(p, Lin) and p.c == 0 and len(p.t) == 1:
            a = p.t[0][0]
            if a in st.mem and st.mem[a].kind == "stack":
                for h, co in st.coros.items():
                    if co.promise is a:
                        return lin_of(h)
            if a.kind == "op" and a.key[0] == "promise":
                return a.key[1]
            if a.kind == "region" and a not in st.mem:
                eng.violate(st, "use-after-free", "handle made from the promise of a destroyed coroutine")
                raise Abort("violation")
        return op("handle", p)
    co = eng.coro_of(st, p)
    if co is not None:
        return lin_of(co.promise)
    a = p.t[0][0]
    if a.kind == "undef":
        eng.violate(st, "uninitialised-read", "promise of an uninitialised coroutine handle")
        raise Abort("violation")
    if a.kind == "op" and a.key[0] == "handle":
        return a.key[1]
    if a.kind == "region" and a not in st.mem:
        eng.violate(st, "use-after-free", "promise of a destroyed coroutine (%s)" % a.name)
        raise Abort("violation")
    return op("promise", p)


def m_coro_resume(eng, st, act, ins, f, args):
    eng.coro_resume(st, act, ins, args[0], "resume")
    return N()


def m_coro_destroy(eng, st, act, ins, f, args):
    eng.coro_resume(st, act, ins, args[0], "destroy")
    return N()


def m_coro_done(eng, st, act, ins, f, args):
    h = st.norm(args[0])
    if isinstance(h, int):
        eng.violate(st, "null-dereference", "done() of a null coroutine handle")
        raise Abort("violation")
    co = eng.coro_of(st, h)
    if co is None:
        a = h.t[0][0]
        if a.kind == "region" and a not in st.mem:
            eng.violate(st, "use-after-free", "done() of a destroyed coroutine")
            raise Abort("violation")
        k = ("done", h)
        d = st.mon.get(k)
        if d is None:
            d = Cond("b", Atom("sym", "done(%r)" % h))
        return d
    if co.status == "destroyed":
        eng.violate(st, "use-after-free", "done() of destroyed coroutine %s" % co.name)
        raise Abort("violation")
    if st.mem.get(co.h) and st.mem[co.h].state == "handed" and act.coro is not co.h:
        eng.violate(st, "touch-after-handoff", "done() of coroutine %s after it was handed over" % co.name)
        raise Abort("violation")
    return 1 if co.status == "done" else 0


def m_coro_noop(eng, st, act, ins, f, args):
    a = eng.garea.get("noop")
    if a is None:
        a = eng.garea["noop"] = Atom("region", "noop_coroutine")
    if a not in st.mem:
        st.mem[a] = Region(a, "frame", None)
        st.own.add(a)
    return lin_of(a)


def m_lifetime_start(eng, st, act, ins, f, args):
    p = st.norm(args[1])
    if isinstance(p, Lin) and len(p.t) == 1 and p.c == 0:
        a = p.t[0][0]
        if a in st.mem and st.mem[a].kind == "stack":
            w = st.region_w(a)
            w.cells = {}
            if w.state == "ended":
                w.state = "live"
            act.started.add(a)
    return None


def m_lifetime_end(eng, st, act, ins, f, args):
    p = st.norm(args[1])
    if isinstance(p, Lin) and len(p.t) == 1 and p.c == 0:
        a = p.t[0][0]
        act.started.discard(a)
        if a in st.mem and st.mem[a].kind == "stack":
            if len(st.tids) > 1:
                races.kill(eng, st, a, "end of life")
            w = st.region_w(a)
            if w.state == "live":
                w.state = "ended"
    return None


def m_memcpy(eng, st, act, ins, f, args):
    eng.memcpy(st, args[0], args[1], args[2])


def m_memset(eng, st, act, ins, f, args):
    eng.memset(st, args[0], args[1], args[2])


def m_first(eng, st, act, ins, f, args):
    return args[0]


def m_tls(eng, st, act, ins, f, args):
    """every thread has its own instance of a thread_local variable"""
    p = args[0]
    if not st.cur or not isinstance(p, Lin):
        return p
    base = p.t[0][0]
    name = st.mem[base].info.get("global") if base in st.mem else None
    g = eng.m.globals.get(name)
    if g is None:
        return p
    a = eng.garea.get(("tls", name, st.cur))
    if a is None:
        a = eng.garea[("tls", name, st.cur)] = Atom("region", "@%s[thread %d]" % (name, st.cur))
    if a not in st.mem:
        r = Region(a, "global", g["size"], {"global": name, "tls": 1})
        st.mem[a] = r
        st.own.add(a)
        if g["init"] is not None:
            eng.init_cells(st, r, 0, g["init"], g["ty"])
            r.zero = True
    return add(lin_of(a), add(p, lin_of(base), -1))


def m_assume(eng, st, act, ins, f, args):
    c = eng.as_bool(args[0])
    d = st.decide(c)
    if d is False:
        eng.violate(st, "assumption-violated", "a condition the code tells the compiler to assume is false")
        raise Abort("violation")
    if d is None and not st.assume(c, True):
        raise Abort("infeasible")


def m_trap(eng, st, act, ins, f, args):
    raise Abort("terminate", "trap")


def m_umul(eng, st, act, ins, f, args):
    a, b = st.norm(args[0]), st.norm(args[1])
    if isinstance(a, int) and isinstance(b, int):
        v = (a & (2**64 - 1)) * (b & (2**64 - 1))
        return (signed(v, 64), 1 if v >> 64 else 0)
    return (binop(st, "mul", a, b, 64), 0)


def m_uadd(eng, st, act, ins, f, args):
    return (add(args[0], args[1]), 0)


def m_typeid(eng, st, act, ins, f, args):
    a = args[0]
    if isinstance(a, Lin) and len(a.t) == 1 and a.t[0][0] in st.mem:
        return op("typeid", st.mem[a.t[0][0]].info.get("global"))
    return op("typeid", a)


def m_minmax(eng, st, act, ins, f, args):
    a, b = args[0], args[1]
    nm = f.name
    sg = nm.startswith("llvm.s")
    c = Cond("lt", sg, a, b) if not (isinstance(a, int) and isinstance(b, int)) else int(a < b)
    lt = eng.split(st, c) if isinstance(c, Cond) else bool(c)
    if "max" in nm:
        return b if lt else a
    return a if lt else b


def m_objectsize(eng, st, act, ins, f, args):
    return -1


def m_isconst(eng, st, act, ins, f, args):
    return 0


def m_ctpop(eng, st, act, ins, f, args):
    a = st.norm(args[0])
    if isinstance(a, int):
        return bin(a & (2**64 - 1)).count("1")
    return op("ctpop", a)


LLVM = [
    ("llvm.coro.id", m_coro_id), ("llvm.coro.alloc", m_coro_alloc), ("llvm.coro.size", m_coro_size),
    ("llvm.coro.align", lambda *a: 16),
    ("llvm.coro.begin", m_coro_begin), ("llvm.coro.save", m_coro_save), ("llvm.coro.suspend", m_coro_suspend),
    ("llvm.coro.end", m_coro_end), ("llvm.coro.free", m_coro_free), ("llvm.coro.promise", m_coro_promise),
    ("llvm.coro.resume", m_coro_resume), ("llvm.coro.destroy", m_coro_destroy), ("llvm.coro.done", m_coro_done),
    ("llvm.coro.noop", m_coro_noop),
    ("llvm.lifetime.start", m_lifetime_start), ("llvm.lifetime.end", m_lifetime_end),
    ("llvm.memcpy", m_memcpy), ("llvm.memmove", m_memcpy), ("llvm.memset", m_memset),
    ("llvm.expect", m_first), ("llvm.assume", m_assume), ("llvm.trap", m_trap), ("llvm.debugtrap", m_trap),
    ("llvm.umul.with.overflow", m_umul), ("llvm.uadd.with.overflow", m_uadd),
    ("llvm.threadlocal.address", m_tls), ("llvm.launder", m_first), ("llvm.strip", m_first),
    ("llvm.eh.typeid.for", m_typeid), ("llvm.smax", m_minmax), ("llvm.smin", m_minmax), ("llvm.umax", m_minmax),
    ("llvm.umin", m_minmax), ("llvm.objectsize", m_objectsize), ("llvm.is.constant", m_isconst), ("llvm.ctpop", m_ctpop),
    ("llvm.va_", m_nop), ("llvm.stacksave", m_zero), ("llvm.stackrestore", m_nop), ("llvm.donothing", m_nop),
    ("llvm.prefetch", m_nop), ("llvm.invariant", m_nop),
]

# ------------------------------------------------------------------------------------------------ heap


def maythrow(eng, st, what):
    n = st.mon.get("__throws", 0)
    if n:
        if eng.choose(st, 2, what) == 1:
            st.mon["__throws"] = n - 1
            return True
    return False


def new_exc(eng, st, etype):
    r = st.new_region("exc", "exc(%s)" % etype, None, {"etype": etype})
    st.region_w(r).kind = "lazy"
    return lin_of(r)


def throw(eng, st, etype):
    e = new_exc(eng, st, etype)
    eng.ev(st, "throw", exc=e, src=etype)
    return ("__throw", e)


def heap_alloc(eng, st, size, how, align=16, res=None):
    n = st.mon.get("__nheap", 0) + 1
    st.mon["__nheap"] = n
    size = st.norm(size)
    where = eng.where(st, 3)
    src = next((w for w in where if "/kelcoro/" in (w[1] or "") or "drivers" in (w[1] or "")), where[0])
    nm = "heap#%d" % n
    r = st.new_region("heap", nm, size if isinstance(size, int) else None,
                      {"how": how, "asize": size, "align": align, "res": res, "at": src})
    eng.ev(st, "alloc", mem=r, size=size, how=how, align=align, res=res)
    return lin_of(r)


def heap_free(eng, st, p, how, size=None, align=None, res=None):
    p = st.norm(p)
    if isinstance(p, int):
        if p == 0 and how != "res":
            return
        if p == 0:
            eng.violate(st, "invalid-free", "null pointer given back to a memory resource")
            raise Abort("violation")
    a = None
    for x, k in p.t:
        if x in st.mem and k == 1:
            a = x
    if a is None:
        for x, k in p.t:
            if x.kind == "undef":
                eng.violate(st, "uninitialised-read", "an uninitialised pointer is freed")
                raise Abort("violation")
            if x.kind == "region":
                eng.violate(st, "double-free", "%s freed although its lifetime has ended" % x.name)
                raise Abort("violation")
        eng.ev(st, "free", mem=None, ptr=p, size=size, how=how, res=res)
        a0 = p.t[0][0]
        if len(p.t) == 1 and p.c == 0:
            r = Region(a0, "lazy", None, {"name": a0.name})
            r.state = "freed"
            st.mem[a0] = r
            st.own.add(a0)
        return
    r = st.mem[a]
    eng.obligations += 1
    if r.kind in ("stack", "global", "frame"):
        eng.violate(st, "invalid-free", "%s, which is not heap memory, is freed" % a.name)
        raise Abort("violation")
    if p != lin_of(a):
        eng.violate(st, "invalid-free", "pointer %r into the middle of an allocation is freed" % p)
        raise Abort("violation")
    if r.state == "freed":
        eng.violate(st, "double-free", "%s is freed twice" % a.name)
        raise Abort("violation")
    if r.kind == "heap":
        if (r.info["how"] == "res") != (how == "res"):
            eng.violate(st, "dealloc-mismatch", "memory allocated with %s is given back with %s" % (
                "a memory resource" if r.info["how"] == "res" else "operator " + r.info["how"],
                "a memory resource" if how == "res" else "operator delete"))
        elif how == "res":
            if st.norm(res) != st.norm(r.info["res"]):
                eng.violate(st, "dealloc-mismatch", "memory from one memory resource is given back to another one")
            if align is not None and st.norm(align) != st.norm(r.info["align"]):
                eng.violate(st, "dealloc-mismatch", "alignment passed to deallocate differs from the one passed to allocate")
        elif (r.info["how"] == "new[]") != (how == "delete[]") and how in ("delete", "delete[]"):
            eng.violate(st, "dealloc-mismatch", "new[]/delete mismatch")
        if size is not None:
            sz, s0 = st.norm(size), st.norm(r.info["asize"])
            if sz != s0 and st.decide(Cond("eq", add(sz, s0, -1)) if not (isinstance(sz, int) and isinstance(s0, int)) else 0) is not True:
                eng.violate(st, "dealloc-size", "size passed to deallocate (%r) is not the size allocated (%r)" % (sz, s0))
    eng.ev(st, "free", mem=a, ptr=p, size=size, how=how, res=res)
    w = st.region_w(a)
    w.state = "freed"
    w.cells = {}


@model("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def m_new(eng, st, act, ins, f, args):
    if "nothrow" in f.name:
        if maythrow(eng, st, "operator new"):
            return 0
    elif maythrow(eng, st, "operator new"):
        return throw(eng, st, "_ZTISt9bad_alloc")
    return heap_alloc(eng, st, args[0], "new[]" if f.name.startswith("_Zna") else "new",
                      args[1] if "align" in f.name else 16)


@model("malloc")
def m_malloc(eng, st, act, ins, f, args):
    return heap_alloc(eng, st, args[0], "malloc")


@model("free")
def m_free(eng, st, act, ins, f, args):
    heap_free(eng, st, args[0], "free")


@model("_ZdlPv", "_ZdaPv", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t")
def m_del(eng, st, act, ins, f, args):
    heap_free(eng, st, args[0], "delete[]" if f.name.startswith("_Zda") else "delete")


@model("_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t")
def m_dels(eng, st, act, ins, f, args):
    heap_free(eng, st, args[0], "delete[]" if f.name.startswith("_Zda") else "delete", args[1])


@pattern(r"std::pmr::memory_resource::allocate\(")
def m_res_alloc(eng, st, act, ins, f, args):
    res = st.norm(args[0])
    if isinstance(res, int):
        eng.violate(st, "null-dereference", "allocation from a null memory resource")
        raise Abort("violation")
    if isinstance(res, Lin):
        for a, k in res.t:
            if a.kind == "undef":
                eng.violate(st, "uninitialised-read", "allocation from an uninitialised memory resource pointer")
                raise Abort("violation")
            if a.kind == "region" and (a not in st.mem or st.mem[a].state in ("freed", "ended")):
                eng.violate(st, "use-after-lifetime", "allocation from a dead memory resource")
                raise Abort("violation")
    if maythrow(eng, st, "allocate"):
        return throw(eng, st, "_ZTISt9bad_alloc")
    return heap_alloc(eng, st, args[1], "res", args[2] if len(args) > 2 else 16, res)


@pattern(r"std::pmr::memory_resource::deallocate\(")
def m_res_dealloc(eng, st, act, ins, f, args):
    res = st.norm(args[0])
    if isinstance(res, Lin):
        for a, k in res.t:
            if a.kind == "undef":
                eng.violate(st, "uninitialised-read", "memory given back to an uninitialised memory resource pointer")
                raise Abort("violation")
            if a.kind == "region" and (a not in st.mem or st.mem[a].state in ("freed", "ended")):
                eng.violate(st, "use-after-lifetime", "memory given back to a dead memory resource")
                raise Abort("violation")
    heap_free(eng, st, args[1], "res", args[2], args[3] if len(args) > 3 else None, res)


def named_region(eng, st, name):
    a = eng.garea.get(("n", name))
    if a is None:
        a = eng.garea[("n", name)] = Atom("region", name)
    if a not in st.mem:
        st.mem[a] = Region(a, "global", None, {"global": name})
        st.own.add(a)
    return lin_of(a)


@model("_ZNSt3pmr19new_delete_resourceEv")
def m_ndr(eng, st, act, ins, f, args):
    return named_region(eng, st, "new_delete_resource")


@model("_ZNSt3pmr20get_default_resourceEv")
def m_gdr(eng, st, act, ins, f, args):
    return st.mon.get("__stdres") or named_region(eng, st, "std default resource")


@model("_ZNSt3pmr20set_default_resourceEPNS_15memory_resourceE")
def m_sdr(eng, st, act, ins, f, args):
    old = m_gdr(eng, st, act, ins, f, args)
    st.mon["__stdres"] = st.norm(args[0])
    return old


@model("_ZNSt3pmr20null_memory_resourceEv")
def m_nmr(eng, st, act, ins, f, args):
    return named_region(eng, st, "null_memory_resource")


# ------------------------------------------------------------------------------------------------ locks, threads, atomics


def lockkey(eng, st, p):
    base, sym, off = eng.resolve(st, p, "use of a mutex")
    eng.access_check(st, base, off, 1, "use of a mutex")
    return (base, sym, off)


def locks(st):
    return dict(st.mon.get("__locks", ()))


def setlocks(st, d):
    st.mon["__locks"] = tuple(sorted(d.items(), key=lambda kv: (kv[0][0].id, kv[0][2])))


@model("pthread_mutex_lock")
def m_lock(eng, st, act, ins, f, args):
    eng.sync_point(st, act, ins, "lock", args[0])
    k = lockkey(eng, st, args[0])
    d = locks(st)
    if k in d:
        if d[k] == act.tag:
            eng.violate(st, "self-deadlock", "a mutex already held by this thread is locked again")
            raise Abort("violation")
        if st.thr:
            threads.block(eng, st, ("mutex", k))
        raise Abort("infeasible")
    d[k] = act.tag
    setlocks(st, d)
    eng.ev(st, "lock", key=k)
    return 0


@model("pthread_mutex_trylock")
def m_trylock(eng, st, act, ins, f, args):
    k = lockkey(eng, st, args[0])
    d = locks(st)
    if k in d or eng.choose(st, 2, "trylock") == 1:
        return 16
    d[k] = act.tag
    setlocks(st, d)
    eng.ev(st, "lock", key=k)
    return 0


@model("pthread_mutex_unlock")
def m_unlock(eng, st, act, ins, f, args):
    k = lockkey(eng, st, args[0])
    d = locks(st)
    if d.get(k) != act.tag:
        eng.violate(st, "unlock-not-owned", "a mutex this thread does not hold is unlocked")
        raise Abort("violation")
    del d[k]
    setlocks(st, d)
    eng.ev(st, "unlock", key=k)
    eng.sync_after(st)
    return 0


@pattern(r"std::(_V2::)?condition_variable(_any)?::(condition_variable(_any)?|~condition_variable(_any)?)\(")
def m_cv_ctor(eng, st, act, ins, f, args):
    eng.ev(st, "cv_life", cv=args[0], what="dtor" if "~" in f.dem else "ctor")
    return None


@pattern(r"std::(_V2::)?condition_variable(_any)?::notify_(one|all)\(")
def m_cv_notify(eng, st, act, ins, f, args):
    base, sym, off = eng.resolve(st, args[0], "notify")
    eng.access_check(st, base, off, 1, "notify")
    eng.ev(st, "notify", cv=(base, sym, off), all="notify_all" in f.dem)
    w = threads.wake(st, "cv", (base, sym, off), True)
    if w:
        if "notify_all" in f.dem:
            for j in w:
                st.thr[j].block = None
        else:
            n = eng.choose(st, len(w), "notify") if len(w) > 1 else 0
            st.thr[w[n]].block = None
    w = st.mon.get("__cvwait")
    if w == (base, sym, off):
        st.mon["__cvwoken"] = 1
    return None


def cv_block(eng, st, act, ins, mtx, key):
    """blocks releasing the mutex; returns when re-acquired"""
    k = lockkey(eng, st, mtx)
    me = ("__cvthr", st.cur)
    if me in st.mon:
        d = locks(st)
        if k in d:
            threads.block(eng, st, ("mutex", k))
        st.mon.pop(me)
        d[k] = act.tag
        setlocks(st, d)
        eng.ev(st, "lock", key=k)
        return
    if st.thr:
        ch = st.mon.get("__choice")
        if ch is None:
            d = locks(st)
            if d.get(k) != act.tag:
                eng.violate(st, "wait-without-lock", "condition_variable::wait without holding the mutex")
                raise Abort("violation")
        if not st.mon.get("__spurious") and eng.choose(st, 2, "spurious") == 1:
            st.mon["__spurious"] = 1     # wakes up without a notification
            why = ("mutex", k)
        else:
            why = ("cv", key)
        eng.ev(st, "cv_wait", key=k, cv=key)
        d = locks(st)
        del d[k]
        setlocks(st, d)
        st.mon[me] = 1
        threads.block(eng, st, why)
    stage = st.mon.get("__cvstage")
    if stage is None:
        d = locks(st)
        if d.get(k) != act.tag:
            eng.violate(st, "wait-without-lock", "condition_variable::wait without holding the mutex")
            raise Abort("violation")
        eng.ev(st, "cv_wait", key=k, cv=key)
        if not st.inj or st.inj_busy is not None:
            raise Abort("blocked")
        # somebody else's call runs while this thread sleeps
        del d[k]
        setlocks(st, d)
        st.mon["__cvstage"] = len(st.acts)
        st.mon["__cvwait"] = key
        st.mon.pop("__cvwoken", None)
        fn, a = st.inj[0]
        st.inj = st.inj[1:]
        st.inj_busy = fn
        eng.ev(st, "inject", fn=fn, at="cv_wait")
        eng.push(st, eng.m.funcs[fn], a, "inject")
        st.acts[-1].tag = "inj"
        raise Fork([st])
    st.mon.pop("__cvstage")
    st.mon.pop("__cvwait")
    woken = st.mon.pop("__cvwoken", None)
    if not woken:
        eng.ev(st, "not_woken", cv=key)
        raise Abort("blocked")
    d = locks(st)
    if k in d:
        raise Abort("infeasible")
    d[k] = act.tag
    setlocks(st, d)
    eng.ev(st, "lock", key=k)


@pattern(r"std::(_V2::)?condition_variable::wait\(std::unique_lock")
def m_cv_wait(eng, st, act, ins, f, args):
    base, sym, off = eng.resolve(st, args[0], "wait")
    mtx = eng.load(st, args[1], "p")
    cv_block(eng, st, act, ins, mtx, (base, sym, off))
    return None


@model("pthread_cond_clockwait")
@model("pthread_cond_timedwait")
def m_cv_timed(eng, st, act, ins, f, args):
    """a timed wait: the time is over now or then, whether or not somebody notified"""
    base, sym, off = eng.resolve(st, args[0], "wait")
    cv_block(eng, st, act, ins, args[1], (base, sym, off))
    return lin_of(Atom("sym", "timed out?"))



def peek_at(eng, st, p, t, what):
    size = eng.tsize(t)
    base, sym, off = eng.resolve(st, p, what, size)
    eng.access_check(st, base, off, size, what)
    return eng.peek(st, base, sym, off, size, t), (base, sym, off)


@pattern(r"(bool )?std::(atomic<.*>|__atomic_base<.*>|atomic_flag|__atomic_ref<.*>)::wait\(")
def m_awt(eng, st, act, ins, f, args):
    t = f.args[1][0]
    if t == "i1":
        t = "i8"
    if len(st.tids) > 1:
        if not st.mon.pop(("__aw", st.cur), None):
            eng.sync_point(st, act, ins, "wait", args[0])
        v, key = peek_at(eng, st, args[0], t, "atomic wait")
        old = eng.as_int(st, args[1])
        c = Cond("eq", add(v, old, -1)) if not (isinstance(v, int) and isinstance(old, int)) else int(v == old)
        same = eng.split(st, c) if isinstance(c, Cond) else bool(c)
        o = args[2] if len(args) > 2 else None
        eng.ev(st, "aload", base=key[0], sym=key[1], off=key[2], val=v, order={0: "relaxed", 2: "acquire", 5: "seq_cst", 1: "acquire"}.get(o, "relaxed") if o is not None else "seq_cst")
        if not same:
            return None
        st.mon[("__aw", st.cur)] = 1
        threads.block(eng, st, ("addr", key))
    if st.mon.get("__awstage") == len(st.acts):
        st.mon.pop("__awstage")
        if not st.mon.pop("__awoken", None):
            v, key = peek_at(eng, st, args[0], t, "atomic wait")
            eng.ev(st, "await_not_notified", addr=key, val=v)
    else:
        eng.sync_point(st, act, ins, "wait", args[0])
    v, key = peek_at(eng, st, args[0], t, "atomic wait")
    old = eng.as_int(st, args[1])
    c = Cond("eq", add(v, old, -1)) if not (isinstance(v, int) and isinstance(old, int)) else int(v == old)
    same = eng.split(st, c) if isinstance(c, Cond) else bool(c)
    eng.ev(st, "await", addr=key, val=v, old=old, same=same, order=args[2] if len(args) > 2 else None)
    if not same:
        return None
    if not st.inj or st.inj_busy is not None:
        raise Abort("blocked")
    st.mon["__awstage"] = len(st.acts)
    st.mon["__awaddr"] = key
    fn, a = st.inj[0]
    st.inj = st.inj[1:]
    st.inj_busy = fn
    eng.ev(st, "inject", fn=fn, at="wait")
    eng.push(st, eng.m.funcs[fn], a, "inject")
    st.acts[-1].tag = "inj"
    raise Fork([st])


@pattern(r"(bool )?std::(atomic<.*>|__atomic_base<.*>|atomic_flag|__atomic_ref<.*>)::notify_(one|all)\(")
def m_awn(eng, st, act, ins, f, args):
    p = st.norm(args[0])
    eng.ev(st, "anotify", addr=p, all="notify_all" in f.dem)
    if isinstance(p, Lin):
        key = None
        for a, k in p.t:
            if a in st.mem and k == 1:
                rest = add(p, lin_of(a), -1)
                key = (a, (), rest) if isinstance(rest, int) else (a, rest.t, rest.c)
        if key is not None:
            w = threads.wake(st, "addr", key, True)
            if w:
                if "notify_all" in f.dem:
                    for j in w:
                        st.thr[j].block = None
                else:
                    n = eng.choose(st, len(w), "notify") if len(w) > 1 else 0
                    st.thr[w[n]].block = None
                eng.sync_after(st)
        if key is not None and key == st.mon.get("__awaddr"):
            st.mon["__awoken"] = 1
    return None


@pattern(r"std::thread::_M_start_thread\(")
def m_thread_start(eng, st, act, ins, f, args):
    if maythrow(eng, st, "thread"):
        return throw(eng, st, "_ZTISt12system_error")
    n = st.mon.get("__nthreads", 0) + 1
    st.mon["__nthreads"] = n
    state = eng.load(st, args[1], "p")
    tid = Atom("sym", "tid#%d" % n, extra={"lo": 1, "tid": 1})
    eng.store(st, args[1], 0, "p")
    eng.store(st, args[0], lin_of(tid), "i64")
    st.mon["__threads"] = st.mon.get("__threads", ()) + ((tid, "running", state),)
    eng.ev(st, "thread_start", tid=tid, state=state)
    if st.mon.get("__runthreads"):
        vt = eng.load(st, state, "p")
        fv = st.norm(eng.load(st, add(vt, 16), "p"))
        threads.spawn(eng, st, eng.m.funcs[fv.t[0][0].key], [state], name=tid, state=state)
    if isinstance(state, Lin) and state.t[0][0] in st.mem:
        st.region_w(state.t[0][0]).info = dict(st.mem[state.t[0][0]].info, owned_by_thread=1)
    return None


def thread_end(eng, st, p, what):
    v = st.norm(eng.load(st, p, "i64"))
    if v == 0:
        eng.violate(st, "join-not-joinable", "%s of a thread object that is not joinable" % what)
        raise Abort("violation")
    ts = list(st.mon.get("__threads", ()))
    for i, (t, s, x) in enumerate(ts):
        if isinstance(v, Lin) and v == lin_of(t):
            ts[i] = (t, what, x)
    st.mon["__threads"] = tuple(ts)
    eng.store(st, p, 0, "i64")
    eng.ev(st, "thread_" + what, tid=v)


@model("_ZNSt6thread4joinEv")
def m_join(eng, st, act, ins, f, args):
    held = [k for k, o in locks(st).items() if o == act.tag]
    if held:
        eng.violate(st, "join-with-lock", "a thread is joined while holding a mutex")
    if st.mon.get("__runthreads"):
        v = st.norm(eng.load(st, args[0], "i64"))
        for j, t in st.thr.items():
            if isinstance(v, Lin) and t.name is not None and v == lin_of(t.name):
                threads.block(eng, st, ("join", j))
        n = st.mon.get("__finished", ())
        for j in n:
            races.acquire(st, ("end", j))
    thread_end(eng, st, args[0], "join")
    return None


@model("_ZNSt6thread6detachEv")
def m_detach(eng, st, act, ins, f, args):
    thread_end(eng, st, args[0], "detach")
    return None


@model("_ZNSt6thread20hardware_concurrencyEv")
def m_hwc(eng, st, act, ins, f, args):
    return lin_of(Atom("sym", "hardware_concurrency", extra={"lo": 0}))


@model("pthread_self")
def m_self(eng, st, act, ins, f, args):
    if st.curname[0] is not None:
        return lin_of(st.curname[0])
    a = eng.garea.get("selftid")
    if a is None:
        a = eng.garea["selftid"] = Atom("sym", "self_tid", extra={"lo": 1, "tid": 1})
    return lin_of(a)


@model("sched_yield", "__gthread_yield", "usleep", "nanosleep")
def m_yield(eng, st, act, ins, f, args):
    return 0


# ------------------------------------------------------------------------------------------------ exceptions, termination


@model("__cxa_allocate_exception")
def m_cxa_alloc(eng, st, act, ins, f, args):
    r = st.new_region("exc", "exception", args[0] if isinstance(args[0], int) else None, {})
    return lin_of(r)


@model("__cxa_free_exception", "__cxa_get_exception_ptr")
def m_cxa_freeexc(eng, st, act, ins, f, args):
    return args[0]


@model("__cxa_throw")
def m_cxa_throw(eng, st, act, ins, f, args):
    e = st.norm(args[0])
    t = st.norm(args[1])
    tn = st.mem[t.t[0][0]].info.get("global") if isinstance(t, Lin) and t.t[0][0] in st.mem else repr(t)
    w = st.region_w(e.t[0][0])
    w.info = dict(w.info, etype=tn)
    eng.ev(st, "throw", exc=e, src=tn)
    return ("__throw", e)


@model("__cxa_begin_catch")
def m_cxa_bc(eng, st, act, ins, f, args):
    st.caught = st.caught + (st.norm(args[0]),)
    st.mon["__uncaught"] = max(0, st.mon.get("__uncaught", 0) - 1)
    eng.ev(st, "catch", exc=args[0])
    return args[0]


@model("__cxa_end_catch")
def m_cxa_ec(eng, st, act, ins, f, args):
    if not st.caught:
        raise Gap("end_catch without begin_catch")
    st.caught = st.caught[:-1]
    return None


@model("__cxa_rethrow")
def m_cxa_rethrow(eng, st, act, ins, f, args):
    if not st.caught:
        eng.violate(st, "rethrow-nothing", "throw; without a current exception")
        raise Abort("violation")
    eng.ev(st, "throw", exc=st.caught[-1], src="rethrow")
    return ("__throw", st.caught[-1])


@model("_ZSt17current_exceptionv")
def m_curexc(eng, st, act, ins, f, args):
    eng.store(st, args[0], st.caught[-1] if st.caught else 0, "p")
    return None


@model("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def m_rethrow_exc(eng, st, act, ins, f, args):
    e = st.norm(eng.load(st, args[0], "p"))
    if e == 0:
        eng.violate(st, "rethrow-nothing", "std::rethrow_exception of a null exception_ptr")
        raise Abort("violation")
    eng.ev(st, "throw", exc=e, src="rethrow_exception")
    return ("__throw", e)


@model("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv")
def m_excptr(eng, st, act, ins, f, args):
    base, sym, off = eng.resolve(st, args[0], "use of an exception_ptr")
    eng.access_check(st, base, off, 8, "use of an exception_ptr")
    return None


@model("_ZSt9terminatev", "abort", "__clang_call_terminate", "_Exit", "exit", "_ZSt10unexpectedv")
def m_term(eng, st, act, ins, f, args):
    eng.ev(st, "terminate", why=f.dem)
    raise Abort("terminate", f.dem)


@model("__assert_fail")
def m_assert(eng, st, act, ins, f, args):
    if st.mon.get("__assert_ok"):
        raise Abort("assert", None)
    eng.violate(st, "assertion-failed", "assert(%s) can fail" % cstring(eng, st, args[0]))
    raise Abort("violation")


@pattern(r"std::__throw_")
def m_std_throw(eng, st, act, ins, f, args):
    return throw(eng, st, "_ZTISt_" + f.name)


@model("__cxa_guard_acquire")
def m_ga(eng, st, act, ins, f, args):
    base, sym, off = eng.resolve(st, args[0], "guard of a static variable")
    v = eng.peek(st, base, sym, off, 1, "i8")
    if st.norm(v) == 1:
        races.acquire(st, (base, sym, off))
        return 0
    return 1


@model("__cxa_guard_release")
def m_gr(eng, st, act, ins, f, args):
    base, sym, off = eng.resolve(st, args[0], "guard of a static variable")
    old = eng.peek(st, base, sym, off, 1, "i8")
    eng.poke(st, base, sym, off, 1, 1)
    eng.ev(st, "astore", base=base, off=off, sym=sym, old=old, val=1, order="release", size=1)
    return None


@model("__cxa_guard_abort", "atexit", "__cxa_atexit", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev")
def m_ignore(eng, st, act, ins, f, args):
    return 0 if ins[3] != "v" else None


@model("__cxa_pure_virtual")
def m_pure(eng, st, act, ins, f, args):
    eng.violate(st, "pure-virtual-call", "pure virtual function called")
    raise Abort("violation")


@model("_ZSt19uncaught_exceptionsv", "_ZSt18uncaught_exceptionv")
def m_unc(eng, st, act, ins, f, args):
    n = st.mon.get("__uncaught", 0)
    return n if ins[3] != "i1" else 1 if n else 0


@model("memcmp", "bcmp")
def m_memcmp(eng, st, act, ins, f, args):
    if st.norm(args[2]) == 0:
        return 0
    return lin_of(Atom("sym", "memcmp"))


@model("strlen")
def m_strlen(eng, st, act, ins, f, args):
    s = cstring(eng, st, args[0])
    return len(s) if s != "?" else lin_of(Atom("sym", "strlen", extra={"lo": 0}))


@model("_ZSt11_Hash_bytesPKvmm")
def m_hashbytes(eng, st, act, ins, f, args):
    n = st.norm(args[1])
    v = None
    if isinstance(n, int) and n in (1, 2, 4, 8):
        v = eng.load(st, args[0], "i%d" % (8 * n))
    return op("hash_bytes", v, n, args[2])


# ------------------------------------------------------------------------------------------------ driver vocabulary


@model("va_bool")
def v_bool(eng, st, act, ins, f, args):
    return Cond("b", Atom("sym", "va_bool"))


@model("va_int")
def v_int(eng, st, act, ins, f, args):
    return lin_of(Atom("sym", "va_int"))


@model("va_size")
def v_size(eng, st, act, ins, f, args):
    return lin_of(Atom("sym", "va_size", extra={"lo": 0}))


@model("va_ptr")
def v_ptr(eng, st, act, ins, f, args):
    a = Atom("sym", "va_ptr", extra={"lo": 16, "fresh": 1})
    r = Region(a, "lazy", None, {"name": a.name})
    st.mem[a] = r
    st.own.add(a)
    return lin_of(a)


@model("va_choice")
def v_choice(eng, st, act, ins, f, args):
    n = st.norm(args[0])
    k = eng.choose(st, n, "va_choice")
    eng.ev(st, "choice", k=k)
    return k


@model("va_assume")
def v_assume(eng, st, act, ins, f, args):
    c = eng.as_bool(args[0])
    if not st.assume(c, True):
        raise Abort("infeasible")
    return None


def parts(st, c, inner):
    """the elementary conditions a compound one is made of"""
    if not isinstance(c, Cond):
        return []
    out = []
    if c.k[0] in ("not", "and", "or", "xor"):
        for x in c.k[1:]:
            out += parts(st, x, True)
        return out
    sub = []
    for v in c.k[1:]:
        v = st.norm(v) if isinstance(v, Lin) else v
        for a, _ in v.t if isinstance(v, Lin) else ():
            if a.kind == "op" and a.key[0] == "b2i":
                sub += parts(st, a.key[1], True)
    return sub or ([c] if inner else [])


@model("va_assert")
def v_assert(eng, st, act, ins, f, args):
    rule = cstring(eng, st, args[1])
    c = eng.as_bool(args[0])
    eng.obligations += 1
    d = st.decide(c) if isinstance(c, Cond) else bool(c)
    eng.rules_seen[rule] = eng.rules_seen.get(rule, 0) + 1
    if d is None:
        eng.layout(st, c)
        for x in parts(st, c, False):
            if st.decide(x) is None:
                eng.split(st, x)        # one case each
        w = st.refute(c)
        if w is None:
            # neither proved nor refuted
            g = "undecided: %s" % rule
            eng.gaps[g] = eng.gaps.get(g, 0) + 1
            return None
        eng.violate(st, rule, "required: %s%s" % (rule, " (not when %s)" % w if w else " (not provable here: %.300r)" % c))
        raise Abort("violation")
    elif not d:
        eng.violate(st, rule, "required: %s" % rule)
        raise Abort("violation")
    return None


@model("va_fail")
def v_fail(eng, st, act, ins, f, args):
    rule = cstring(eng, st, args[0])
    eng.obligations += 1
    eng.violate(st, rule, rule)
    raise Abort("violation")


@model("va_reach")
def v_reach(eng, st, act, ins, f, args):
    n = cstring(eng, st, args[0])
    eng.reached.add(n)
    return None


@model("va_event")
def v_event(eng, st, act, ins, f, args):
    eng.ev(st, "user", name=cstring(eng, st, args[0]), val=args[1] if len(args) > 1 else None)
    return None


@model("va_use")
def v_use(eng, st, act, ins, f, args):
    return None


@model("va_stop")
def v_stop(eng, st, act, ins, f, args):
    raise Abort("infeasible")


@model("va_inject")
def v_inject(eng, st, act, ins, f, args):
    fv = st.norm(args[0])
    st.inj = st.inj + ((fv.t[0][0].key, [args[1]]),)
    return None


@model("va_pending")
def v_pending(eng, st, act, ins, f, args):
    return len(st.inj)


@model("va_run_pending")
def v_runp(eng, st, act, ins, f, args):
    """calls registered with va_inject that did not run yet run now"""
    if not st.inj:
        return None
    fn, a = st.inj[0]
    st.inj = st.inj[1:]
    st.inj_busy = fn
    eng.push(st, eng.m.funcs[fn], a, "inject")
    st.acts[-1].tag = "inj"
    raise Fork([st])


@model("va_throws")
def v_throws(eng, st, act, ins, f, args):
    st.mon["__throws"] = st.norm(args[0])
    return None


@model("va_may_terminate")
def v_mayterm(eng, st, act, ins, f, args):
    st.mon["__may_terminate"] = st.norm(args[0])
    return None


@model("va_must_terminate")
def v_mustterm(eng, st, act, ins, f, args):
    st.mon["__must_terminate"] = st.norm(args[0])
    st.mon["__may_terminate"] = st.norm(args[0])
    return None


@model("va_leaks_ok")
def v_leaks(eng, st, act, ins, f, args):
    st.mon["__leaks_ok"] = 1
    return None


@model("va_handoff")
def v_handoff(eng, st, act, ins, f, args):
    """the coroutine with this handle may now be resumed and destroyed by another thread at any moment"""
    co = eng.coro_of(st, args[0])
    if co is not None:
        eng.handoff(st, co, "given to an executor/other thread")
    return None


@model("va_takeback")
def v_takeback(eng, st, act, ins, f, args):
    co = eng.coro_of(st, args[0])
    if co is not None:
        eng.take_back(st, co)
    return None


@model("va_kill")
def v_kill(eng, st, act, ins, f, args):
    """the object at this address is gone"""
    base, sym, off = eng.resolve(st, args[0], "end of life")
    eng.access_check(st, base, off, 1, "end of life")
    w = st.region_w(base)
    w.state = "freed"
    return None


@model("va_live_heap")
def v_liveheap(eng, st, act, ins, f, args):
    return len([a for a in eng.live_heap(st) if not st.mem[a].info.get("owned_by_thread")])


@model("va_blocks_of")
def v_blocksof(eng, st, act, ins, f, args):
    """live blocks that came from this memory resource"""
    return len([a for a in eng.live_heap(st) if st.mem[a].info["how"] == "res" and st.norm(st.mem[a].info["res"]) == st.norm(args[0])])


@model("va_locks_held")
def v_locks(eng, st, act, ins, f, args):
    return len(locks(st))


@model("va_threads")
def v_threads(eng, st, act, ins, f, args):
    what = cstring(eng, st, args[0])
    return len([1 for t, s, x in st.mon.get("__threads", ()) if s == what])


@model("va_is_suspended")
def v_issusp(eng, st, act, ins, f, args):
    co = eng.coro_of(st, args[0])
    return 1 if co is not None and co.status == "suspended" else 0


@model("va_frames")
def v_frames(eng, st, act, ins, f, args):
    return len([1 for c in st.coros.values() if c.status != "destroyed"])


@model("va_size_of_block")
def v_blocksize(eng, st, act, ins, f, args):
    p = st.norm(args[0])
    for a, k in p.t:
        if k == 1 and a in st.mem:
            return st.mem[a].info.get("asize", st.mem[a].size)
    return 0


@model("va_block_of")
def v_blockof(eng, st, act, ins, f, args):
    """begin of the object a pointer points into"""
    p = st.norm(args[0])
    if isinstance(p, Lin):
        for a, k in p.t:
            if k == 1 and a in st.mem:
                return lin_of(a)
    return 0


@model("va_align_of")
def v_alignof(eng, st, act, ins, f, args):
    """pointer modulo a constant if known, else -1"""
    m = rem_known(st, args[0], st.norm(args[1]))
    return -1 if m is None else m


@model("va_provable")
def v_provable(eng, st, act, ins, f, args):
    c = eng.as_bool(args[0])
    d = st.decide(c)
    return 1 if d is True else 0


@model("va_set")
def v_set(eng, st, act, ins, f, args):
    st.mon[("u", cstring(eng, st, args[0]))] = st.norm(args[1])
    return None


@model("va_get")
def v_get(eng, st, act, ins, f, args):
    return st.mon.get(("u", cstring(eng, st, args[0])), 0)


@model("va_inc")
def v_inc(eng, st, act, ins, f, args):
    k = ("u", cstring(eng, st, args[0]))
    st.mon[k] = add(st.mon.get(k, 0), st.norm(args[1]))
    return None


@model("va_must_finish")
def v_mustfin(eng, st, act, ins, f, args):
    st.mon["__noblock"] = st.norm(args[0])
    return None


@model("va_no_weak_failures")
def v_noweak(eng, st, act, ins, f, args):
    """weak compare-exchanges do not fail spuriously from here on"""
    st.mon["__weakfail"] = 1
    return None


@model("va_spawn")
def v_spawn(eng, st, act, ins, f, args):
    """another thread runs fn(arg)"""
    fv = st.norm(args[0])
    threads.spawn(eng, st, eng.m.funcs[fv.t[0][0].key], [args[1]])
    eng.sync_after(st)
    return None


@model("va_join")
def v_join(eng, st, act, ins, f, args):
    """waits for all other threads"""
    if st.thr:
        threads.block(eng, st, ("all",))
    races.sync_all(st)
    return None


@model("va_yield")
def v_yield(eng, st, act, ins, f, args):
    eng.sync_point(st, act, ins, "yield", 0)
    return None


@model("va_release")
def v_release(eng, st, act, ins, f, args):
    races.release(st, eng.resolve(st, args[0], "synchronisation"))
    return None


@model("va_acquire")
def v_acquire(eng, st, act, ins, f, args):
    races.acquire(st, eng.resolve(st, args[0], "synchronisation"))
    return None


@model("va_run_threads")
def v_runthreads(eng, st, act, ins, f, args):
    st.mon["__runthreads"] = st.norm(args[0])
    return None


@model("va_thread_id")
def v_tid(eng, st, act, ins, f, args):
    return st.cur


@model("va_data_read", "va_data_write")
def v_data(eng, st, act, ins, f, args):
    base, sym, off = eng.resolve(st, args[0], "use of user data")
    eng.access_check(st, base, off, 1, "use of user data")
    if len(st.tids) > 1:
        races.access(eng, st, races.WRITE if f.name == "va_data_write" else races.READ, base, sym, off, 1)
    return None


@model("va_wait_for")
def v_waitfor(eng, st, act, ins, f, args):
    """blocks (without synchronising) until the flag is set by another thread"""
    base, sym, off = eng.resolve(st, args[0], "wait")
    v = eng.peek(st, base, sym, off, 1, "i8")
    d = st.decide(Cond("eq", v)) if isinstance(v, Lin) else (v == 0)
    if d is False:
        return None
    threads.block(eng, st, ("flag", (base, sym, off)))


@model("va_wait_idle")
def v_waitidle(eng, st, act, ins, f, args):
    """blocks until every other thread is blocked too"""
    if st.mon.get("__idle") == st.cur:
        del st.mon["__idle"]
        return None
    if st.thr:
        threads.block(eng, st, ("idle",))


@model("va_up_to_date")
def v_uptodate(eng, st, act, ins, f, args):
    """from here on atomic loads see the newest value (used where the question is whether something was stored at all)"""
    st.mon["__stale"] = eng.stale
    return None
