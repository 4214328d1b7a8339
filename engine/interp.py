"""The abstract interpreter proper: transfer functions for instructions, calls, exceptions and coroutine intrinsics."""
import re, time
from collections import deque
from . import linear
from .core import *
from .core import Atom, Lin, Cond, Region, Coro, Act, State
from .ir import Module, loop_heads, live_in, coro_info, succs
from . import threads, races

M64 = (1 << 64) - 1


class Engine:
    def __init__(self, module, spec=None, bound=3, max_states=20000, deadline=None):
        self.m = module
        self.spec = spec
        self.bound = bound
        self.max_states = max_states
        self.deadline = deadline
        self.violations = []
        self._vkeys = set()
        self.ends = []
        self.stats = dict(states=0, forks=0, instrs=0, cut=0, subsumed=0, paths=0, infeasible=0)
        self.fns = set()
        self.unmodelled = {}
        self.lines = set()
        self.obligations = 0
        self.rules_seen = {}
        self.gaps = {}
        self.endkinds = {}
        self.on_path_end = None
        self.reached = set()
        self.garea = {}
        self.seen = {}
        self.edges = {}          # reachability graph between loop heads: node -> successors
        self.nodes = [None]
        self.ending = set()      # nodes from which a path ended (or was given up)
        self.hooks = []          # on_event(engine, state, ev)
        self.access_hooks = []   # on_access(engine, state, kind, region atom, off, size, val, where)
        self.models = {}
        self.subsume = True
        self.throwing = set()    # names of externals that may throw
        self.strict_null = True
        self.sync_hook = None
        self.preemptions = 2
        self.stale = 1          # reads of an outdated value per path
        from . import models, races
        self.lib = models
        races.install(self)
        models.install(self)

    # ------------------------------------------------------------------ reporting
    def where(self, st, n=12):
        out = []
        for a in reversed(st.acts):
            ins = a.fn.blocks[a.b][a.i] if a.i < len(a.fn.blocks[a.b]) else None
            l = self.m.loc(ins[1]) if ins else None
            out.append((a.fn.dem, l[0] if l else a.fn.file, l[1] if l else a.fn.line, a.mode))
            if len(out) >= n:
                break
        return out

    def ev(self, st, kind, **kw):
        st.ntrace += 1
        e = (kind, kw, self.where(st, 6))
        st.trace = (e, st.trace)
        for h in self.hooks:
            h(self, st, kind, kw)

    def violate(self, st, rule, msg, where=None):
        w = where or self.where(st)
        lib = next((x for x in w if "/kelcoro/" in (x[1] or "")), w[0] if w else None)
        key = (rule, msg, lib[1:3] if lib else None)
        if key in self._vkeys:
            return
        self._vkeys.add(key)
        tr = []
        t = st.trace
        while t and len(tr) < 60:
            tr.append(t[0])
            t = t[1]
        tr.reverse()
        self.violations.append(dict(rule=rule, msg=msg, where=w, at=lib, trace=tr, root=getattr(self, "root", "")))

    def check(self, st, cond, rule, msg):
        """an obligation: cond must be provably true"""
        self.obligations += 1
        d = st.decide(cond) if isinstance(cond, Cond) else bool(cond)
        if d is not True:
            self.violate(st, rule, msg)
            return False
        return True

    # ------------------------------------------------------------------ running
    def start(self, st, fname, args, tag="main", mode="call"):
        f = self.m.funcs.get(fname)
        if f is None or f.decl:
            raise AnalysisError("entry %s not found" % fname)
        self.push(st, f, args, mode)
        st.acts[-1].tag = tag

    def run(self, st, fname, args):
        """analyses fname from state st; returns the list of (state, endkind, value)"""
        self.root = fname
        base = len(st.acts)
        self.start(st, fname, args)
        return self.go(st, base)

    def go(self, st, base):
        work = deque([st])
        ends = []
        while work:
            s = work.popleft()
            self.stats["states"] += 1
            if self.stats["states"] > self.max_states:
                raise AnalysisError("state budget exceeded in " + self.root)
            if self.deadline and time.time() > self.deadline:
                raise AnalysisError("time budget exceeded in " + self.root)
            try:
                r = self.exec_path(s, base, work)
            except Abort as e:
                r = self.aborted(s, e)
            except Gap as e:
                g = "%s at %s" % (e, ["%s:%s" % (w[1], w[2]) for w in self.where(s, 3)])
                self.gaps[g] = self.gaps.get(g, 0) + 1
                self.ending.add(s.node)
                r = None
            if r is not None:
                self.ending.add(s.node)
                self.stats["paths"] += 1
                self.endkinds[r[0]] = self.endkinds.get(r[0], 0) + 1
                if self.on_path_end:
                    self.on_path_end(self, s, r[0], r[1])
                else:
                    ends.append((s, r[0], r[1]))
        if base == 0:
            self.divergence()
        return ends

    def divergence(self):
        """from every loop head reached, some continuation must come to an end"""
        self.obligations += len(self.nodes)
        if self.violations or self.gaps:
            return
        back = {}
        for a, ss in self.edges.items():
            for b in ss:
                back.setdefault(b, []).append(a)
        ok = set(self.ending)
        todo = list(ok)
        while todo:
            for a in back.get(todo.pop(), ()):
                if a not in ok:
                    ok.add(a)
                    todo.append(a)
        for n, x in enumerate(self.nodes):
            if x and n not in ok:
                self.violate(x[0], "divergence", "no continuation of this loop ever ends", where=x[1])
                return

    def aborted(self, s, e):
        k = e.kind
        if k == "infeasible":
            self.ending.add(s.node)
            self.stats["infeasible"] += 1
            return None
        if k == "cut":
            self.ending.add(s.node)
            self.stats["cut"] += 1
            return None
        if k == "subsumed":
            self.stats["subsumed"] += 1
            return None
        self.ending.add(s.node)
        if k == "violation":
            return None
        if k == "uninit":
            self.violate(s, "uninitialised-read", "decision depends on an uninitialised value (%s)" % e.info)
            return None
        return (k, e.info)

    def exec_path(self, st, base, work):
        m = self.m
        while True:
            act = st.acts[-1]
            ins = act.fn.blocks[act.b][act.i]
            self.stats["instrs"] += 1
            st.steps += 1
            if st.steps - st.fstep > 600000:
                self.violate(st, "divergence", "the program goes on for ever without any decision left to take")
                raise Abort("violation")
            if st.steps > 2000000:
                raise Gap("path too long in " + self.root)
            try:
                if "__syncnext" in st.mon:
                    st.mon.pop("__syncnext")
                    self.sync_point(st, act, ins, "after", None)
                r = self.step(st, act, ins)
            except Fork as f:
                ss = f.states
                self.stats["forks"] += len(ss) - 1
                for x in ss:
                    x.gcnt += 1
                    x.fstep = x.steps
                for x in ss:
                    if x is not st:
                        work.append(x)
                if st not in ss:
                    return None
                continue
            if r is not None:
                if r == "ret":
                    v = st.pending
                    st.pending = None
                    if len(st.acts) == base:
                        return ("ret", v)
                elif r == "unwound":
                    return ("unwind", st.exc)
            if len(st.acts) < base:
                return ("ret", None)

    # ------------------------------------------------------------------ operands
    def val(self, st, act, o):
        if isinstance(o, int):
            try:
                return act.env[o]
            except KeyError:
                raise Gap("undefined SSA value %d in %s" % (o, act.fn.dem))
        k = o[0]
        if k == "c":
            return signed(o[2], o[1]) if o[1] > 1 else o[2] & 1
        if k == "n":
            return 0
        if k == "g":
            return self.global_addr(st, o[1])
        if k == "off":
            return add(self.val(st, act, o[1]), o[2])
        if k == "f":
            return self.func_addr(o[1])
        if k == "u":
            return lin_of(Atom("undef", "undef"))
        if k == "z":
            return self.zero_of(o[1])
        if k == "agg":
            return tuple(self.val(st, act, x) for x in o[1])
        if k == "fl":
            return op("fl", o[1])
        if k == "tok":
            return None
        if k == "md" or k == "asm" or k == "bb":
            return None
        if k == "ce":
            return self.const_expr(st, act, o)
        return lin_of(Atom("sym", "unk"))

    def const_expr(self, st, act, o):
        if o[1] in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc", "zext"):
            return self.val(st, act, o[2])
        if o[1] in ("sub", "add", "mul", "and", "or", "xor"):
            return binop(st, o[1], self.val(st, act, o[2]), self.val(st, act, o[3]), 64)
        return lin_of(Atom("sym", "ce"))

    def zero_of(self, t):
        if isinstance(t, list):
            if t[0] == "s":
                return tuple(self.zero_of(x[1]) for x in t[2])
            return tuple(self.zero_of(t[4]) for _ in range(t[2]))
        return 0

    def func_addr(self, name):
        a = self.garea.get(("f", name))
        if a is None:
            a = Atom("func", "&" + name, extra=None)
            a.key = name
            self.garea[("f", name)] = a
        return lin_of(a)

    def global_addr(self, st, name):
        a = self.garea.get(("g", name))
        if a is None:
            a = Atom("region", "@" + name)
            self.garea[("g", name)] = a
        if a not in st.mem:
            g = self.m.globals.get(name)
            r = Region(a, "global", g["size"] if g else None, {"global": name, "const": g["const"] if g else 0, "tls": g["tls"] if g else 0})
            st.mem[a] = r
            st.own.add(a)
            if g and g["init"] is not None:
                self.init_cells(st, r, 0, g["init"], g["ty"])
                r.zero = True
            else:
                self.lib.extern_global(self, st, name, r)
        return lin_of(a)

    def init_cells(self, st, r, off, init, t):
        if isinstance(t, list) and t[0] == "s":
            if init[0] == "agg":
                for (o, et), x in zip(t[2], init[1]):
                    self.init_cells(st, r, off + o, x, et)
            elif init[0] == "z":
                pass
            return
        if isinstance(t, list) and t[0] == "a":
            if init[0] == "agg":
                for i, x in enumerate(init[1]):
                    self.init_cells(st, r, off + i * t[3], x, t[4])
            return
        if init[0] in ("z", "u"):
            return
        v = self.val(st, None, init)
        if v == 0:
            return
        r.cells[((), off)] = (self.tsize(t), v)

    @staticmethod
    def tsize(t):
        if isinstance(t, list):
            return t[1]
        if t == "p":
            return 8
        if t[0] == "i" or t[0] == "f":
            return (int(t[1:]) + 7) // 8
        return 0

    # ------------------------------------------------------------------ memory access
    def resolve(self, st, p, what, size=1):
        """pointer value -> (region atom, symkey, offset)"""
        p = st.norm(p)
        if isinstance(p, int):
            self.violate(st, "null-dereference", "%s through a null pointer" % what)
            raise Abort("violation")
        if isinstance(p, Cond):
            raise Gap("deref of bool")
        base = None
        for a, k in p.t:
            if k == 1 and a in st.mem:
                base = a
                break
        if base is None:
            for a, k in p.t:
                if k == 1 and a.kind == "region":
                    # object that no longer exists
                    self.violate(st, "use-after-lifetime", "%s of an object whose lifetime has ended (%s)" % (what, a.name))
                    raise Abort("violation")
            for a, k in p.t:
                if k == 1 and (a.kind == "sym" or a.kind == "op"):
                    base = a
                    break
            if base is None:
                for a, k in p.t:
                    if a.kind == "undef":
                        self.violate(st, "uninitialised-read", "%s through an uninitialised pointer" % what)
                        raise Abort("violation")
                raise Gap("cannot resolve address %r (%s) at %s" % (p, what, self.where(st, 3)))
            if base.kind == "undef":
                self.violate(st, "uninitialised-read", "%s through an uninitialised pointer" % what)
                raise Abort("violation")
            b = lin_of(base)
            d = st.decide(Cond("eq", b))
            if d is None:
                if self.strict_null and base.extra and base.extra.get("maynull"):
                    self.violate(st, "null-dereference", "%s through %s, which may be null here" % (what, base.name))
                st.neq = st.neq | {b}
            r = Region(base, "lazy", None, {"name": base.name})
            st.mem[base] = r
            st.own.add(base)
        rest = add(p, lin_of(base), -1)
        if isinstance(rest, int):
            return base, (), rest
        for a, _ in rest.t:
            # an index taken modulo a small number: one case each
            if a.kind == "op" and a.key[0] == "bin" and a.key[1] == "urem" and isinstance(a.key[3], int) and 2 <= a.key[3] <= 8:
                for k in range(a.key[3] - 1):
                    if self.split(st, Cond("eq", add(lin_of(a), -k))):
                        break
                else:
                    st.assume(Cond("eq", add(lin_of(a), 1 - a.key[3])), True)
                q = st.norm(p)
                if q == p:
                    raise Gap("cannot decide the index in %r" % p)
                return self.resolve(st, q, what, size)
            # any other index known to be small
            if abs(k_ := dict(rest.t)[a]) >= 4 and a.kind in ("op", "sym"):
                lo, hi = st.atom_range(a)
                if lo is not None and hi is not None and 0 <= hi - lo < 8:
                    for k in range(lo, hi):
                        if self.split(st, Cond("eq", add(lin_of(a), -k))):
                            break
                    else:
                        st.assume(Cond("eq", add(lin_of(a), -hi)), True)
                    q = st.norm(p)
                    if q != p:
                        return self.resolve(st, q, what, size)
        return base, rest.t, rest.c

    def access_check(self, st, base, off, size, what):
        r = st.mem[base]
        if r.state != "live":
            if r.state == "ended":
                self.violate(st, "use-after-lifetime", "%s of %s after the end of its lifetime" % (what, base.name))
                raise Abort("violation")
            if r.state == "freed":
                self.violate(st, "use-after-free", "%s of %s after it was freed" % (what, base.name))
                raise Abort("violation")
            if r.state == "handed":
                # code of the coroutine itself touching its own temporaries is not an access to the frame
                act = st.acts[-1]
                own = r.info.get("coro")
                if not (own is not None and act.coro is own):
                    self.violate(st, "touch-after-handoff", "%s of %s after it was handed over (%s)" % (what, base.name, r.info.get("why", "")))
                    raise Abort("violation")
            if r.state == "frame-freed":
                act = st.acts[-1]
                own = r.info.get("coro")
                if not (own is not None and act.coro is own):
                    self.violate(st, "use-after-free", "%s of %s inside a destroyed coroutine frame" % (what, base.name))
                    raise Abort("violation")
        return r

    def bounds(self, st, r, base, sym, off, size, what):
        if not sym and isinstance(r.size, int) and isinstance(size, int):
            if off < 0 or off + size > r.size:
                self.violate(st, "out-of-bounds", "%s of %d byte(s) at offset %d of %s (size %d)" % (what, size, off, base.name, r.size))
                raise Abort("violation")
            return
        if r.kind != "heap":
            return
        total = st.norm(r.info.get("asize"))
        at = Lin(off, sym) if sym else off
        self.obligations += 1
        for c, txt in ((Cond("le", True, add(at, size), total), "past its end"), (Cond("le", True, 0, at), "before its begin")):
            if st.decide(c) is True:
                continue
            w = st.refute(c)
            if isinstance(w, str):
                self.violate(st, "out-of-bounds", "%s of %d byte(s) at offset %r of %s, %s (size %r)%s" % (
                    what, size, at, base.name, txt, total, ": e.g. " + w if w else ""))
                raise Abort("violation")
            g = "bounds of a %s not decided" % what
            self.gaps[g] = self.gaps.get(g, 0) + 1

    def load(self, st, p, t, what="read", order=""):
        if isinstance(t, list):
            if t[0] == "s":
                return tuple(self.load(st, add(p, o), et, what) for o, et in t[2])
            return tuple(self.load(st, add(p, i * t[3]), t[4], what) for i in range(t[2]))
        size = self.tsize(t)
        base, sym, off = self.resolve(st, p, what, size)
        r = self.access_check(st, base, off, size, what)
        self.bounds(st, r, base, sym, off, size, what)
        v = self.peek(st, base, sym, off, size, t)
        for h in self.access_hooks:
            h(self, st, "load", base, sym, off, size, v, order)
        return v

    def peek(self, st, base, sym, off, size, t="p"):
        r = st.mem[base]
        c = r.cells.get((sym, off))
        if c is None and sym:
            # maybe equal symbolic offsets under current facts
            n = st.norm(Lin(off, sym))
            if isinstance(n, int):
                sym, off = (), n
            else:
                sym, off = n.t, n.c
            c = r.cells.get((sym, off))
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, Lin):
                v = st.norm(v)
            return v
        # containing cell, or pieces
        parts = []
        for (s2, o2), (z2, v2) in r.cells.items():
            if s2 == sym and o2 < off + size and off < o2 + z2:
                if o2 <= off and off + size <= o2 + z2:
                    v2 = st.norm(v2) if isinstance(v2, Lin) else v2
                    if isinstance(v2, int):
                        u = v2 & ((1 << (8 * z2)) - 1)
                        return signed((u >> (8 * (off - o2))) & ((1 << (8 * size)) - 1), 8 * size)
                    return piece(st, v2, off - o2, size)
                parts.append((o2, z2, v2))
        if parts:
            parts.sort()
            u = 0
            ok = True
            covered = 0
            for o2, z2, v2 in parts:
                v2 = st.norm(v2) if isinstance(v2, Lin) else v2
                if not isinstance(v2, int) or o2 < off or o2 + z2 > off + size:
                    ok = False
                    break
                u |= (v2 & ((1 << (8 * z2)) - 1)) << (8 * (o2 - off))
                covered += z2
            if ok and (covered == size or r.zero):
                return signed(u, 8 * size)
            return op("join", size, tuple((o - off, z, v) for o, z, v in parts))
        if r.zero:
            return 0
        if sym and r.kind in ("heap", "stack") and isinstance(r.size, int) and any(not k[0] for k in r.cells):
            raise Gap("read at an undecided index of %s" % base.name)
        if r.kind == "lazy" or r.kind == "global" or sym:
            nm = "%s.%s%d" % (base.name, ("[%r]" % (Lin(0, sym),) if sym else ""), off)
            ex = None
            if t == "p":
                ex = {"maynull": True}
            a = Atom("sym", nm, extra=ex)
            v = lin_of(a)
            rw = st.region_w(base)
            rw.cells[(sym, off)] = (size, v)
            return v
        # fresh local / heap memory: uninitialised
        a = Atom("undef", "uninit:%s+%d" % (base.name, off))
        v = lin_of(a)
        st.region_w(base).cells[(sym, off)] = (size, v)
        return v

    def store(self, st, p, v, t, what="write", order=""):
        if isinstance(t, list):
            if t[0] == "s":
                for i, (o, et) in enumerate(t[2]):
                    self.store(st, add(p, o), v[i], et, what)
            else:
                for i in range(t[2]):
                    self.store(st, add(p, i * t[3]), v[i], t[4], what)
            return
        size = self.tsize(t)
        base, sym, off = self.resolve(st, p, what, size)
        r = self.access_check(st, base, off, size, what)
        self.bounds(st, r, base, sym, off, size, what)
        if r.info.get("const"):
            self.violate(st, "write-to-constant", "write to constant object " + base.name)
            raise Abort("violation")
        if isinstance(v, Cond):
            d = st.decide(v)
            v = int(d) if d is not None else op("b2i", v)
        for h in self.access_hooks:
            h(self, st, "store", base, sym, off, size, v, order)
        self.poke(st, base, sym, off, size, v)

    def poke(self, st, base, sym, off, size, v):
        r = st.region_w(base)
        if sym:
            n = st.norm(Lin(off, sym))
            sym, off = ((), n) if isinstance(n, int) else (n.t, n.c)
        cells = r.cells
        if (sym, off) in cells and cells[(sym, off)][0] == size:
            cells[(sym, off)] = (size, v)
            return
        kill = [k for k, (z2, v2) in cells.items() if k[0] == sym and k[1] < off + size and off < k[1] + z2]
        for k in kill:
            z2, v2 = cells.pop(k)
            s2, o2 = k
            # keep the remainder of constants
            v2n = st.norm(v2) if isinstance(v2, Lin) else v2
            if isinstance(v2n, int):
                u = v2n & ((1 << (8 * z2)) - 1)
                for i in range(z2):
                    if not (off <= o2 + i < off + size):
                        cells[(s2, o2 + i)] = (1, signed((u >> (8 * i)) & 255, 8))
            else:
                for i in range(z2):
                    if not (off <= o2 + i < off + size):
                        cells[(s2, o2 + i)] = (1, piece(st, v2n, i, 1))
        cells[(sym, off)] = (size, v)

    def memcpy(self, st, d, s, n, what="memcpy"):
        n = st.norm(n)
        if n == 0:
            return
        db, ds, do = self.resolve(st, d, "write (%s)" % what)
        sb, ss, so = self.resolve(st, s, "read (%s)" % what)
        self.access_check(st, db, do, 1, "write (%s)" % what)
        sr = self.access_check(st, sb, so, 1, "read (%s)" % what)
        if not isinstance(n, int):
            self.poke(st, db, ds, do, 1, op("memcpy", lin_of(sb), n))
            return
        self.bounds(st, st.mem[db], db, ds, do, n, what)
        self.bounds(st, sr, sb, ss, so, n, what)
        src = {}
        if sr.kind in ("lazy", "global") and not sr.zero:
            # materialise 8-byte cells of an unknown source
            o = so
            while o < so + n:
                z = 8 if o % 8 == 0 and o + 8 <= so + n else 1
                have = [k for k in sr.cells if k[0] == ss and k[1] < o + z and o < k[1] + sr.cells[k][0]]
                if not have:
                    self.peek(st, sb, ss, o, z, "i%d" % (8 * z))
                    sr = st.mem[sb]
                o += z
        for (s2, o2), (z2, v2) in list(sr.cells.items()):
            if s2 == ss and so <= o2 and o2 + z2 <= so + n:
                src[o2 - so] = (z2, v2)
            elif s2 == ss and o2 < so + n and so < o2 + z2:
                lo = max(o2, so)
                hi = min(o2 + z2, so + n)
                src[lo - so] = (hi - lo, self.peek(st, sb, ss, lo, hi - lo, "i8"))
        rw = st.region_w(db)
        for k in [k for k, (z2, v2) in rw.cells.items() if k[0] == ds and k[1] < do + n and do < k[1] + z2]:
            rw.cells.pop(k)
        if sr.zero and not rw.zero:
            covered = set()
            for o, (z, v) in src.items():
                covered.update(range(o, o + z))
            o = 0
            while o < n:
                if o not in covered:
                    z = 1
                    if o % 8 == 0 and all((o + i) not in covered for i in range(8)) and o + 8 <= n:
                        z = 8
                    rw.cells[(ds, do + o)] = (z, 0)
                    o += z
                else:
                    o += 1
        for o, (z, v) in src.items():
            rw.cells[(ds, do + o)] = (z, v)
        for h in self.access_hooks:
            h(self, st, "load", sb, ss, so, n, None, "")
            h(self, st, "store", db, ds, do, n, None, "")

    def memset(self, st, d, v, n):
        n = st.norm(n)
        if n == 0:
            return
        db, ds, do = self.resolve(st, d, "write (memset)")
        self.access_check(st, db, do, 1, "write (memset)")
        if not isinstance(n, int):
            return
        self.bounds(st, st.mem[db], db, ds, do, n, "memset")
        rw = st.region_w(db)
        for k in [k for k, (z2, v2) in rw.cells.items() if k[0] == ds and k[1] < do + n and do < k[1] + z2]:
            z2, v2 = rw.cells.pop(k)
            for i in range(z2):
                if not (do <= k[1] + i < do + n):
                    rw.cells[(ds, k[1] + i)] = (1, piece(st, v2, i, 1))
        o = do
        while o < do + n:
            z = 8 if o % 8 == 0 and o + 8 <= do + n else 1
            if isinstance(v, int):
                b = v & 255
                rw.cells[(ds, o)] = (z, signed(int.from_bytes(bytes([b]) * z, "little"), 8 * z))
            else:
                rw.cells[(ds, o)] = (z, v)
            o += z
        for h in self.access_hooks:
            h(self, st, "store", db, ds, do, n, v, "")

    # ------------------------------------------------------------------ control
    def push(self, st, f, args, mode="call"):
        if len(st.acts) > 300:
            raise Abort("cut")
        a = Act()
        a.fn, a.b, a.i, a.env, a.visits = f, 0, 0, {}, {}
        a.stack, a.coro, a.mode, a.gen, a.prevb, a.started, a.noret = [], None, mode, 0, -1, set(), False
        a.pend, a.lastf = None, {}
        a.tag = st.acts[-1].tag if st.acts else "main"
        self.fns.add(f)
        for k, v in enumerate(args):
            if k < len(f.args):
                bv = f.args[k][1]
                if bv:
                    r = st.new_region("stack", "byval:%s" % f.args[k][4], bv)
                    self.memcpy(st, lin_of(r), v, bv)
                    a.stack.append(r)
                    v = lin_of(r)
                a.env[k] = v
        st.acts.append(a)
        return a

    def jump(self, st, act, target):
        f = act.fn
        blk = f.blocks[target]
        phis = []
        i = 0
        while blk[i][0] == "phi":
            ins = blk[i]
            for pb, v in ins[4]:
                if pb == act.b:
                    phis.append((ins[2], self.val(st, act, v)))
                    break
            i += 1
        for k, v in phis:
            act.env[k] = v
        act.prevb = act.b
        act.b, act.i = target, i
        if act.pend is not None and target not in coro_info(f).pre[act.pend]:
            self.not_suspended(st, act)
        if target in loop_heads(f):
            # iterations whose course was fully determined are not counted against the bound
            n = act.visits.get(target, 0)
            if n == 0 or act.lastf.get(target) != st.gcnt:
                n += 1
                act.visits[target] = n
                act.lastf[target] = st.gcnt
                if n > 1 and self.subsume:
                    self.check_subsumed(st, act, target)
                if n > self.bound + 1:
                    raise Abort("cut")

    def check_subsumed(self, st, act, target):
        if not self.fresh(st, ""):
            raise Abort("subsumed")

    def fresh(self, st, kind):
        """is this state new? In any case it becomes the latest node of the path in the reachability graph"""
        from .canon import signature
        key = (kind, signature(self, st))
        used = st.mon.get("__preempt", 0)
        old = self.seen.get(key)
        if old is None:
            n = len(self.nodes)
            x = State()
            x.trace = st.trace
            self.nodes.append((x, self.where(st)))
        else:
            n = old[1]
        self.edges.setdefault(st.node, set()).add(n)
        st.node = n
        if old is not None and old[0] <= used:
            if st.thr and used >= self.preemptions:
                self.ending.add(n)      # another thread might go on here, were it not for the bound
            return False
        self.seen[key] = (used, n)
        return True

    def branch(self, st, act, cond, tb, fb):
        d = st.decide(cond) if isinstance(cond, (Cond, int)) else st.decide(Cond("not", Cond("eq", cond)))
        if d is not None:
            self.jump(st, act, tb if d else fb)
            return
        if not isinstance(cond, Cond):
            cond = Cond("not", Cond("eq", cond))
        self.layout(st, cond)
        other = st.fork()
        ok1 = st.assume(cond, True)
        ok2 = other.assume(cond, False)
        if ok1 and ok2:
            raise Fork([st, other])
        if ok1:
            self.jump(st, act, tb)
            return
        if ok2:
            raise Fork([other])
        raise Abort("infeasible")

    def layout(self, st, cond):
        """an undecided comparison of addresses in two objects: either may lie below the other, one case each"""
        for x, sx, y, sy in linear.pairs(st, cond, []):
            below = Cond("le", True, add(lin_of(x), sx), lin_of(y))
            above = Cond("le", True, add(lin_of(y), sy), lin_of(x))
            if st.decide(below) or st.decide(above):
                continue
            other = st.fork()
            ok = [s for s, c in ((st, below), (other, above)) if s.assume(c, True)]
            if not ok:
                raise Abort("infeasible")
            raise Fork(ok)

    def split(self, st, cond):
        """forces a decision about cond in st (forking if needed)"""
        d = st.decide(cond)
        if d is not None:
            return d
        self.layout(st, cond)
        other = st.fork()
        ok1 = st.assume(cond, True)
        ok2 = other.assume(cond, False)
        if ok1 and ok2:
            if st.decide(cond) is None:
                raise Gap("undecidable split %r" % cond)
            raise Fork([st, other])
        if ok1:
            return True
        if ok2:
            raise Fork([other])
        raise Abort("infeasible")

    def choose(self, st, n, name="choice"):
        """nondeterministic choice 0..n-1: forks the state; remembered for the re-execution of the instruction"""
        k = ("choice", len(st.acts), st.steps)
        c = st.mon.get("__choice")
        if c is not None and c[0] == name and c[2] == len(st.acts):
            st.mon.pop("__choice")
            return c[1]
        out = []
        for i in range(n):
            s = st.fork() if i else st
            out.append(s)
        for i, s in enumerate(out):
            s.mon["__choice"] = (name, i, len(s.acts))
        raise Fork(out)

    def pop_act(self, st):
        act = st.acts.pop()
        if len(st.tids) > 1:
            for r in act.stack:
                races.kill(self, st, r, "end of life")
        for r in act.stack:
            st.mem.pop(r, None)
        if act.coro is not None:
            co = st.coros.get(act.coro)
            if co is not None and co.status == "destroyed" and not any(a.coro is act.coro for a in threads.all_acts(st)):
                for r in co.allocas:
                    st.mem.pop(r, None)
                st.mem.pop(act.coro, None)
        return act

    def not_suspended(self, st, act):
        """await_suspend declined (returned false or threw): the coroutine goes on without having been suspended"""
        co = st.coros.get(act.coro)
        act.pend = None
        if co is None:
            return
        if co.gen != act.gen:
            self.violate(st, "resumed-while-running", "coroutine %s continues after await_suspend although somebody else has already resumed or destroyed it" % co.name)
            raise Abort("violation")
        self.take_back(st, co)
        co.status = "running"

    def do_return(self, st, v):
        act = self.pop_act(st)
        if act.mode == "inject":
            st.inj_busy = None
            self.ev(st, "inject_end", fn=act.fn.name)
            if not st.acts:
                st.pending = v
                return "ret"
            return None
        if not st.acts:
            if st.cur != 0:
                threads.finished(self, st)
            if st.thr:
                raise Gap("the client returns while other threads run")
            st.pending = v
            return "ret"
        caller = st.acts[-1]
        self.finish_call(st, caller, v)
        if act.mode in ("resume", "destroy"):
            self.after_coro_call(st, act)
        st.pending = v
        return "ret"

    def finish_call(self, st, caller, v):
        ins = caller.fn.blocks[caller.b][caller.i]
        if ins[0] != "call":
            return
        if ins[3] != "v" and v is not None:
            caller.env[ins[2]] = v
        if ins[6]:
            self.jump(st, caller, ins[6][0])
        else:
            caller.i += 1

    def after_coro_call(self, st, act):
        pass

    def unwind(self, st, exc):
        """propagates exception exc (pointer value) to the nearest enclosing invoke"""
        st.exc = exc
        first = True
        while st.acts:
            act = st.acts[-1]
            ins = act.fn.blocks[act.b][act.i]
            if ins[0] == "call" and ins[6]:
                lp = next(x for x in act.fn.blocks[ins[6][1]] if x[0] != "phi")
                if lp[0] != "lpad" or self.selector(st, lp, exc)[0]:
                    self.jump(st, act, ins[6][1])
                    return None
            first = False
            self.pop_act(st)
            if act.mode == "inject":
                self.violate(st, "exception", "exception escapes interfering call")
                raise Abort("violation")
            if act.fn.nounwind and act.mode == "call" and not act.fn.presplit:
                self.ev(st, "terminate", why="exception leaves a noexcept function")
                st.acts.append(act)
                raise Abort("terminate", "noexcept")
        if st.cur != 0:
            self.ev(st, "terminate", why="exception leaves a thread")
            st.acts.append(act)
            raise Abort("terminate", "exception leaves a thread")
        return "unwound"

    # ------------------------------------------------------------------ instructions
    def step(self, st, act, ins):
        o = ins[0]
        env = act.env
        if o == "load":
            p = self.val(st, act, ins[4])
            if ins[6]:
                return self.atomic_load(st, act, ins, p)
            env[ins[2]] = self.load(st, p, ins[3])
        elif o == "store":
            v = self.val(st, act, ins[4])
            p = self.val(st, act, ins[5])
            if ins[7]:
                return self.atomic_store(st, act, ins, p, v)
            self.store(st, p, v, ins[8])
        elif o == "call":
            return self.call(st, act, ins)
        elif o == "br":
            if ins[4] is None:
                self.jump(st, act, ins[5])
                return None
            self.branch(st, act, self.as_bool(self.val(st, act, ins[4])), ins[5], ins[6])
            return None
        elif o == "gep":
            p = self.val(st, act, ins[4])
            p = add(p, ins[5]) if ins[5] else p
            for v, s, bits in ins[6]:
                p = add(p, self.as_int(st, self.val(st, act, v)), s)
            env[ins[2]] = p
        elif o == "icmp":
            env[ins[2]] = self.icmp(st, ins[4], self.val(st, act, ins[5]), self.val(st, act, ins[6]), ins[7])
        elif o == "ret":
            v = None if ins[4] is None else self.val(st, act, ins[4])
            return self.do_return(st, v)
        elif o == "bin":
            t = ins[3]
            if isinstance(t, list) or t[0] == "f":
                env[ins[2]] = op("fbin", ins[4], self.key(self.val(st, act, ins[5])), self.key(self.val(st, act, ins[6])))
            else:
                env[ins[2]] = binop(st, ins[4], self.val(st, act, ins[5]), self.val(st, act, ins[6]), int(t[1:]))
        elif o == "cast":
            env[ins[2]] = self.cast(st, ins[4], self.val(st, act, ins[5]), ins[6], ins[3])
        elif o == "alloca":
            size = ins[4]
            if size < 0:
                n = st.norm(self.val(st, act, ins[8]))
                size = n * ins[7] if isinstance(n, int) else None
            r = st.new_region("stack", "%s::%s" % (self.short(act.fn), ins[6]), size, {"alloca": ins[2], "align": ins[5]})
            r.extra = {"align": ins[5]}
            act.stack.append(r)
            env[ins[2]] = lin_of(r)
        elif o == "extract":
            v = self.val(st, act, ins[4])
            for i in ins[5]:
                v = v[i] if isinstance(v, tuple) else lin_of(Atom("undef", "undef"))
            env[ins[2]] = v
        elif o == "insert":
            env[ins[2]] = self.insert(self.val(st, act, ins[4]), self.val(st, act, ins[5]), ins[6], ins[3])
        elif o == "select":
            c = self.as_bool(self.val(st, act, ins[4]))
            d = self.split(st, c) if isinstance(c, Cond) else bool(c)
            env[ins[2]] = self.val(st, act, ins[5] if d else ins[6])
        elif o == "switch":
            return self.switch(st, act, ins)
        elif o == "lpad":
            env[ins[2]] = (st.exc, self.selector(st, ins, st.exc)[1])
            st.exc = None
        elif o == "eresume":
            v = self.val(st, act, ins[4])
            exc = v[0]
            # leave this function
            act.noret = True
            a = self.pop_act(st)
            if not st.acts:
                if st.cur != 0:
                    self.ev(st, "terminate", why="exception leaves a thread")
                    st.acts.append(a)
                    raise Abort("terminate", "exception leaves a thread")
                st.exc = exc
                return "unwound"
            if a.mode in ("resume", "destroy"):
                self.after_coro_call(st, a)
            return self.unwind(st, exc)
        elif o == "rmw":
            return self.rmw(st, act, ins)
        elif o == "cas":
            return self.cas(st, act, ins)
        elif o == "fence":
            self.ev(st, "fence", order=ins[4])
        elif o == "unreachable":
            self.violate(st, "unreachable-reached", "control reaches a point the code declares unreachable")
            raise Abort("violation")
        elif o == "fcmp":
            env[ins[2]] = Cond("b", Atom("sym", "fcmp"))
        elif o == "phi":
            raise Gap("phi reached")
        else:
            env[ins[2]] = lin_of(Atom("sym", "unk:" + str(ins[4])))
        act.i += 1
        return None

    def exc_type(self, st, exc):
        exc = st.norm(exc)
        if isinstance(exc, Lin) and len(exc.t) == 1:
            r = st.mem.get(exc.t[0][0])
            if r is not None:
                return r.info.get("etype")
        return None

    def selector(self, st, lp, exc):
        """(does this landing pad stop the exception?, selector value)"""
        ty = self.exc_type(st, exc)
        for isc, cl in lp[5]:
            if not isc:
                continue
            if cl[0] == "n":
                return True, lin_of(Atom("sym", "selector"))
            name = cl[1] if cl[0] in ("g", "off") else None
            if isinstance(name, list):
                name = name[1]
            if name is not None and ty is not None and self.lib.exc_match(ty, name):
                return True, op("typeid", name)
        return bool(lp[4]), 0

    @staticmethod
    def short(f):
        d = f.dem
        i = d.find("(")
        d = d if i < 0 else d[:i]
        return d[-60:]

    @staticmethod
    def key(v):
        return v

    def insert(self, agg, v, idx, t):
        if not isinstance(agg, tuple):
            n = len(t[2]) if t[0] == "s" else t[2]
            agg = tuple(lin_of(Atom("undef", "undef")) for _ in range(n))
        i = idx[0]
        l = list(agg)
        if len(idx) > 1:
            sub = t[2][i][1] if t[0] == "s" else t[4]
            l[i] = self.insert(l[i], v, idx[1:], sub)
        else:
            l[i] = v
        return tuple(l)

    def as_bool(self, v):
        if isinstance(v, (int, Cond)):
            return v
        return Cond("not", Cond("eq", v))

    def as_int(self, st, v):
        if isinstance(v, Cond):
            d = st.decide(v)
            return int(d) if d is not None else op("b2i", v)
        return v

    def icmp(self, st, pred, a, b, t):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if pred == "eq":
                r = binop(st, "xor", a, b, 1)
                return binop(st, "xor", r, 1, 1)
            if pred == "ne":
                return binop(st, "xor", a, b, 1)
            a, b = self.as_int(st, a), self.as_int(st, b)
        a, b = st.norm(a), st.norm(b)
        if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
            return Cond("b", Atom("sym", "cmp"))
        if pred in ("eq", "ne"):
            d = add(a, b, -1)
            if isinstance(d, int):
                if not isinstance(t, list) and t[0] == "i":
                    d &= (1 << int(t[1:])) - 1
                r = 1 if d == 0 else 0
                return r if pred == "eq" else 1 - r
            c = Cond("eq", d)
            dd = st.decide(c)
            if dd is not None:
                return int(dd) if pred == "eq" else int(not dd)
            return c if pred == "eq" else Cond("not", c)
        sg = pred[0] == "s"
        if isinstance(a, int) and isinstance(b, int) and not sg:
            bits = 64 if t == "p" else int(t[1:])
            a &= (1 << bits) - 1
            b &= (1 << bits) - 1
            return int({"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred])
        k = pred[1:]
        if k == "lt":
            c = Cond("lt", sg, a, b)
        elif k == "le":
            c = Cond("le", sg, a, b)
        elif k == "gt":
            c = Cond("lt", sg, b, a)
        else:
            c = Cond("le", sg, b, a)
        d = st.decide(c)
        return int(d) if d is not None else c

    def cast(self, st, o, v, ts, td):
        if isinstance(v, tuple) or v is None:
            return v
        if o in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            return v
        if isinstance(ts, list) or isinstance(td, list):
            return op("cast", o, v)
        if o in ("zext", "sext"):
            if isinstance(v, Cond):
                d = st.decide(v)
                if d is not None:
                    return (1 if d else 0) if o == "zext" else (-1 if d else 0)
                r = op("b2i", v)
                return r if o == "zext" else mulc(r, -1)
            v = st.norm(v)
            bs = int(ts[1:])
            if isinstance(v, int):
                return v & ((1 << bs) - 1) if o == "zext" else signed(v, bs)
            return v
        if o == "trunc":
            bd = int(td[1:])
            if isinstance(v, Cond):
                return v
            v = st.norm(v)
            if isinstance(v, int):
                return signed(v, bd) if bd > 1 else v & 1
            if bd == 1:
                if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0].kind == "op" and v.t[0][0].key[0] == "b2i":
                    return v.t[0][0].key[1]
                return Cond("not", Cond("eq", v))
            if is_join(v) and bd % 8 == 0:
                return piece(st, v, 0, bd // 8)
            if int(ts[1:]) > bd and bd <= 32:
                lo, hi = st.range_of(v)
                if lo is not None and hi is not None and lo >= 0 and hi < (1 << (bd - 1)):
                    return v
                return op("trunc", v, bd)
            return v
        return op("cast", o, v)

    def switch(self, st, act, ins):
        v = self.val(st, act, ins[4])
        v = self.as_int(st, v)
        v = st.norm(v)
        if isinstance(v, int):
            for c, b in ins[6]:
                if signed(c[2], c[1]) == signed(v, c[1]):
                    self.jump(st, act, b)
                    return None
            self.jump(st, act, ins[5])
            return None
        for c, b in ins[6]:
            d = self.split(st, Cond("eq", add(v, -signed(c[2], c[1]))))
            if d:
                self.jump(st, act, b)
                return None
        self.jump(st, act, ins[5])
        return None

    # ------------------------------------------------------------------ atomics
    def sync_point(self, st, act, ins, kind, addr):
        """interference: the other party's call may run right before this operation"""
        if self.sync_hook:
            self.sync_hook(self, st, act, ins, kind, addr)
        if st.inj and st.inj_busy is None and st.mon.get("__nosync") != (len(st.acts), st.steps):
            # fork: run the interfering call first
            if not threads.fresh(self, st):
                raise Fork([])
            other = st.fork()
            st.mon["__nosync"] = (len(st.acts), st.steps + 1)
            fn, args = other.inj[0]
            other.inj = other.inj[1:]
            other.inj_busy = fn
            self.ev(other, "inject", fn=fn, at=kind)
            f = self.m.funcs[fn]
            self.push(other, f, args, "inject")
            other.acts[-1].tag = "inj"
            raise Fork([st, other])
        if st.thr and st.mon.get("__nosync") != (len(st.acts), st.steps):
            st.mon["__nosync"] = (len(st.acts), st.steps + 1)
            raise Fork(threads.preempt(self, st))
        st.mon.pop("__nosync", None)

    def sync_after(self, st):
        if st.thr or (st.inj and st.inj_busy is None):
            st.mon["__syncnext"] = 1

    def atomic_load(self, st, act, ins, p):
        ch = st.mon.get("__choice")
        if not (ch is not None and ch[0] == "stale"):
            self.sync_point(st, act, ins, "load", p)
        base, sym, off = self.resolve(st, p, "atomic read", ins[5])
        self.access_check(st, base, off, ins[5], "atomic read")
        if st.mem[base].shared:
            v = self.fresh_shared(st, base, off, ins[3])
            self.poke(st, base, sym, off, ins[5], v)
        else:
            v = self.peek(st, base, sym, off, ins[5], ins[3])
        back = 0
        if len(st.tids) > 1 and st.hist:
            n = 0
            if st.mon.get("__stale", 0) < self.stale:
                n = races.choices(st, (base, sym, off), ins[5], ins[6])
            if n:
                back = self.choose(st, 1 + n, "stale")
        if back:
            st.mon["__stale"] = st.mon.get("__stale", 0) + 1
            v = races.read_stale(st, (base, sym, off), back, ins[6])
            self.ev(st, "aload", base=base, off=off, sym=sym, val=v, order=ins[6], size=ins[5], stale=back)
        else:
            self.ev(st, "aload", base=base, off=off, sym=sym, val=v, order=ins[6], size=ins[5])
        act.env[ins[2]] = v
        act.i += 1

    def fresh_shared(self, st, base, off, t):
        return lin_of(Atom("sym", "%s.%d'" % (base.name, off), extra={"maynull": True, "shared": True} if t == "p" else None))

    def atomic_store(self, st, act, ins, p, v):
        self.sync_point(st, act, ins, "store", p)
        base, sym, off = self.resolve(st, p, "atomic write", ins[6])
        self.access_check(st, base, off, ins[6], "atomic write")
        old = self.peek(st, base, sym, off, ins[6], ins[8])
        v = self.as_int(st, v)
        self.poke(st, base, sym, off, ins[6], v)
        self.ev(st, "astore", base=base, off=off, sym=sym, val=v, old=old, order=ins[7], size=ins[6])
        self.sync_after(st)
        act.i += 1

    def rmw(self, st, act, ins):
        p = self.val(st, act, ins[5])
        v = self.as_int(st, self.val(st, act, ins[6]))
        self.sync_point(st, act, ins, "rmw", p)
        base, sym, off = self.resolve(st, p, "atomic update", ins[7])
        self.access_check(st, base, off, ins[7], "atomic update")
        if st.mem[base].shared:
            old = self.fresh_shared(st, base, off, ins[3])
        else:
            old = self.peek(st, base, sym, off, ins[7], ins[3])
        o = ins[4]
        bits = 8 * ins[7]
        if o == "xchg":
            new = v
        elif o in ("add", "sub", "and", "or", "xor"):
            new = binop(st, o, old, v, bits)
        else:
            new = op("rmw", o, old, v)
        self.poke(st, base, sym, off, ins[7], new)
        act.env[ins[2]] = old
        self.ev(st, "rmw", op=o, base=base, off=off, sym=sym, old=old, new=new, arg=v, order=ins[8], size=ins[7])
        self.sync_after(st)
        act.i += 1

    def cas(self, st, act, ins):
        p = self.val(st, act, ins[4])
        exp = self.as_int(st, self.val(st, act, ins[5]))
        new = self.as_int(st, self.val(st, act, ins[6]))
        ch = st.mon.get("__choice")
        if not (ch is not None and ch[0] == "cas"):
            self.sync_point(st, act, ins, "cas", p)
        base, sym, off = self.resolve(st, p, "atomic update", ins[7])
        self.access_check(st, base, off, ins[7], "atomic update")
        shared = st.mem[base].shared
        if shared:
            n = self.choose(st, 2, "cas")
            if n == 0:
                old = exp
                ok = 1
            else:
                old = self.fresh_shared(st, base, off, "p" if ins[11] == "p" else "i64")
                ok = 0
        else:
            old = self.peek(st, base, sym, off, ins[7], ins[11])
            c = Cond("eq", add(self.as_int(st, old), exp, -1)) if not (isinstance(old, int) and isinstance(exp, int)) else (1 if old == exp else 0)
            if isinstance(c, Cond):
                ok = self.split(st, c)
            else:
                ok = c
            if ok and ins[10] and not st.mon.get("__weakfail"):
                # a weak compare-exchange may fail spuriously (once per path)
                n = self.choose(st, 2, "cas")
                if n == 1:
                    ok = 0
                    st.mon["__weakfail"] = 1
        if ok:
            self.poke(st, base, sym, off, ins[7], new)
        elif shared:
            self.poke(st, base, sym, off, ins[7], old)
        act.env[ins[2]] = (old, 1 if ok else 0)
        self.ev(st, "cas", base=base, off=off, sym=sym, old=old, exp=exp, new=new, ok=bool(ok), order=ins[8], forder=ins[9], size=ins[7])
        if ok:
            self.sync_after(st)
        act.i += 1

    # ------------------------------------------------------------------ calls
    def call(self, st, act, ins):
        c = ins[4]
        if isinstance(c, list) and c[0] == "f":
            name = c[1]
        elif isinstance(c, list) and c[0] == "asm":
            self.ret_call(st, act, ins, lin_of(Atom("sym", "asm")) if ins[3] != "v" else None)
            return None
        else:
            fv = st.norm(self.val(st, act, c))
            name = None
            if isinstance(fv, Lin) and fv.c == 0 and len(fv.t) == 1 and fv.t[0][0].kind == "func":
                name = fv.t[0][0].key
            else:
                if isinstance(fv, int):
                    self.violate(st, "null-dereference", "call through a null function pointer")
                    raise Abort("violation")
                if fv.t[0][0].kind == "undef":
                    self.violate(st, "uninitialised-read", "call through an uninitialised function pointer")
                    raise Abort("violation")
                args = [self.val(st, act, a) for a in ins[5]]
                self.ev(st, "icall", fn=fv, args=args)
                self.ret_call(st, act, ins, self.fresh_of(ins[3], "icall"))
                return None
        f = self.m.funcs.get(name)
        if f is None:
            raise Gap("unknown function " + name)
        mdl = f.model
        if mdl == 0:
            mdl = f.model = self.lib.find(self, f)
        args = [self.val(st, act, a) for a in ins[5]]
        if mdl is not None:
            r = mdl(self, st, act, ins, f, args)
            if r is NOTHING:
                if "__ret" in st.mon:
                    st.mon.pop("__ret")
                    return "ret"
                return None
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "__throw":
                st.mon["__uncaught"] = st.mon.get("__uncaught", 0) + 1
                return self.unwind(st, r[1])
            self.ret_call(st, act, ins, r)
            return None
        if f.decl:
            return self.external(st, act, ins, f, args)
        self.push(st, f, args)
        return None

    def fresh_of(self, t, name):
        if t == "v":
            return None
        if isinstance(t, list):
            if t[0] == "s":
                return tuple(self.fresh_of(x[1], name) for x in t[2])
            return tuple(self.fresh_of(t[4], name) for _ in range(t[2]))
        if t == "i1":
            return Cond("b", Atom("sym", name))
        return lin_of(Atom("sym", name, extra={"maynull": True} if t == "p" else None))

    def external(self, st, act, ins, f, args):
        if f.name.startswith("llvm."):
            self.unmodelled[f.name] = self.unmodelled.get(f.name, 0) + 1
            self.ret_call(st, act, ins, self.fresh_of(ins[3], f.name))
            return None
        if not f.name.startswith("va_"):
            self.unmodelled[f.dem] = self.unmodelled.get(f.dem, 0) + 1
        self.ev(st, "ext", fn=f.name, dem=f.dem, args=args)
        if f.noreturn:
            raise Abort("noreturn", f.dem)
        if f.name in self.throwing:
            if self.choose(st, 2, "throws:" + f.name) == 1:
                return self.throw_ext(st, f.name)
        self.ret_call(st, act, ins, self.fresh_of(ins[3], "%s()" % f.name))
        return None

    def throw_ext(self, st, name):
        e = Atom("sym", "exception from " + name, extra={"lo": 1})
        v = lin_of(e)
        st.neq = st.neq | {v}
        st.mon["__uncaught"] = st.mon.get("__uncaught", 0) + 1
        self.ev(st, "throw", exc=v, src=name)
        return self.unwind(st, v)

    def ret_call(self, st, act, ins, v):
        if ins[3] != "v":
            act.env[ins[2]] = v
        if ins[6]:
            self.jump(st, act, ins[6][0])
        else:
            act.i += 1

    # ------------------------------------------------------------------ coroutines
    def coro_of(self, st, h):
        h = st.norm(h)
        if isinstance(h, Lin) and h.c == 0 and len(h.t) == 1 and h.t[0][1] == 1:
            return st.coros.get(h.t[0][0])
        return None

    def hname(self, st, h):
        c = self.coro_of(st, h)
        return c.name if c else repr(st.norm(h))

    def coro_save(self, st, act, tok):
        ci = coro_info(act.fn)
        co = st.coros.get(act.coro)
        if co is None:
            return
        pos = ci.suspends.get(tok)
        self.mark_suspended(st, act, co, pos)
        act.pend = tok

    def mark_suspended(self, st, act, co, pos):
        ci = coro_info(act.fn)
        co.block, co.idx = pos
        co.env = dict(act.env)
        co.visits = dict(act.visits)
        co.lastf = dict(act.lastf)
        co.gen += 1
        act.gen = co.gen
        co.status = "done" if ci.final == pos else "suspended"
        if len(st.tids) > 1:
            races.access(self, st, races.WRITE, co.h, (), -8, 8)
        # objects that live in the frame across this suspension
        res = set()
        live = ci.live_after.get(pos, set())
        for aid in ci.allocas:
            v = act.env.get(aid)
            if v is None:
                continue
            reg = v.t[0][0]
            if aid in ci.has_markers:
                if reg in act.started:
                    res.add(reg)
            elif aid in live or aid == ci.promise:
                res.add(reg)
        co.resident = res

    def coro_resume(self, st, act, ins, h, mode):
        h = st.norm(h)
        if isinstance(h, int):
            self.violate(st, "null-resume", "%s of a null coroutine handle" % mode)
            raise Abort("violation")
        co = self.coro_of(st, h)
        if co is None:
            if isinstance(h, Lin) and h.t[0][0].kind == "region" and h.t[0][0] not in st.mem:
                self.violate(st, "use-after-free", "%s of a destroyed coroutine" % mode)
                raise Abort("violation")
            if isinstance(h, Lin) and h.t[0][0].kind == "undef":
                self.violate(st, "uninitialised-read", "%s of an uninitialised coroutine handle" % mode)
                raise Abort("violation")
            if isinstance(h, Lin) and self.strict_null and h.t[0][0].extra and h.t[0][0].extra.get("maynull") and st.decide(Cond("eq", h)) is None:
                self.violate(st, "null-resume", "%s of handle %r, which may be null here" % (mode, h))
                st.neq = st.neq | {h}
            if isinstance(h, Lin) and len(h.t) == 1 and h.t[0][0].kind == "region" and st.mem[h.t[0][0]].state == "freed":
                self.violate(st, "use-after-free", "%s of a destroyed coroutine (%s)" % (mode, h.t[0][0].name))
                raise Abort("violation")
            self.ev(st, mode, h=h, known=False)
            self.ret_call(st, act, ins, None)
            return None
        if co.status == "destroyed":
            self.violate(st, "use-after-free", "%s of a destroyed coroutine (%s)" % (mode, co.name))
            raise Abort("violation")
        if co.status == "running":
            self.violate(st, "resume-running", "%s of coroutine %s, which is not suspended" % (mode, co.name))
            raise Abort("violation")
        if co.status == "done" and mode == "resume":
            self.violate(st, "resume-finished", "resume of coroutine %s, which has already finished" % co.name)
            raise Abort("violation")
        if co.status == "external":
            self.violate(st, "touch-after-handoff", "%s of coroutine %s, which was handed over" % (mode, co.name))
            raise Abort("violation")
        self.ev(st, mode, h=h, known=True, name=co.name)
        if len(st.tids) > 1:
            races.access(self, st, races.WRITE, co.h, (), -8, 8)
        if mode == "resume" and act.pend is not None and act.mode in ("resume", "destroy") and self.transfers(act):
            # symmetric transfer: the suspended coroutine's activation is replaced by the target's
            act.pend = None
            self.ev(st, "suspend", h=act.coro, name="(transfer)")
            self.pop_act(st)
        self.enter_coro(st, co, mode)
        return None

    def transfers(self, act):
        """is the resume at the current instruction the tail of an await_suspend?"""
        b, i = act.b, act.i
        ins = act.fn.blocks[b][i]
        if ins[6]:
            b, i = ins[6][0], 0
        else:
            i += 1
        for _ in range(20):
            ins = act.fn.blocks[b][i]
            if ins[0] == "br" and ins[4] is None:
                b, i = ins[5], 0
                continue
            if ins[0] == "call" and isinstance(ins[4], list) and ins[4][0] == "f":
                n = ins[4][1]
                if n.startswith("llvm.lifetime"):
                    i += 1
                    continue
                return n == "llvm.coro.suspend"
            return False
        return False

    def enter_coro(self, st, co, mode):
        a = Act()
        a.fn, a.b, a.i = co.fn, co.block, co.idx
        a.env, a.visits, a.stack = dict(co.env), dict(co.visits), []
        a.coro, a.mode, a.prevb, a.noret = co.h, mode, -1, False
        a.tag = st.acts[-1].tag if st.acts else "main"
        a.pend, a.lastf = None, dict(co.lastf)
        a.started = set(r for r in co.resident)
        co.gen += 1
        a.gen = co.gen
        co.status = "running"
        # frame is in use again by this activation
        for r in self.frame_regions(st, co):
            if r in st.mem and st.mem[r].state == "handed":
                st.region_w(r).state = "live"
        ins = a.fn.blocks[a.b][a.i]
        a.env[ins[2]] = 0 if mode == "resume" else 1
        a.i += 1
        # objects not resident across the suspension are fresh
        st.acts.append(a)

    def frame_regions(self, st, co):
        return [co.h] + [r for r in co.allocas if r in co.resident or r == co.promise]

    def handoff(self, st, co, why):
        """the coroutine may from now on be resumed and destroyed by someone else at any time"""
        for r in self.frame_regions(st, co):
            if r in st.mem and st.mem[r].state == "live":
                w = st.region_w(r)
                w.state = "handed"
                w.info = dict(w.info, coro=co.h, why=why)

    def take_back(self, st, co):
        for r in self.frame_regions(st, co):
            if r in st.mem and st.mem[r].state == "handed":
                st.region_w(r).state = "live"

    def frame_free(self, st, h):
        co = st.coros.get(h)
        if co is None:
            return
        co.status = "destroyed"
        for r in self.frame_regions(st, co):
            if r is not None and r in st.mem:
                w = st.region_w(r)
                w.state = "frame-freed"
                w.info = dict(w.info, coro=h)

    # ------------------------------------------------------------------ leaks
    def live_heap(self, st):
        return [a for a, r in st.mem.items() if r.kind == "heap" and r.state in ("live", "handed")]


NOTHING = object()
