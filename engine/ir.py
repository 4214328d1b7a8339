"""IR model: loads the JSON written by tools/irdump and precomputes static facts (loops, liveness, coroutine shape)."""
import json, re


class Func:
    __slots__ = ("name", "dem", "base", "ret", "noreturn", "nounwind", "presplit", "args", "blocks", "nval", "file",
                 "line", "vararg", "_loops", "_live", "_coro", "decl", "model")


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.locs = d["locs"]
        self.funcs = {}
        self.globals = {g["name"]: g for g in d["globals"]}
        for f in d["functions"]:
            F = Func()
            F.name, F.dem, F.ret = f["name"], f["dem"], f["ret"]
            F.noreturn, F.nounwind, F.presplit = f["noreturn"], f["nounwind"], f["presplit"]
            F.args = f["args"]
            F.vararg = f["vararg"]
            F.blocks = f.get("blocks")
            F.decl = F.blocks is None
            F.nval = f.get("nval", 0)
            F.file, F.line = f.get("file", ""), f.get("line", 0)
            F._loops = F._live = F._coro = None
            F.model = 0
            self.funcs[F.name] = F

    def loc(self, i):
        if i is None or i < 0:
            return None
        return self.locs[i]


TERM = {"br", "switch", "ret", "unreachable", "eresume"}


def succs(F, b):
    t = F.blocks[b][-1]
    op = t[0]
    if op == "br":
        return t[5:] if t[4] is not None else [t[5]]
    if op == "switch":
        return [t[5]] + [c[1] for c in t[6]]
    if op == "call" and t[6]:
        return list(t[6])
    return []


def loop_heads(F):
    """blocks that are targets of DFS back edges"""
    if F._loops is not None:
        return F._loops
    heads = set()
    color = {}
    stack = [(0, iter(succs(F, 0)))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            c = color.get(s)
            if c == 1:
                heads.add(s)
            elif c is None:
                color[s] = 1
                stack.append((s, iter(succs(F, s))))
                break
        else:
            color[b] = 2
            stack.pop()
    F._loops = heads
    return heads


def _ops(ins):
    """SSA ids used by an instruction (phis excluded)"""
    op = ins[0]
    out = []

    def add(x):
        if isinstance(x, int):
            out.append(x)

    if op == "alloca":
        if len(ins) > 8:
            add(ins[8])
    elif op == "load":
        add(ins[4])
    elif op == "store":
        add(ins[4]); add(ins[5])
    elif op == "rmw":
        add(ins[5]); add(ins[6])
    elif op == "cas":
        add(ins[4]); add(ins[5]); add(ins[6])
    elif op == "gep":
        add(ins[4])
        for v, _, _ in ins[6]:
            add(v)
    elif op == "call":
        add(ins[4])
        for a in ins[5]:
            add(a)
    elif op == "br":
        if ins[4] is not None:
            add(ins[4])
    elif op == "switch":
        add(ins[4])
    elif op == "ret":
        if ins[4] is not None:
            add(ins[4])
    elif op in ("icmp", "fcmp", "bin"):
        add(ins[5]); add(ins[6])
    elif op == "cast":
        add(ins[5])
    elif op == "select":
        add(ins[4]); add(ins[5]); add(ins[6])
    elif op == "extract":
        add(ins[4])
    elif op == "insert":
        add(ins[4]); add(ins[5])
    elif op == "eresume":
        add(ins[4])
    return out


def live_in(F):
    """SSA ids live on entry of every block (phi results of the block excluded)"""
    if F._live is not None:
        return F._live
    n = len(F.blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    phiuse = [dict() for _ in range(n)]
    for b, blk in enumerate(F.blocks):
        for ins in blk:
            if ins[0] == "phi":
                dfn[b].add(ins[2])
                for p, v in ins[4]:
                    if isinstance(v, int):
                        phiuse[b].setdefault(p, set()).add(v)
                continue
            for v in _ops(ins):
                if v not in dfn[b]:
                    use[b].add(v)
            if ins[3] != "v":
                dfn[b].add(ins[2])
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            out = set()
            for s in succs(F, b):
                out |= live[s]
                out |= phiuse[s].get(b, set())
            new = use[b] | (out - dfn[b])
            if new != live[b]:
                live[b] = new
                changed = True
    F._live = live
    return live


class CoroInfo:
    __slots__ = ("suspends", "final", "promise", "has_markers", "live_after", "ids", "allocas", "pre", "lastpos")


def coro_info(F):
    """static facts of a presplit coroutine: suspend points, allocas with lifetime markers, and for every suspend point
    the unmarked allocas whose contents are needed after it (a backward liveness analysis)"""
    if F._coro is not None:
        return F._coro
    C = CoroInfo()
    C.suspends = {}   # save token id -> (block, idx)
    C.final = None
    C.promise = None
    defs = {}
    allocas = {}
    for b, blk in enumerate(F.blocks):
        for i, ins in enumerate(blk):
            defs[ins[2]] = ins
            if ins[0] == "alloca":
                allocas[ins[2]] = ins[4]
            if ins[0] == "call" and isinstance(ins[4], list) and ins[4][0] == "f":
                nm = ins[4][1]
                if nm == "llvm.coro.suspend":
                    tok = ins[5][0]
                    if isinstance(tok, int):
                        C.suspends[tok] = (b, i)
                    if isinstance(ins[5][1], list) and ins[5][1][2] == 1:
                        C.final = (b, i)
                elif nm == "llvm.coro.id":
                    C.promise = ins[5][1] if isinstance(ins[5][1], int) else None
    # blocks between a coro.save and its coro.suspend: the coroutine counts as suspended while control is inside them
    preds = {}
    for b in range(len(F.blocks)):
        for x in succs(F, b):
            preds.setdefault(x, set()).add(b)
    C.pre = {}
    for tok, (sb, si) in C.suspends.items():
        savb = None
        for b, blk in enumerate(F.blocks):
            for ins in blk:
                if ins[2] == tok and ins[0] == "call":
                    savb = b
        seen = {sb}
        wl = [] if savb == sb else [sb]
        while wl:
            b = wl.pop()
            for q in preds.get(b, ()):
                if q not in seen:
                    seen.add(q)
                    if q != savb:
                        wl.append(q)
        C.pre[tok] = seen
    # derived pointers
    root = {a: a for a in allocas}
    offs = {a: 0 for a in allocas}
    changed = True
    while changed:
        changed = False
        for b, blk in enumerate(F.blocks):
            for ins in blk:
                if ins[0] == "gep" and isinstance(ins[4], int) and ins[4] in root and ins[2] not in root:
                    root[ins[2]] = root[ins[4]]
                    offs[ins[2]] = offs[ins[4]] + (ins[5] if not ins[6] else 1)
                    changed = True
                elif ins[0] == "cast" and isinstance(ins[5], int) and ins[5] in root and ins[2] not in root:
                    root[ins[2]] = root[ins[5]]
                    offs[ins[2]] = offs[ins[5]]
                    changed = True
    marked = set()
    escaped = set()
    for b, blk in enumerate(F.blocks):
        for ins in blk:
            if ins[0] == "call" and isinstance(ins[4], list) and ins[4][0] == "f" and ins[4][1].startswith("llvm.lifetime"):
                p = ins[5][1]
                if isinstance(p, int) and p in root:
                    marked.add(root[p])
            elif ins[0] == "store" and isinstance(ins[4], int) and ins[4] in root:
                escaped.add(root[ins[4]])
            elif ins[0] == "phi":
                for _, v in ins[4]:
                    if isinstance(v, int) and v in root:
                        escaped.add(root[v])
    C.has_markers = marked
    C.allocas = allocas
    # liveness of unmarked allocas
    n = len(F.blocks)

    def transfer(b, live, record=None):
        live = set(live)
        for i in range(len(F.blocks[b]) - 1, -1, -1):
            ins = F.blocks[b][i]
            op = ins[0]
            if record is not None and op == "call" and isinstance(ins[4], list) and ins[4][0] == "f" and ins[4][1] == "llvm.coro.suspend":
                record[(b, i)] = set(live)
            if op == "store" and isinstance(ins[5], int) and ins[5] in root:
                a = root[ins[5]]
                if offs[ins[5]] == 0 and ins[6] >= allocas[a]:
                    live.discard(a)
            elif op in ("load",) and isinstance(ins[4], int) and ins[4] in root:
                live.add(root[ins[4]])
            elif op == "call":
                nm = ins[4][1] if isinstance(ins[4], list) and ins[4][0] == "f" else ""
                if nm == "llvm.coro.end" and isinstance(ins[5][1], list) and ins[5][1][2] == 0:
                    live = set()   # a resumed coroutine returns here; what follows belongs to the ramp
                    continue
                if nm.startswith("llvm.lifetime") or nm.startswith("llvm.coro."):
                    continue
                if nm.startswith("llvm.memcpy"):
                    d, s = ins[5][0], ins[5][1]
                    if isinstance(d, int) and d in root and offs[d] == 0:
                        live.discard(root[d])
                    if isinstance(s, int) and s in root:
                        live.add(root[s])
                    continue
                for a in ins[5]:
                    if isinstance(a, int) and a in root:
                        live.add(root[a])
        return live

    # the default edge after a suspend is the ramp's way out, not something that happens after a resume
    ramp = {}
    for tok, (sb, si) in C.suspends.items():
        t = F.blocks[sb][-1]
        if t[0] == "switch" and t[4] == F.blocks[sb][si][2]:
            ramp[sb] = [c[1] for c in t[6]]

    def after(b):
        return ramp[b] if b in ramp else succs(F, b)

    lin = [set(escaped) for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            out = set(escaped)
            for s in after(b):
                out |= lin[s]
            new = transfer(b, out)
            if new != lin[b]:
                lin[b] = new
                changed = True
    rec = {}
    for b in range(n):
        out = set(escaped)
        for s in after(b):
            out |= lin[s]
        transfer(b, out, rec)
    C.live_after = rec
    F._coro = C
    return C


_adead = {}


def alloca_liveness(F):
    """(root of derived pointers, per block live-out sets, transfer): which stack objects' contents may still be read
    directly by this function. An object whose contents are dead here matters only if memory still points to it."""
    r = _adead.get(F)
    if r is not None:
        return r
    size = {}
    root = {}
    offs = {}
    for blk in F.blocks:
        for ins in blk:
            if ins[0] == "alloca" and isinstance(ins[4], int) and ins[4] >= 0:
                size[ins[2]] = ins[4]
                root[ins[2]] = ins[2]
                offs[ins[2]] = 0
    changed = bool(size)
    while changed:
        changed = False
        for blk in F.blocks:
            for ins in blk:
                if ins[0] == "gep" and isinstance(ins[4], int) and ins[4] in root and ins[2] not in root:
                    root[ins[2]] = root[ins[4]]
                    offs[ins[2]] = offs[ins[4]] + ins[5] if not ins[6] and offs[ins[4]] is not None else None
                    changed = True
                elif ins[0] == "cast" and isinstance(ins[5], int) and ins[5] in root and ins[2] not in root:
                    root[ins[2]] = root[ins[5]]
                    offs[ins[2]] = offs[ins[5]]
                    changed = True
    esc = set()
    for blk in F.blocks:
        for ins in blk:
            if ins[0] == "phi":
                for _, v in ins[4]:
                    if isinstance(v, int) and v in root:
                        esc.add(root[v])
            elif ins[0] in ("select", "insert"):
                for v in _ops(ins):
                    if v in root:
                        esc.add(root[v])

    def step(ins, live):
        op = ins[0]
        if op in ("gep", "cast", "alloca", "phi"):
            return
        if op == "store":
            if isinstance(ins[4], int) and ins[4] in root:
                live.add(root[ins[4]])
            p = ins[5]
            if isinstance(p, int) and p in root:
                a = root[p]
                if offs[p] == 0 and ins[6] >= size[a]:
                    live.discard(a)
                else:
                    live.add(a)
            return
        if op == "call":
            nm = ins[4][1] if isinstance(ins[4], list) and ins[4][0] == "f" else ""
            if nm.startswith("llvm.lifetime"):
                p = ins[5][1]
                if isinstance(p, int) and p in root and offs[p] == 0:
                    live.discard(root[p])
                return
            if nm.startswith("llvm.coro.id"):
                for x in ins[5]:
                    if isinstance(x, int) and x in root:
                        live.add(root[x])
                return
            kill = None
            d = ins[5][0] if ins[5] else None
            if isinstance(d, int) and d in root and offs[d] == 0:
                if nm.startswith("llvm.memcpy") or nm.startswith("llvm.memset"):
                    z = ins[5][2]
                    if isinstance(z, list) and z[0] == "c" and z[2] >= size[root[d]]:
                        kill = d
                elif "C1E" in nm or "C2E" in nm:
                    kill = d
            if kill is not None:
                live.discard(root[kill])
            for x in ins[5]:
                if isinstance(x, int) and x in root and x is not kill and not (kill is not None and x == kill):
                    live.add(root[x])
            if isinstance(ins[4], int) and ins[4] in root:
                live.add(root[ins[4]])
            return
        for v in _ops(ins):
            if v in root:
                live.add(root[v])

    n = len(F.blocks)
    lout = [set(esc) for _ in range(n)]
    lin = [set(esc) for _ in range(n)]
    changed = bool(size)
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            out = set(esc)
            for x in succs(F, b):
                out |= lin[x]
            lout[b] = out
            cur = set(out)
            for ins in reversed(F.blocks[b]):
                step(ins, cur)
            cur |= esc
            if cur != lin[b]:
                lin[b] = cur
                changed = True
    r = _adead[F] = (root, lout, step, {})
    return r


def dead_allocas_at(F, b, i):
    """SSA ids (allocas and pointers derived from them) whose object's contents are dead before instruction i of block b"""
    root, lout, step, cache = alloca_liveness(F)
    k = (b, i)
    r = cache.get(k)
    if r is None:
        cur = set(lout[b])
        blk = F.blocks[b]
        for j in range(len(blk) - 1, i - 1, -1):
            step(blk[j], cur)
        r = cache[k] = frozenset(x for x, a in root.items() if a not in cur)
    return r


_tmpl = re.compile(r"<[^<>]*>")


def strip_templates(s):
    while True:
        t = _tmpl.sub("", s)
        if t == s:
            return s
        s = t
