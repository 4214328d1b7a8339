"""Runs the checks of one property: compiles its drivers against /repo's current headers, dumps the IR, analyses every
entry, and writes evidence."""
import hashlib, json, multiprocessing, os, re, subprocess, sys, time
from .core import *
from .interp import Engine
from .ir import Module

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def irdump_path():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        ll = "/usr/lib/llvm-18/bin/"
        cxx = subprocess.check_output([ll + "llvm-config", "--cxxflags"], text=True).replace("-fno-exceptions", "").split()
        ld = subprocess.check_output([ll + "llvm-config", "--ldflags"], text=True).split()
        r = sh([ll + "clang++", "-O1", "-fno-rtti"] + cxx + ["-Wno-everything", src, "-o", tmp] + ld + ["-lLLVM-18"])
        if r.returncode:
            print(r.stdout)
            raise SystemExit(2)
        os.rename(tmp, exe)
    return exe


def compile_driver(job):
    src, out, defs = job
    inc = os.path.join(REPO, "include")
    cmd = [CLANG, "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-c", "-emit-llvm", "-w", "-I" + inc,
           "-I" + os.path.join(VERIF, "drivers")] + defs + [src, "-o", out + ".bc"]
    r = sh(cmd)
    if r.returncode:
        return ("compile", r.stdout)
    r = sh([irdump_path(), out + ".bc", out + ".json"])
    if r.returncode:
        return ("irdump", r.stdout)
    os.unlink(out + ".bc")
    return None


def final_checks(eng, st, kind, val):
    """obligations at the end of a path"""
    if kind == "ret":
        eng.obligations += 1
        if st.mon.get("__must_terminate"):
            eng.violate(st, "must-terminate", "the program must terminate here but goes on")
        if st.mon.get(("u", "tracked"), 0) != 0:
            eng.violate(st, "object-lifetime", "%r object(s) constructed but not destroyed" % st.mon[("u", "tracked")])
        if not st.mon.get("__leaks_ok"):
            for a, r in st.mem.items():
                if r.kind == "heap" and r.state in ("live", "handed") and not r.info.get("owned_by_thread"):
                    at = r.info.get("at")
                    eng.violate(st, "leak", "memory allocated at %s:%s (%s) is never freed" % (at[1], at[2], at[0][:120]), where=[at])
        if st.mon.get("__locks"):
            eng.violate(st, "lock-held-at-exit", "a mutex is still locked when the operation is over")
    elif kind == "unwind":
        if not st.mon.get("__may_throw"):
            eng.violate(st, "escaping-exception", "an exception escapes where none may")
    elif kind == "terminate":
        if not st.mon.get("__may_terminate"):
            eng.violate(st, "unexpected-terminate", "std::terminate is reached (%s)" % val)
    elif kind == "blocked":
        if st.mon.get("__noblock"):
            eng.violate(st, "blocked-forever", "a thread blocks and nobody is left to wake it")


def analyse(job):
    pid, jsonpath, variant, entry, opts = job
    t0 = time.time()
    m = _mods.get(jsonpath)
    if m is None:
        m = _mods[jsonpath] = Module(jsonpath)
    eng = Engine(m, bound=opts.get("bound", 3), max_states=opts.get("max_states", 60000))
    eng.deadline = t0 + opts.get("time", 300)
    eng.on_path_end = final_checks
    try:
        from . import monitors
        monitors.attach(eng, pid)
    except ImportError:
        pass
    err = None
    st = State()
    try:
        ends = eng.run(st, entry, [])
    except AnalysisError as e:
        err = str(e)
        ends = []
    except Exception as e:      # a construct the analyser cannot follow: reported as a gap of this entry
        import traceback
        err = "internal: %r %s" % (e, traceback.format_exc().splitlines()[-3].strip())
        ends = []
    kinds = {}
    for k in eng.endkinds:
        kinds[k] = eng.endkinds[k]
    libfns = sorted({f.dem for f in eng.fns if "/kelcoro/" in (f.file or "")})
    return dict(entry=entry, variant=variant, violations=eng.violations, stats=eng.stats, ends=kinds, error=err,
                unmodelled=eng.unmodelled, reached=sorted(eng.reached), obligations=eng.obligations, rules=eng.rules_seen,
                fns=libfns, wall=time.time() - t0, marks=marks_of(m, entry), gaps=eng.gaps)


_mods = {}


def marks_of(m, entry):
    """outcome names of all va_reach calls in functions reachable from entry (static call graph)"""
    out = set()
    seen = set()
    todo = [entry]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        f = m.funcs.get(n)
        if f is None or f.decl:
            continue
        for blk in f.blocks:
            for ins in blk:
                if ins[0] == "call" and isinstance(ins[4], list) and ins[4][0] == "f":
                    if ins[4][1] == "va_reach":
                        g = ins[5][0]
                        if g[0] == "g":
                            gi = m.globals[g[1]]["init"]
                            out.add("".join(chr(x[2]) for x in gi[1] if x[2]))
                    else:
                        todo.append(ins[4][1])
                for o in ins[4:]:
                    _refs(o, todo)
    return sorted(out)


def _refs(o, todo):
    if isinstance(o, list):
        if len(o) == 2 and o[0] == "f" and isinstance(o[1], str):
            todo.append(o[1])
        else:
            for x in o:
                _refs(x, todo)


def trace_text(v):
    out = ["rule: " + v["rule"], "what: " + v["msg"], "entry: " + v["root"], "call chain (innermost first):"]
    for fn, file, line, mode in v["where"]:
        out.append("  %s:%s  %s%s" % (file, line, fn[:200], "" if mode == "call" else "  [" + mode + "]"))
    out.append("events on the path:")
    for kind, kw, w in v["trace"]:
        out.append("  %-12s %s   at %s" % (kind, " ".join("%s=%s" % (k, str(x)[:70]) for k, x in kw.items()),
                                         " <- ".join("%s:%s" % (os.path.basename(x[1] or "?"), x[2]) for x in w[:3])))
    return "\n".join(out)


def run_property(pid, tier, spec):
    """spec: dict(drivers=[(file, opts)], extra=callable)"""
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(BUILD, "%s.%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    irdump_path()
    problems = []      # (rule, text)
    broken = []
    jobs = []
    meta = []
    for drv, opts in spec["drivers"]:
        src = os.path.join(VERIF, "drivers", drv)
        for vname, defs in opts.get("variants", [("assert", []), ("ndebug", ["-DNDEBUG"])]):
            out = os.path.join(work, drv.replace(".cpp", "") + "-" + vname)
            d = list(defs)
            if tier == "thorough":
                d.append("-DVA_THOROUGH=1")
            jobs.append((src, out, d))
            meta.append((drv, vname, opts, out))
    results = []
    with multiprocessing.Pool(8) as pool:
        comp = pool.map(compile_driver, jobs, 1)
        work_items = []
        for r, (drv, vname, opts, out) in zip(comp, meta):
            if r is None:
                names = entries(out + ".json")
                if not names:
                    broken.append("no entries in " + drv)
                o = dict(opts)
                o.pop("variants", None)
                if tier == "thorough":
                    o["bound"] = o.get("thorough_bound", o.get("bound", 3) + 1)
                    o["max_states"] = o.get("max_states", 60000) * 4
                    o["time"] = 700
                for n in names:
                    work_items.append((pid, out + ".json", vname, n, o))
            elif r[0] == "compile":
                errs = [l for l in r[1].splitlines() if "error:" in l]
                if any("/kelcoro/" in l for l in errs) or "in instantiation of" in r[1] or errs:
                    problems.append(("documented-use-does-not-compile", "%s (%s): %s" % (drv, vname, "\n".join(errs[:5])), r[1]))
                else:
                    broken.append("driver %s does not compile:\n%s" % (drv, r[1][-3000:]))
            else:
                broken.append("irdump failed on %s: %s" % (drv, r[1][-500:]))
        results = pool.map(analyse, work_items, 1)
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    os.rmdir(work)
    extra_cov = {}
    if spec.get("extra"):
        ps, cov, br = spec["extra"](tier)
        problems += ps
        broken += br
        extra_cov = cov
    viol = []
    seen = set()
    total = dict(states=0, forks=0, instrs=0, cut=0, subsumed=0, paths=0, infeasible=0)
    ob = 0
    fns = set()
    rules = {}
    unmod = {}
    unreached = []
    gaps = {}
    for r in results:
        for k in total:
            total[k] += r["stats"][k]
        ob += r["obligations"]
        fns.update(r["fns"])
        for k, n in r["rules"].items():
            rules[k] = rules.get(k, 0) + n
        for k, n in r["unmodelled"].items():
            unmod[k] = unmod.get(k, 0) + n
        for k, n in r["gaps"].items():
            gaps[k] = gaps.get(k, 0) + n
        for v in r["violations"]:
            key = (v["rule"], v["msg"], tuple(v["at"][1:3]) if v["at"] else None)
            if key not in seen:
                seen.add(key)
                viol.append((v["rule"], "%s [%s, %s]" % (v["msg"], r["entry"], r["variant"]), trace_text(v), v))
        if r["error"]:
            gaps["budget: %s (%s)" % (r["entry"], r["error"])] = 1
        elif not r["violations"] and not r["gaps"] and not r["ends"]:
            viol.append(("never-ends", "no path through %s (%s) comes to an end" % (r["entry"], r["variant"]), "", None))
        elif not r["violations"] and not r["gaps"]:
            for mk in r["marks"]:
                if mk not in r["reached"]:
                    unreached.append((r["entry"], r["variant"], mk))
    for e, v, mk in unreached:
        viol.append(("outcome-unreachable", "no path of %s (%s) reaches the required outcome '%s'" % (e, v, mk), "", None))
    for rule, text, full in problems:
        viol.append((rule, text, full, None))
    known = load_known(pid)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    nviol = 0
    for f in os.listdir(os.path.join(VERIF, "replays")):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(VERIF, "replays", f))
    for i, (rule, text, full, v) in enumerate(viol):
        k = match_known(known, rule, text, v)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
            continue
        nviol += 1
        p = os.path.join(VERIF, "replays", "%s-%d.txt" % (pid, nviol))
        open(p, "w").write("property %s\n%s: %s\n\n%s\n" % (pid, rule, text, full))
        if nviol <= 15:
            at = v["at"] if v else None
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  rule %s: %s" % (rule, text[:400]))
            if at:
                print("  at %s:%s in %s" % (at[1], at[2], at[0][:160]))
    cov = dict(
        explanation=spec.get("explanation", "path-sensitive typestate/ownership dataflow over the clang IR of /repo's headers as "
                             "instantiated by the clients in drivers/; every listed obligation was decided on every abstract path"),
        entries=len(results), functions_analysed=len(fns), sample_functions=sorted(fns)[:40],
        abstract_paths=total["paths"], ir_instructions_interpreted=total["instrs"], abstract_states=total["states"],
        loop_paths_closed_by_subsumption=total["subsumed"], loop_paths_cut_at_bound=total["cut"], infeasible_paths=total["infeasible"],
        obligations=ob, discharged=max(0, ob - nviol),
        rules={k: n for k, n in sorted(rules.items())}, unmodelled_externals=unmod, analysis_gaps=gaps,
        per_entry=[dict(entry=r["entry"], variant=r["variant"], ends=r["ends"], outcomes=r["reached"], wall_s=round(r["wall"], 2)) for r in results],
    )
    cov.update(extra_cov)
    if extra_cov:
        cov["obligations"] = ob + extra_cov.get("obligations", 0)
        cov["discharged"] = max(0, cov["obligations"] - nviol)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov,
              assumptions=spec.get("assumptions", []) + ["clang 18 front end lowers the C++ correctly", "models of libstdc++/pthread/heap in engine/models.py",
                                                         "user callbacks, allocations and values range over those the drivers describe",
                                                         "loops whose paths are listed as cut were analysed up to the bound only"],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for b in broken:
        print("CHECK-BROKEN " + b)
    if nviol:
        return 1
    if broken:
        return 2
    if not results and not extra_cov:
        print("CHECK-BROKEN nothing analysed")
        return 2
    if extra_cov:
        print("%s %s: %d programs that must compile, %d that must not, %d compilations" % (
            pid, tier, extra_cov.get("must_compile", 0), extra_cov.get("must_not_compile", 0), extra_cov.get("compilations", 0)))
    print("%s %s: no violation; %d entries, %d functions, %d paths, %d obligations, %d cut, gaps=%d, %.1fs" % (
        pid, tier, len(results), len(fns), total["paths"], ob, total["cut"], len(gaps), time.time() - t0))
    for g in gaps:
        print("  gap: " + g[:300])
    return 0


def entries(jsonpath):
    return re.findall(r'\{"name":"(drv_\w+)","dem":"[^"]*","ret":[^{]*?"blocks"', open(jsonpath).read()) or [
        n for n, f in Module(jsonpath).funcs.items() if n.startswith("drv_") and not f.decl]


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) rule=(\S+) at=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups())
    return out


def match_known(known, rule, text, v):
    for _, r, at, desc in known:
        if r == rule and v and v["at"] and at in "%s" % (v["at"][0],):
            return desc
    return None
