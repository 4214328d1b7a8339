"""Type-level witnesses: small programs whose well-formedness is the property.  Nothing is executed: the compilers'
front ends type-check the programs against /repo's current headers.

A witness file is a sequence of cases:
    //@ ok NAME: what must compile
    //@ misuse NAME [clang] [flags]: what must not compile   (NAME must also have an `ok` sibling: the well-formed control;
                                                             `clang`: only clang diagnoses this one)
Each case is put into a namespace of its own; all `ok` cases of a file form one translation unit, all misuses another
one; diagnostics are attributed to cases by #line."""
import glob, multiprocessing, os, re, subprocess, tempfile
from . import runner

COMPILERS = [("clang++", ["-std=c++20"]), ("g++", ["-std=c++20"])]
MORE = [("clang++", ["-std=c++20", "-DNDEBUG"]), ("g++", ["-std=c++20", "-DNDEBUG"]), ("clang++", ["-std=c++23"]), ("g++", ["-std=c++23"])]


class Case:
    __slots__ = ("kind", "only", "name", "flags", "desc", "line", "text", "file")


def parse(path):
    cases = []
    cur = None
    for n, l in enumerate(open(path).read().split("\n"), 1):
        m = re.match(r"//@ (ok|misuse) (\w+)( clang)?((?: -\S+)*): (.*)", l)
        if m:
            cur = Case()
            cur.kind, cur.name, cur.only, cur.flags, cur.desc = m.group(1), m.group(2), m.group(3), m.group(4).split(), m.group(5)
            cur.line = n
            cur.text = []
            cur.file = os.path.basename(path)
            cases.append(cur)
        elif cur is not None:
            cur.text.append(l)
        elif l.strip() and not l.startswith("//"):
            raise SystemExit("witness %s:%d outside a case" % (path, n))
    return cases


def tu(cases, wdir):
    out = ['#include "%s"' % os.path.join(wdir, "kinds.hpp")]
    for i, c in enumerate(cases):
        out.append("namespace wit_%s {" % c.name)
        out.append('#line 1 "case.%s"' % c.name)
        out += c.text
        out.append('#line 1 "glue.%d"' % i)
        out.append("}")
    return "\n".join(out) + "\n"


def compile_tu(job):
    text, cc, flags = job
    fd, path = tempfile.mkstemp(suffix=".cpp", prefix="wit", dir=runner.BUILD)
    os.write(fd, text.encode())
    os.close(fd)
    extra = ["-ferror-limit=0"] if cc.startswith("clang") else ["-fmax-errors=0"]
    r = subprocess.run([cc] + flags + extra + ["-O0", "-S", "-o", "/dev/null", "-fno-diagnostics-color", "-I" + os.path.join(runner.REPO, "include"), path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    os.unlink(path)
    return r.returncode, r.stdout


def blocks(out):
    """(error line, all lines belonging to it)"""
    res = []
    ctx = []
    for l in out.split("\n"):
        if re.search(r"(^|: )(fatal )?error: |internal compiler error", l):
            res.append((l, ctx + [l]))
            ctx = []
        elif re.search(r": In (member )?function|: In (copy |move )?(constructor|destructor|instantiation|substitution|lambda)|In file included|: At global scope|: warning: |In instantiation of|required from|required by", l) and not re.search(r"note:", l):
            # gcc puts the context before the error
            if re.match(r"In file included|\S+: (In|At)", l) and ctx and not re.match(r"In file included|\s+from", ctx[-1]) and not re.search("required|In instantiation", l):
                ctx = []
            ctx.append(l)
            if res:
                res[-1][1].append(l) if l.startswith(" ") else None
        elif res:
            res[-1][1].append(l)
    return res


def by_case(out):
    """case name -> error texts"""
    d = {}
    for err, ls in blocks(out):
        names = []
        for l in ls:
            for m in re.finditer(r"case\.(\w+):\d+", l):
                if m.group(1) not in names:
                    names.append(m.group(1))
        own = re.match(r"case\.(\w+):", err)
        if not own and re.search(r"\[-Werror[=,]", err):
            continue        # a warning about the header itself is not what the case is about
        if own:
            names = [own.group(1)]
        for n in names or ["?"]:
            d.setdefault(n, []).append(err)
    return d


def first_error(out):
    for l in out.split("\n"):
        if "error:" in l or "internal compiler error" in l:
            return l
    return out[:300]


def headers():
    inc = os.path.join(runner.REPO, "include")
    return sorted(os.path.relpath(p, inc) for p in glob.glob(inc + "/kelcoro/*.hpp"))


def check(pid, tier):
    os.makedirs(runner.BUILD, exist_ok=True)
    wdir = os.path.join(runner.VERIF, "witness")
    problems, broken = [], []
    configs = COMPILERS + (MORE if pid == "C29" else [])
    if tier == "thorough":
        configs = COMPILERS + MORE + [("clang++", ["-std=c++23", "-DNDEBUG"]), ("g++", ["-std=c++23", "-DNDEBUG"]), ("clang++", ["-std=c++26"]),
                                      ("clang++", ["-std=c++20", "-fno-aligned-allocation"]), ("clang++", ["-std=c++20", "-m32", "-fsyntax-only"])][:-1]
    jobs, meta = [], []
    files = sorted(glob.glob(os.path.join(wdir, pid, "*.cpp")))
    ncases = dict(ok=0, misuse=0)
    names = []
    allcases = {}
    for f in files:
        cs = parse(f)
        ok = [c for c in cs if c.kind == "ok"]
        bad = [c for c in cs if c.kind == "misuse"]
        oknames = {c.name for c in ok}
        for c in bad:
            if c.name not in oknames:
                raise SystemExit("witness %s: misuse %s has no control" % (f, c.name))
        ncases["ok"] += len(ok)
        ncases["misuse"] += len(bad)
        names += ["%s %s" % (c.kind, c.name) for c in cs]
        for cc, fl in configs:
            jobs.append((tu(ok, wdir), cc, fl))
            meta.append(("ok", f, ok, cc, fl))
            groups = {}
            for c in bad:
                if c.only and c.only.strip() not in cc:
                    continue
                groups.setdefault(tuple(c.flags), []).append(c)
            for g, gc in groups.items():
                jobs.append((tu(gc, wdir), cc, fl + list(g)))
                meta.append(("bad", f, gc, cc, fl + list(g)))
                if g:       # the control must be free of the very diagnostics the misuse is to give
                    ctl = [c for c in ok if c.name in {x.name for x in gc}]
                    jobs.append((tu(ctl, wdir), cc, fl + list(g)))
                    meta.append(("ok", f, ctl, cc, fl + list(g)))
    if pid == "C29":
        for h in headers():
            for cc, fl in COMPILERS + MORE[:2]:
                jobs.append(("#include <%s>\n#include <%s>\n" % (h, h), cc, fl))
                meta.append(("header", h, None, cc, fl))
    with multiprocessing.Pool(8) as pool:
        res = pool.map(compile_tu, jobs, 1)
        again, ameta = [], []
        seen = set()
        for (rc, out), (kind, f, cs, cc, fl) in zip(res, meta):
            cfg = " ".join([cc] + fl)
            if kind == "header":
                if rc:
                    problems.append(("header-does-not-compile", "%s does not compile on its own (%s): %s" % (f, cfg, first_error(out)), out))
            elif kind == "ok":
                if rc:
                    d = by_case(out)
                    for n, errs in d.items():
                        c = next((x for x in cs if x.name == n), None)
                        key = (n, errs[0].split("error:")[-1])
                        if key in seen:
                            continue
                        seen.add(key)
                        problems.append(("must-compile", "%s (case %s, %s): %s" % (c.desc if c else "?", n, cfg, errs[0]), "\n".join(errs) + "\n\n" + out))
                    if not d and not re.search(r"\[-Werror[=,]", out):
                        problems.append(("must-compile", "%s (%s): %s" % (os.path.basename(f), cfg, first_error(out)), out))
            else:
                d = by_case(out)
                for c in cs:
                    if c.name not in d:
                        again.append((tu([c], wdir), cc, fl))
                        ameta.append((c, cfg))
        for (rc, out), (c, cfg) in zip(pool.map(compile_tu, again, 1), ameta):
            if (rc == 0 or not by_case(out) and re.search(r"\[-Werror[=,]", out)) and c.name not in seen:
                seen.add(c.name)
                problems.append(("must-not-compile", "this compiles: %s (case %s in witness/%s/%s:%d, %s)" % (c.desc, c.name, pid, c.file, c.line, cfg),
                                 "\n".join(c.text)))
    if pid == "C29":
        problems += external_definitions()
    cov = dict(explanation="compile-pass and compile-fail programs, type-checked by both compilers against the current headers",
               witness_files=[os.path.basename(f) for f in files], must_compile=ncases["ok"], must_not_compile=ncases["misuse"],
               compilations=len(jobs) + len(again), configurations=[" ".join([c] + f) for c, f in configs], cases=names,
               static_assertions=sum(t.count("SAME(") + t.count("static_assert") for t in (open(f).read() for f in files)),
               headers_alone=headers() if pid == "C29" else [], checked_alone_again=len(again),
               obligations=len(jobs), rules={"must-compile": ncases["ok"], "must-not-compile": ncases["misuse"]})
    return problems, cov, broken


def external_definitions():
    """no header may define a non-inline external symbol: two users of it could not be linked together"""
    text = "".join("#include <%s>\n" % h for h in headers())
    fd, path = tempfile.mkstemp(suffix=".cpp", prefix="wit", dir=runner.BUILD)
    os.write(fd, text.encode())
    os.close(fd)
    r = subprocess.run(["clang++", "-std=c++20", "-O0", "-S", "-emit-llvm", "-w", "-o", "-", "-I" + os.path.join(runner.REPO, "include"), path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.unlink(path)
    out = []
    if r.returncode:
        return [("header-does-not-compile", "all headers together: " + first_error(r.stdout), r.stdout)]
    for l in r.stdout.split("\n"):
        m = re.match(r"define (?:dso_local )?(?!linkonce|weak|internal|available)[^@]*@(\S+?)\(", l)
        if m and not re.search(r"\b(internal|linkonce_odr|weak_odr|private)\b", l.split("@")[0]):
            out.append(("not-inline", "function %s is defined in a header without inline: a program with two translation units using it does not link" % m.group(1), l))
        m = re.match(r"@(\S+) = (?:dso_local )?(global|constant) ", l)
        if m:
            out.append(("not-inline", "variable %s is defined in a header without inline" % m.group(1), l))
    return out
