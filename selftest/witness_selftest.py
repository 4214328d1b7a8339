"""Every misuse case replaced by its well-formed control must be reported (and nothing else)."""
import glob, multiprocessing, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import witness as W, runner
os.makedirs(runner.BUILD, exist_ok=True)
wdir = os.path.join(runner.VERIF, "witness")
jobs, meta = [], []
for f in sorted(glob.glob(os.path.join(wdir, "C28", "*.cpp"))):
    cs = W.parse(f)
    ok = {c.name: c for c in cs if c.kind == "ok"}
    bad = [c for c in cs if c.kind == "misuse"]
    for cc, fl in W.COMPILERS:
        groups = {}
        for c in bad:
            if not c.only or c.only.strip() in cc:
                groups.setdefault(tuple(c.flags), []).append(c)
        for g, gc in groups.items():
            for c in gc:
                jobs.append((W.tu([ok[c.name] if x is c else x for x in gc], wdir), cc, fl + list(g)))
                meta.append((c, gc, cc))
with multiprocessing.Pool(8) as pool:
    for (rc, out), (c, gc, cc) in zip(pool.map(W.compile_tu, jobs, 1), meta):
        miss = [x.name for x in gc if x.name not in W.by_case(out)] if rc else [c.name]
        if c.name not in miss:
            print("NOT DETECTED", cc, c.name)
        for m in miss:
            if m != c.name:
                print("only alone", cc, m)
print("done", len(jobs))
