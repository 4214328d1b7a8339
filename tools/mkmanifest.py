#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py, properties.jsonl and the not-applicable table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs import SPECS
NA = {
    "C40": "liveness: progress of a pool depends on scheduling and on what user tasks do (they may block forever); no sound static argument in reach bounds that. The safety half (no lost wake-up, no lock held while blocking, every node handed over) is decided under C01-C05.",
    "C41": "a statement about the distribution of hash values at run time; static analysis cannot bound how addresses spread over buckets. That the hash is a pure function selecting a valid queue is C27.",
    "C42": "whether the frame is elided is decided by the optimiser of each compiler and option set (HALO), not by the library's source; the source-level analysis here works before that decision.",
    "C43": "the current design reads the latch after publishing the waiter's node, so it does not promise this; it is listed because users of std::latch might assume it. Which interleavings are excluded depends on the client's own synchronisation.",
}
WIT = "type-level encoding: each obligation is a program that must (or must not) type-check against the current headers; exhaustive over the listed cases, nothing is run"
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=s.get("technique", "compile-pass and compile-fail witnesses (static assertions, ill-formed programs with well-formed controls) decided by the type checkers of clang and gcc" if i in ("C28", "C29") else "path-sensitive typestate/ownership abstract interpretation of compiler IR over generic clients"),
                           level="other", level_note=s.get("note", WIT if i in ("C28", "C29") else "static analysis of the library code as instantiated by the drivers; every abstract path decided, loops closed by state subsumption or cut at the bound given in the evidence; relies on the models of libstdc++/threads/heap in engine/models.py")))
    elif i not in NA:
        NA[i] = "no check built yet"
m = dict(version=1, setup_cmd="python3 -c 'from engine.runner import irdump_path; irdump_path()'", checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA[p["id"]]) for p in props if p["id"] in NA])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
