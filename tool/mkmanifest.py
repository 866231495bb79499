#!/usr/bin/env python3
"""writes MANIFEST.json from the rules in sa/ and the properties"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
import ctx as C
for m in sorted(f[:-3] for f in os.listdir(C.HERE) if f.startswith("r_") and f.endswith(".py")):
    importlib.import_module(m)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C90": "liveness over all schedules: depends on fairness of threads and queue contents at run time, which no sound static argument in reach bounds",
    "C91": "linearizability of the bundled lock-free queue (third-party moodycamel) needs exploration of interleavings on its memory accesses; outside of static analysis in reach",
    "C92": "load distribution and memory footprint are run-time quantities",
    "C93": "the CUDA dispatcher is not part of the library build and does not compile against the current Task (task->run() on a reference, in_edges of events used as tasks), so there is no type-checked program to analyse; there are no CUDA headers either",
}
checks, na = [], []
for p in props:
    i = p["id"]
    rules = [r for r in C.RULES if i in r.props]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif not rules:
        na.append({"property": i, "reason": "no check built yet"})
    else:
        checks.append({
            "property": i,
            "quick_cmd": "python3 sa/check.py " + i,
            "thorough_cmd": "python3 sa/check.py " + i,
            "technique": "static analysis: path-sensitive interprocedural typestate/dataflow analysis of the LLVM IR with rules " +
                         ", ".join(r.id for r in rules),
            "level": "other",
            "level_note": "Sound path analysis of each listed function with its helpers inlined, over all inputs (finite abstraction of values and "
                          "event history; loops to fixpoint); the thread-interleaving argument is per function from atomic operations, orders and "
                          "locks, composed by hand in DESIGN.md. Trusts clang's IR, the models of library functions in sa/models.py, and that "
                          "distinct unknown pointers denote distinct objects.",
        })
json.dump({"version": 1, "setup_cmd": "tool/build.sh", "checks": checks, "not_applicable": na,
           "notes": "one engine (sa/), one rule module per part of the code; see DESIGN.md"}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
