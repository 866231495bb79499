#!/usr/bin/env python3
"""check.py PROPERTY [--rules r1,r2]: decides one property by static analysis of /repo"""
import importlib, json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ctx as C


RULE_S, TOTAL_S = 90, 600  # a rule that takes longer is undecided


def on_alarm(sig, frame):
    raise C.Budget("time limit")


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    prop = sys.argv[1]
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--rules":
        only = sys.argv[3].split(",")
    t0 = time.time()
    for m in sorted(f[:-3] for f in os.listdir(C.HERE) if f.startswith("r_") and f.endswith(".py")):
        importlib.import_module(m)
    rules = [r for r in C.RULES if (prop in r.props or prop == "ALL") and (not only or r.id in only)]
    if not rules:
        print("no rules for", prop)
        return 2
    try:
        prog, srcs = C.build()
    except C.Broken as e:
        print("ANALYSIS-BROKEN:", e)
        return 2
    ctx = C.Ctx(prog, srcs)
    broken = []
    decided = 0
    for r in rules:
        ctx.begin(r)
        t = time.time()
        nb = len(broken)
        nv = len(ctx.viol)
        try:
            signal.alarm(int(max(10, min(RULE_S, TOTAL_S - (t - t0)))))
            try:
                r.fn(ctx)
            finally:
                signal.alarm(0)
            if len(ctx.cur["instances"]) < r.minimum:
                broken.append("%s: only %d instances, expected at least %d" % (r.id, len(ctx.cur["instances"]), r.minimum))
        except C.Broken as e:
            broken.append("%s: %s" % (r.id, e))
        except (C.Budget, C.Unsupported) as e:
            broken.append("%s: %s: %s" % (r.id, type(e).__name__, e))
        except Exception as e:
            broken.append("%s: %s" % (r.id, "".join(traceback.format_exception(e)[-4:])))
        if len(ctx.viol) > nv and ctx.gone():
            # what the rule reports says nothing if it could not recognise the functions it relies on
            del ctx.viol[nv:]
            broken.append("%s: function %s not found" % (r.id, ", ".join(ctx.gone())))
        if os.environ.get("RG_ANCHORS"):
            print(r.id, "anchors", len(ctx.cur["anchors"]), "gone", ctx.gone())
        ctx.cur["wall_s"] = round(time.time() - t, 2)
        decided += nb == len(broken)
        if os.environ.get("RG_VERBOSE"):
            c = ctx.cur
            print("  rule %-28s %2d instances %4d obligations %5d paths %5.1f s" % (c["id"], len(c["instances"]), c["obligations"], c["paths"], c["wall_s"]))
    known = {}
    kf = os.path.join(C.VERIF, "known_findings.txt")
    kn = []
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("finding: "):
                k = dict(x.split("=", 1) for x in l[9:].split(" ", 2)[:2])
                kn.append((k.get("property"), k.get("rule"), l.split(" ", 3)[3] if l.count(" ") >= 3 else ""))
    viol, quiet = [], []
    for v in ctx.viol:
        hit = [k for k in kn if k[0] == prop and k[1] == v["rule"] and k[2] in v["msg"]]
        (quiet if hit else viol).append(v)
    fnames = set()
    for c in ctx.res.values():
        fnames |= c["functions"]
    ev = {
        "property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the LLVM IR of /repo's current sources: path-sensitive abstract interpretation "
                           "(constants, intervals, pointer/offset, event traces) from the listed entry points with all helpers "
                           "analysed in the context of their callers; each rule states obligations on every abstract path.",
            "translation_units": len(srcs) + 1,
            "rules": [{"id": c["id"], "rule": c["text"], "instances": c["instances"], "obligations": c["obligations"],
                       "abstract_paths": c["paths"], "call_sites_entered": c["calls"], "blocks_interpreted": c["blocks"],
                       "functions": sorted({prog.fns[f].qual for f in c["functions"] if "redGrapes" in prog.fns[f].qual}),
                       "wall_s": c["wall_s"]} for c in ctx.res.values()],
            "obligations": ctx.obl, "discharged": ctx.obl - len(ctx.viol),
            "functions_analysed": len(fnames),
            "redgrapes_functions_analysed": len({f for f in fnames if "redGrapes" in prog.fns[f].qual}),
        },
        "undecided_rules": [b.split("\n")[0] for b in broken],
        "assumptions": ["distinct unknown pointers denote distinct objects", "asserts hold (paths that fail them end the program)",
                        "library functions behave as modelled in sa/models.py"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(C.VERIF, "evidence"), exist_ok=True)
    if prop != "ALL":
        with open(os.path.join(C.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for v in quiet:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["rule"], v["msg"]))
    if viol:
        os.makedirs(os.path.join(C.VERIF, "build", "reports"), exist_ok=True)
        rp = os.path.join(C.VERIF, "build", "reports", prop + ".txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write("[%s] %s\n  at %s\n%s\n\n" % (v["rule"], v["msg"], v["where"], v.get("trace", "")))
        seen = set()
        for v in viol:
            k = (v["rule"], v["msg"])
            if k in seen:
                continue
            seen.add(k)
            if len(seen) <= 12:
                print("  [%s] %s (%s)" % (v["rule"], v["msg"], v["where"]))
        for b in broken:
            print("UNDECIDED:", b)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if broken:
        for b in broken:
            print("UNDECIDED:", b)
        # a rule whose anchors are gone (renamed, restructured code) says nothing; the property is
        # answered by the rules that still apply, and the gap is recorded in the evidence
        if not decided or os.environ.get("RG_STRICT"):
            return 2
    print("OK property=%s rules=%d obligations=%d functions=%d wall=%.1fs" % (prop, len(rules), ctx.obl, len(fnames), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
