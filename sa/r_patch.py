"""Changes of the accesses of a task."""
import itertools
from lib import *

RACC = "redGrapes::ResourceAccess"
TP = "redGrapes::TaskProperties"
SCEN = {"none": [], "a": ["A"], "r": ["R"], "ar": ["A", "R"], "ra": ["R", "A"], "aar": ["A", "A", "R"], "rra": ["R", "R", "A"], "rar": ["R", "A", "R"]}


def nodes():
    """the list of changes is analysed down to its nodes, each node is an object of its own"""
    def hook(eng, st, f, args, info):
        this, pos = args[0], args[1]
        prev = eng.load(st, eng.padd(pos, 8), 8)
        eng.store(st, this, pos, 8)
        eng.store(st, eng.padd(this, 8), prev, 8)
        eng.store(st, prev, this, 8)
        eng.store(st, eng.padd(pos, 8), this, 8)
        return ret(st)

    def unhook(eng, st, f, args, info):
        n, p = eng.load(st, args[0], 8), eng.load(st, eng.padd(args[0], 8), 8)
        eng.store(st, p, n, 8)
        eng.store(st, eng.padd(n, 8), p, 8)
        return ret(st)

    def transfer(eng, st, f, args, info):
        this, first, last = (eng.conc(st, x) for x in args[:3])
        if eng.cmp(st, "eq", 64, this, last) == 1:
            return ret(st)
        nxt = lambda p: eng.load(st, p, 8)
        prv = lambda p: eng.load(st, eng.padd(p, 8), 8)
        lp, fp, tp = prv(last), prv(first), prv(this)
        eng.store(st, lp, this, 8)
        eng.store(st, fp, last, 8)
        eng.store(st, tp, first, 8)
        eng.store(st, eng.padd(this, 8), lp, 8)
        eng.store(st, eng.padd(last, 8), fp, 8)
        eng.store(st, eng.padd(first, 8), tp, 8)
        return ret(st)

    def new(eng, st, f, args, info):
        n = eng.conc(st, args[0])
        k = st.aux["n"] = st.aux.get("n", 0) + 1
        if not isint(n) or k > 64:
            return None
        return ret(st, argp(eng, st, "node%d" % k))

    raw = ("std::__cxx11::list", "std::__cxx11::_List", "std::list", "std::__detail::_List", "std::_List")
    return [(lambda f: f.base == "_M_hook" and f.blocks is None, hook), (lambda f: f.base == "_M_unhook" and f.blocks is None, unhook),
            (lambda f: f.base == "_M_transfer" and f.blocks is None, transfer), (lambda f: f.name == "_Znwm", new),
            (lambda f: f.name.startswith("_ZdlPv"), lambda eng, st, f, args, info: ret(st)),
            (lambda f: f.blocks is not None and f.ctx.startswith(raw), lambda *a: None)]


def partitions(n):
    """all ways in which n accesses may be equal to each other: class of each"""
    if n == 0:
        yield ()
        return
    for p in partitions(n - 1):
        for k in range(max(p, default=-1) + 2):
            yield p + (k,)


def run(c, ops, cls, join=None):
    def cl(st, p):
        o = eng.conc(st, eng.load(st, eng.padd(p, oo), 8))
        k = [i for i in range(len(cls)) if o == obs[i]]
        return cls[k[0]] if k else None

    def equal(eng_, st, f, args, info):
        a, b = cl(st, args[0]), cl(st, args[1])
        if a is None or b is None:
            return None
        return ret(st, int(a == b))

    def copy(eng_, st, f, args, info):
        eng.event(st, "saved", eng.conc(st, args[0]), eng.conc(st, args[1]))
        return ret(st)
    isuser = lambda f: f.qual == RUSER + "::ResourceUser" and len(f.types) > 2 and f.types[2].replace("const", "").replace(" ", "") in (RUSER + "&", RUSER + "&&")
    eng = c.engine(models=nodes() + [(lambda f: f.qual == RACC + "::operator==", equal), (isuser, copy),
                                     (lambda f: f.qual == RUSER + "::~ResourceUser", lambda eng, st, f, args, info: ret(st))]
                   + cuts("add_ra", "rm_ra", "ru_superset_of", "ru_is_superset"))
    oo = c.off(RACC, "obj", "_M_ptr")
    st = State()
    accs, obs = [], []
    for i in range(len(cls)):
        a, o = argp(eng, st, "x%d" % i, RACC), argp(eng, st, "o%d" % i, RACC + "::AccessBase")
        setm(eng, st, a, oo, o)
        setm(eng, st, a, oo + 8, 0)
        accs.append(a)
        obs.append(o)
    P1, P2, P3 = obj(st, "patch1"), obj(st, "patch2"), obj(st, "patch3")
    T = mk_task(c, eng, st, "task")
    TPn = [t for t in c.P.types if t.startswith("redGrapes::TaskProperties1<")and "::" not in t[t.rindex(">"):]]
    ap = c.drv("patch_apply")
    tp = eng.padd(T, c.off(TASK, "task_id") - c.off(TPn[0], "task_id")) if TPn else T
    steps = []
    if join:
        k = len(join[0])
        steps += [lambda st: (c.drv("patch_" + join[0]), [P1] + accs[:k]), lambda st: (c.drv("patch_" + join[1]), [P2] + accs[k:]),
                  lambda st: (c.drv("patch_join"), [P1, P2])]
    else:
        steps += [lambda st: (c.drv("patch_" + ops), [P1] + accs)]
    steps += [lambda st: (c.drv("patch_copy"), [P3, P1])]
    cur = seq(eng, st, *steps)
    outs = []
    for s, _ in cur:
        outs += eng.run(ap, [tp, P3], s.copy())
    c.absorb(eng)
    return eng, outs, ruser_of(c, eng, T), obs


@rule("user.patch", "C13 C14", minimum=8,
      text="a change of accesses is collected in order; applying it adds each access which is there afterwards, then removes each access which is not, "
           "touches nothing else, never removes before it adds; it throws, and then has no effect, exactly if the accesses the task had before do not cover "
           "those it was to have")
def r_patch(c):
    w = "redGrapes/task/property/resource.hpp"
    todo = [(n, SCEN[n], None) for n in SCEN] + [(a + "+" + b, SCEN[a] + SCEN[b], (a, b)) for a, b in (("a", "r"), ("r", "a"), ("ar", "a"))]
    for name, seqn, join in todo:
        for cls in partitions(len(seqn)):
            eng, outs, U, obs = run(c, name, cls, join)
            what = "applying the changes %s of accesses %s" % (" ".join({"A": "add", "R": "remove"}[x] for x in seqn) or "(none)",
                                                               "".join("xyz"[k] for k in cls) or "-")
            c.need(len(outs) > 0, what + ": does not return", w)
            kinds = set()
            for o in outs:
                st = o.st
                need = lambda cond, msg: c.need(cond, what + ": " + msg, w, eng, st)
                acts = {}  # object -> changes of its accesses
                for i, e in evs(st, "call"):
                    if e[1] in ("add_ra", "rm_ra"):
                        v = valfield(e[3], "obj._M_ptr")
                        k = [j for j in range(len(obs)) if v == obs[j]]
                        if need(len(k) == 1, "an access which is not part of the change is added or removed"):
                            acts.setdefault(e[2], []).append((i, e[1], cls[k[0]]))
                sv = evs(st, "saved")
                copies = {e[1] for i, e in sv}
                need(all(x == U or x in copies for x in acts), "the accesses of something else are changed")

                def former(x, i):
                    """does x hold the accesses from before the change at event i?"""
                    if any(j < i for j, a, k in acts.get(x, [])):
                        return False
                    return x == U or any(e[1] == x and j < i and former(e[2], j) for j, e in sv)

                def final(x, i):
                    if x != U and not any(e[1] == x and former(e[2], j) and all(j < l for l, a, k in acts.get(x, [])) for j, e in sv if j < i):
                        return False
                    return not wrong([y for y in acts.get(x, []) if y[0] < i])

                def wrong(al):
                    for k in sorted(set(cls)):
                        last = [op for op, kk in zip(seqn, cls) if kk == k][-1]
                        ad = [i for i, a, kk in al if kk == k and a == "add_ra"]
                        rm = [i for i, a, kk in al if kk == k and a == "rm_ra"]
                        if last == "A":
                            if not ad:
                                return "an access is not added"
                            if rm:
                                return "an access which is to stay is removed"
                        elif not rm:
                            return "an access is not removed"
                        elif ad and max(ad) > max(rm):
                            return "an access is added again after its removal"
                        if len(ad) > len([1 for op, kk in zip(seqn, cls) if kk == k and op == "A"]):
                            return "an access is added too often"
                    return None

                al = acts.get(U, [])
                end = len(st.trace) + 1
                sp = [(i, e) for i, e in evs(st, "call") if e[1] in ("is_superset", "ru_superset_of")]
                good = [(i, e) for i, e in sp if former(e[2], i) and final(e[3], i)]
                r = known(eng, st, good[-1][1][-1]) if good else None
                if seqn or sp:
                    need(len(good) >= 1, "the new accesses are not compared with those the task had before the change")
                if o.kind == "throw":
                    need(r == 0, "accesses which were covered before are refused")
                    need(not al, "a refused change takes effect")
                else:
                    m = wrong(al)
                    need(m is None, str(m))
                    ad = [i for i, a, k in al if a == "add_ra"]
                    rm = [i for i, a, k in al if a == "rm_ra"]
                    need(not ad or not rm or max(ad) < min(rm), "an access is removed before the new ones are added")
                    if seqn or sp:
                        need(r == 1, "accesses which were not covered before are accepted")
                kinds.add(o.kind)
            c.need("ret" in kinds and (not seqn or "throw" in kinds), what + ": ends always in the same way", w)
        c.instance(name)
