"""Scheduling by tags."""
from lib import *
from r_builder import run_emplace

TM = "redGrapes::scheduler::TagMatch<64ul>"
SUB = TM + "::SubScheduler"
BITS = (0, 40)


def word(k):
    """bits of a two-bit pattern spread over the tag word"""
    return sum(1 << b for j, b in enumerate(BITS) if k >> j & 1)


def mk_tm(c, eng, st, sup):
    this = argp(eng, st, "this", TM)
    V = ("o", ("al", 0, "subs", 0), 0)
    st.mem[V] = {}
    sz = c.P.types[SUB]["size"]
    ss = []
    for i, k in enumerate(sup):
        s = argp(eng, st, "sub%d" % i, ISCHED)
        ss.append(s)
        setm(eng, st, V, sz * i + c.off(SUB, "supported_tags"), word(k))
        setm(eng, st, V, sz * i + c.off(SUB, "s", "_M_ptr"), s)
        setm(eng, st, V, sz * i + c.off(SUB, "s", "_M_ptr") + 8, sym(("arg", "rc%d" % i)))
    o = c.off(TM, "sub_schedulers", "_M_impl", "_M_start")
    for k, v in ((0, V), (8, eng.ptr(V, sz * len(sup))), (16, eng.ptr(V, sz * len(sup)))):
        setm(eng, st, this, o + k, v)
    return this, V, ss


@rule("tags.dispatch", "C19 C10 C05", minimum=2,
      text="a task with required tags goes, once, to the first sub-scheduler which supports all of them, and so does the question for its dependency type; if there is none an exception is thrown")
def r_dispatch(c):
    combos = [((), 1), ((0,), 0)] + [((a, b), r) for a in range(4) for b in range(4) for r in range(4)]
    for meth in ("emplace_task", "activate_task"):
        f = c.fn("redGrapes::scheduler::TagMatch::" + meth)
        w = where(c, f)
        for sup, req in combos:
            eng = c.engine()
            st0 = State()
            this, V, ss = mk_tm(c, eng, st0, sup)
            T = mk_task(c, eng, st0, "task")
            setm(eng, st0, T, c.off(TASK, "required_scheduler_tags"), word(req))
            outs = eng.run(f, [this, T], st0)
            c.absorb(eng)
            ok = [i for i, k in enumerate(sup) if k & req == req][:1]
            cell = "%s: required %s, supported %s" % (meth, format(req, "02b"), " ".join(format(k, "02b") for k in sup) or "nothing")
            c.need(len(outs) > 0, cell + ": does not return", w)
            for o in outs:
                need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, o.st)
                vc = [e for i, e in enumerate(o.st.trace) if e[0] == "vcall" and not e[1].split("::")[-1].startswith("~") and eng.split(e[2][0])[0] != this]
                if not ok:
                    need(o.kind == "throw", "does not throw although no scheduler fits")
                    need(not vc, "the task is given to a scheduler other than the first one which supports its tags")
                    continue
                need(o.kind == "ret", "throws although a scheduler fits")
                need(len(vc) == 1 and vc[0][1].endswith("::" + meth) and len(vc[0][2]) > 1 and vc[0][2][1] == T, "the task is not handed over exactly once")
                if vc:
                    need(vc[0][2][0] in [ss[i] for i in ok], "the task is given to a scheduler other than the first one which supports its tags")
        c.instance("%s, %d combinations" % (meth, len(combos)))
    f = c.drv("tag_dep")
    w = where(c, c.fn("redGrapes::scheduler::TagMatch::task_dependency_type"))
    for sup, req in combos:
        eng = c.engine(vdispatch={TM + "::task_dependency_type": "redGrapes::scheduler::TagMatch::task_dependency_type"})
        st0 = State()
        this, V, ss = mk_tm(c, eng, st0, sup)
        A, B = mk_task(c, eng, st0, "before"), mk_task(c, eng, st0, "after")
        setm(eng, st0, A, c.off(TASK, "required_scheduler_tags"), word(3 - req))
        setm(eng, st0, B, c.off(TASK, "required_scheduler_tags"), word(req))
        outs = eng.run(f, [this, A, B], st0)
        c.absorb(eng)
        ok = [ss[i] for i, k in enumerate(sup) if k & req == req][:1]
        cell = "task_dependency_type: tags of the later task %s, supported %s" % (format(req, "02b"), " ".join(format(k, "02b") for k in sup) or "nothing")
        c.need(len(outs) > 0, cell + ": does not return", w)
        for o in outs:
            need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, o.st)
            vc = [e for i, e in vcalls(o.st, "task_dependency_type") if eng.split(e[2][0])[0] != this]
            if not ok:
                need(o.kind == "throw" and not vc, "an answer is given although no scheduler fits")
                continue
            if need(o.kind == "ret" and len(vc) == 1, "no scheduler is asked"):
                need(vc[0][2][0] in ok, "a scheduler is asked other than the first one which supports the tags of the later task")
                need(vc[0][2][1:3] == (A, B), "the tasks are confused")
                need(known(eng, o.st, o.val) is not None and known(eng, o.st, o.val) == known(eng, o.st, vc[0][3]) or same(eng, o.st, uncast(o.val), vc[0][3]),
                     "the answer is not passed on")
    c.instance("task_dependency_type, %d combinations" % len(combos))


@rule("tags.all", "C19 C09 C10 C05", minimum=3,
      text="stealing asks each sub-scheduler until one gives a task, and returns that task; wake_all reaches all sub-schedulers; wake asks each "
           "until one woke the thread")
def r_all(c):
    for meth in ("steal_task", "wake", "wake_all"):
        f = c.fn("redGrapes::scheduler::TagMatch::" + meth)
        w = where(c, f)
        for n in (1, 2, 3):
            eng = c.engine()
            st0 = State()
            this, V, ss = mk_tm(c, eng, st0, (0,) * n)
            a = argp(eng, st0, "worker", WORKER) if meth == "steal_task" else argi(eng, st0, "id", 16)
            if meth == "steal_task":
                def on_rename(eng_, st, x):
                    for i, e in vcalls(st, meth):
                        if e[3] == x:
                            c.need(same(eng, st, x, 0), "TagMatch::steal_task of %d schedulers: a stolen task is dropped" % n, w, eng, st)
                eng.cfg.on_rename = on_rename
            outs = normal(eng.run(f, [this, a][:len(f.types) - 1], st0))
            c.absorb(eng)
            c.instance("%s of %d schedulers" % (meth, n))
            c.need(len(outs) > 0, meth + " does not return", w)
            for o in outs:
                st = o.st
                need = lambda cond, msg: c.need(cond, "TagMatch::%s of %d schedulers: %s" % (meth, n, msg), w, eng, st)
                vc = [e for i, e in enumerate(st.trace) if e[0] == "vcall" and e[1].endswith("::" + meth) and eng.split(e[2][0])[0] != this]
                need(len({e[2][0] for e in vc}) == len(vc) and all(e[2][0] in ss for e in vc), "a scheduler is asked twice")
                if meth != "wake_all":
                    need(all(e[2][1] == a for e in vc), "wrong argument is passed on")
                asked = {e[2][0] for e in vc}
                if meth == "wake_all":
                    need(asked == set(ss), "not all schedulers are reached")
                    continue
                r = eng.conc(st, o.val)
                res = [e[3] for e in vc]
                if meth == "steal_task":
                    if res and not same(eng, st, res[-1], 0):
                        need(r == res[-1], "a stolen task is dropped")
                        continue
                    need(r == 0 or (res and r == res[-1]), "returns something else")
                    need(asked == set(ss), "gives up before all schedulers were asked")
                else:
                    hit = any(known(eng, st, x) == 1 for x in res)
                    if asked != set(ss):
                        need(hit, "gives up before all schedulers were asked")
                    if hit:
                        need(eng.conc(st, r) == 1, "result does not tell that a thread was woken")


@rule("tags.add", "C19", minimum=3,
      text="add_scheduler appends the scheduler with exactly the given tags; scheduling_tags of the task builder sets all given tags")
def r_add(c):
    so, po = c.off(SUB, "supported_tags"), c.off(SUB, "s", "_M_ptr")
    got = []

    def push(eng, st, f, args, info):
        if "SubScheduler" not in f.cls and "SubScheduler" not in f.d:
            return None
        if len(args) == 2:
            eng.event(st, "add", args[0], eng.conc(st, eng.load(st, eng.ptr(args[1], so), 8)), eng.load(st, eng.ptr(args[1], po), 8))
        else:
            return None
        return m_skip(eng, st, f, args, info)
    pm = [(lambda f: f.ctx == "std::vector" and f.base in ("push_back", "emplace_back"), push)]
    w = where(c, c.fn("redGrapes::scheduler::TagMatch::add_scheduler"))
    for mode in ("bitset", "list", "empty list"):
        eng = c.engine(models=pm)
        st0 = State()
        this, V, ss = mk_tm(c, eng, st0, (1,))
        s = argp(eng, st0, "new", ISCHED)
        sp = obj(st0, "sp")
        setm(eng, st0, sp, 0, s)
        setm(eng, st0, sp, 8, sym(("arg", "rcn")))
        vec = eng.ptr(this, c.off(TM, "sub_schedulers"))
        if mode == "bitset":
            f = c.drv("tag_add")
            bits = argi(eng, st0, "tags", 64)
            want = bits
            args = [this, bits, sp]
        else:
            f = c.drv("tag_add_list")
            L = obj(st0, "list")
            tgs = (3, 40, 63, 40) if mode == "list" else ()
            for i, t in enumerate(tgs):
                setm(eng, st0, L, 4 * i, t, 4)
            want = sum(1 << t for t in set(tgs))
            args = [this, L, len(tgs), sp]
        outs = normal(eng.run(f, args, st0))
        c.absorb(eng)
        c.instance(mode)
        c.need(len(outs) > 0, "add_scheduler (%s) does not return" % mode, w)
        for o in outs:
            ad = evs(o.st, "add")
            c.need(len(ad) == 1 and ad[0][1][1] == vec and ad[0][1][3] == s and (ad[0][1][2] == want or same(eng, o.st, ad[0][1][2], want)),
                   "add_scheduler (%s): scheduler is not added with exactly the given tags" % mode, w, eng, o.st)
    f = c.drv("tag_build")
    eng = c.engine(models=pm)
    st0 = State()
    s = argp(eng, st0, "new", ISCHED)
    sp = obj(st0, "sp")
    setm(eng, st0, sp, 0, s)
    setm(eng, st0, sp, 8, sym(("arg", "rcn")))
    outs = normal(eng.run(f, [obj(st0, "result"), sp], st0))
    c.absorb(eng)
    c.instance("builder")
    c.need(len(outs) > 0, "the builder does not return", w)
    for o in outs:
        ad = [e for i, e in evs(o.st, "add")]
        c.need(sorted(e[2] for e in ad) == [0, 2, 5] and all(e[3] == s for e in ad) and len({e[1] for e in ad}) == 1,
               "make_tag_match_scheduler().add(...): schedulers with tags %s are added instead of 1, 0 and 2, none" % " ".join(eng.show(e[2]) for e in ad), w, eng, o.st)
    seen = []
    tg = []

    def on_event(eng, st, ev):
        if ev[0] == "call" and ev[1] == "submit":
            T = ev[3] if len(ev) > 3 else ev[2]
            seen.append(1)
            v = eng.conc(st, eng.load(st, eng.ptr(T, c.off(TASK, "required_scheduler_tags")), 8))
            c.need(v == 35, "scheduling_tags: task requires tags %s instead of 0, 1 and 5" % eng.show(v), w2, eng, st)
    w2 = where(c, c.fn("redGrapes::scheduler::SchedulingTagProperties::Builder::scheduling_tags"))

    def hook(eng):
        eng.cfg.on_event = on_event
    f, eng, outs, R, ctx = run_emplace(c, "emplace_tags", hook)
    c.instance("scheduling_tags")
    c.need(bool(seen), "scheduling_tags: task is not submitted", w2)


DSCHED = "redGrapes::scheduler::DefaultScheduler"


def vtable(c, cls, iface=ISCHED):
    """name of the virtual function of the interface -> implementation (mangled) for objects of the class"""
    g = [g for g in c.P.globals.values() if g.get("d") == "vtable for " + cls]
    if not g or "init" not in g[0]:
        raise Missing("vtable of " + cls)
    ent = g[0]["init"][1][0][1][2:]
    r = {}
    for i, (k, n) in c.P.vslots(iface).items():
        if i < len(ent) and ent[i][0] == "f":
            r[n] = ent[i][1]
    return r


@rule("scheduler.bound", "C02 C05 C09 C10 C19 C01", minimum=8,
      text="calls through the scheduler interface reach the schedulers' own functions: each is bound in the vtable of its class, with the signature "
           "of the interface")
def r_bound(c):
    base = vtable(c, ISCHED)
    for cls, names in ((DSCHED, ("idle", "emplace_task", "activate_task", "steal_task", "wake", "wake_all")),
                       (TM, ("emplace_task", "activate_task", "steal_task", "wake", "wake_all", "task_dependency_type"))):
        t = vtable(c, cls)
        for n in names:
            if n not in base:
                raise Missing("IScheduler::" + n)
            c.instance("%s::%s" % (cls.split("::")[-1], n))
            f = c.P.fns.get(base[n])
            c.need(t.get(n) not in (None, base[n], "__cxa_pure_virtual"),
                   "%s is not bound in %s: a call through the interface reaches the default of the interface" % (n, cls), where(c, f) if f else cls)


@rule("scheduler.dependency_type", "C01 C03", minimum=1,
      text="unless a scheduler decides otherwise, a task depends on the completion of its predecessors, not on their start: the default of the "
           "interface, and what the default scheduler answers, is false for any two tasks")
def r_deptype(c):
    for cls in (ISCHED, DSCHED):
        n = vtable(c, cls).get("task_dependency_type")
        f = c.P.fns.get(n)
        if f is None or f.blocks is None:
            raise Missing(cls + "::task_dependency_type")
        eng = c.engine()
        st = State()
        outs = eng.run(f, [argp(eng, st, "this", cls), mk_task(c, eng, st, "before"), mk_task(c, eng, st, "after")], st)
        c.absorb(eng)
        c.instance(cls.split("::")[-1])
        w = where(c, f)
        c.need(len(normal(outs)) > 0, "the type of a dependency is not decided", w)
        for o in normal(outs):
            c.need(eng.conc(o.st, o.val) in (0, False), "%s: a task does not wait for the completion of its predecessor" % cls.split("::")[-1], w, eng, o.st)
