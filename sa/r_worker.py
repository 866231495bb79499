"""Workers, the worker pool and the default scheduler."""
from lib import *

POOL = "redGrapes::dispatch::thread::WorkerPool"
DSCHED = "redGrapes::scheduler::DefaultScheduler"
GCTX = "_ZZN9redGrapes16SingletonContext3getEvE3ctx"
G_CUR = "_ZN9redGrapes7Context12current_taskE"


def gctx(c, eng):
    """the context singleton"""
    g = [n for n in eng.P.globals if n.startswith("_ZZ") and n.endswith("16SingletonContext3getEvE3ctx")]
    if not g:
        raise Missing("context singleton")
    return eng.gbase(g[0])


def mk_pool(c, eng, st, n, pool=None):
    """a pool of n workers, made the pool of the context singleton"""
    eng.cfg.split.add(("o", ("al", 0, "workers", 0), 0))
    p = pool if pool is not None else argp(eng, st, "pool", POOL)
    V = ("o", ("al", 0, "workers", 0), 0)
    st.mem.setdefault(V, {})
    ws = []
    for i in range(n):
        w = argp(eng, st, "worker%d" % i, WTHREAD)
        ws.append(w)
        setm(eng, st, V, 16 * i, w)
        setm(eng, st, V, 16 * i + 8, sym(("arg", "wrc%d" % i)))
        setm(eng, st, w, c.off(WTHREAD, "id"), i, 4)
    o = c.off(POOL, "workers", "_M_impl", "_M_start")
    setm(eng, st, p, o, V)
    setm(eng, st, p, o + 8, eng.ptr(V, 16 * n))
    setm(eng, st, p, o + 16, eng.ptr(V, 16 * n))
    if pool is None:
        g = gctx(c, eng)
        eng.cfg.pin_bases.add(g)
        setm(eng, st, g, c.off(CTXT, "worker_pool", "_M_ptr"), p)
    return p, V, ws


def wkey(eng, st, V, ws, p):
    """the worker a pointer belongs to: index, index term if it is one of the pool, or None"""
    b = eng.split(p)[0]
    if b in ws:
        return ws.index(b)
    if isinstance(b, tuple) and b[0] == "s" and isinstance(b[1], tuple) and b[1][0] == "L" and b[1][1] == V:
        off = b[1][2]
        if isint(off):
            return None
        t = off
        if isinstance(t, tuple) and t[0] == "mul" or (isinstance(t, tuple) and t[0] == "bin" and t[1] in ("mul", "shl")):
            pass
        return ("at", off)
    return None


def probe_model(n, seen=None):
    """AtomicBitfield::probe_by_value(f, ...): f is tried for any number of existing bits, the first result found is returned (rule bits.probe)"""
    def h(eng, st, f, args, info):
        d = f.d
        F = d[d.rindex("probe_by_value<"):]
        F = F[len("probe_by_value<"):]
        T = tmplarg("x<" + F, 0)
        lam = tmplarg("x<" + F, 1)
        g = [x for x in eng.P.fns.values() if x.blocks is not None and x.base == "operator()" and x.d.startswith(lam + "::operator()")]
        if not g:
            raise Unsupported("function given to probe_by_value not found: " + lam)
        g = g[0]
        big = T[-1:] == "*"
        outs, cur = [], [(st, ("agg", (UNDEF, 0)) if big else ("cat", 8, ((4, 1, 0),)))]
        for k in range(2):
            nxt = []
            for s, v in cur:
                idx = eng.fresh(s, info.cs, (info.i["n"], "probe", k), 32, tag="c")
                s0 = s.copy()
                outs.append(Outcome("ret", s0, v))
                s.facts[idx] = (0, n - 1, NE)
                eng.event(s, "probe", args[2], idx)
                for o in eng.call_fn(g, [args[1], idx], s, eng.csid(info.cs, info.fn.name, (info.i["n"], "probe", k))):
                    if o.kind != "ret":
                        outs.append(o)
                        continue
                    if isinstance(o.val, tuple) and o.val[0] == "agg":
                        e = eng.conc(o.st, o.val[1][1])
                    else:
                        tmp = ("o", ("al", info.cs, (info.i["n"], "pr"), 0), 0)
                        o.st.mem[tmp] = {}
                        eng.store(o.st, tmp, o.val, 8)
                        e = eng.conc(o.st, eng.load(o.st, eng.ptr(tmp, 4), 1))
                    if e == 0:
                        nxt.append((o.st, o.val))
                    else:
                        outs.append(Outcome("ret", o.st, o.val))
            cur = nxt
        outs += [Outcome("ret", s, v) for s, v in cur]
        return outs
    h.names = ["redGrapes::AtomicBitfield::probe_by_value"]
    return [(lambda f: f.ctx == "redGrapes::AtomicBitfield" and f.base == "probe_by_value", h)]


VW = {WORKER + "::emplace_task": WORKER + "::emplace_task", WORKER + "::activate_task": WORKER + "::activate_task",
      WTHREAD + "::emplace_task": WORKER + "::emplace_task", WTHREAD + "::activate_task": WORKER + "::activate_task",
      WTHREAD + "::wake": WORKER + "::wake", WORKER + "::wake": WORKER + "::wake",
      DSCHED + "::wake": DSCHED + "::wake", DSCHED + "::steal_new_task": DSCHED + "::steal_new_task",
      DSCHED + "::steal_ready_task": DSCHED + "::steal_ready_task"}


def inq(c, eng, p, W, which):
    """is p the address of that queue of worker W?"""
    b, o = eng.split(p)
    if b != W or not isint(o):
        return False
    lo = c.off(WORKER, which)
    return lo <= o < lo + c.P.types["redGrapes::task::Queue"]["size"]


def incv(c, eng, p, W):
    b, o = eng.split(p)
    if b != W or not isint(o):
        return False
    lo = c.off(WORKER, "cv")
    return lo <= o < lo + c.P.types["redGrapes::CondVar"]["size"]


def track(c, eng, w, cell):
    """typestate of a task taken from a queue: new -> held -> edges -> released(claimed, ready); ready; nothing taken is dropped"""
    tg = tags(c)
    lo = c.off(WORKER, "emplacement_queue")
    hi = lo + c.P.types["redGrapes::task::Queue"]["size"]
    so = c.off(TASK, "pre_event") + c.off(EVENT, "state")

    def dropped(st):
        p = st.aux.get("pend")
        if p is None:
            return False
        if p[1] == "released":
            return p[2] == 1 and known(eng, st, p[3]) != 0
        return p[1] != "queued"

    def on_event(eng_, st, ev):
        need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
        p = st.aux.get("pend")
        if ev[0] == "deq":
            need(not dropped(st), "a ready or uninitialised task is taken but dropped")
            q = eng.split(ev[1])[1]
            st.aux["pend"] = (ev[2], "new" if isint(q) and lo <= q < hi else "ready")
        elif ev[0] in ("rmw", "astore", "cas"):
            b, o = eng.split(ev[2])
            if p and b == p[0] and o == so:
                need(ev[0] == "rmw" and rmw_add(ev) == 1 and p[1] == "new", "the pre-event of a new task is not held exactly once, before it gets its edges")
                st.aux["pend"] = (p[0], "held")
        elif ev[0] == "enq" and p and ev[2] == p[0]:
            q = eng.split(ev[1])[1]
            emp = isint(q) and lo <= q < hi
            need(p[1] == ("new" if emp else "ready") or (not emp and p[1] == "released" and p[2] == 1 and known(eng, st, p[3]) == 1),
                 "a task which was taken is put into a queue while its state is '%s'" % p[1])
            st.aux["pend"] = (p[0], "queued")
        elif ev[0] == "call" and ev[1] == "init_graph":
            need(p is not None and ev[2] == graph_of(c, eng, p[0]) and p[1] == "held", "edges of a task are created although it is not a new task which is held")
            if p:
                st.aux["pend"] = (p[0], "edges")
        elif ev[0] == "call" and ev[1] == "notify":
            v = evpval(ev[2])
            need(p is not None and v[0] == tg["PRE"] and v[1] == p[0] and p[1] == "edges", "a task is released which has not got its edges")
            if p:
                st.aux["pend"] = (p[0], "released", eng.conc(st, ev[3]), ev[4])
    eng.cfg.on_event = on_event

    def final(st, r, strict=True):
        need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
        p = st.aux.get("pend")
        if p is None:
            return None
        if p[1] == "ready":
            return p[0]
        if p[1] == "queued":
            return None
        if not strict and p[1] == "new":
            return p[0]
        if not need(p[1] == "released", "a new task is left in state '%s'" % p[1]):
            return None
        if p[2] == 0:
            return None
        v = known(eng, st, p[3])
        need(v is not None, "whether a new task is ready is not looked at")
        return p[0] if v == 1 else None
    return final


@rule("worker.init_dependencies", "C02 C03 C10 C01 C05", minimum=1,
      text="a task taken from the emplacement queue is held (pre-event up), then gets its edges, then is released; it is handed to the caller iff "
           "it turned out ready and is claimed; the result says whether a task was taken")
def r_initdep(c):
    f = c.fn(WORKER + "::init_dependencies")
    w = where(c, f)
    for claimed in (0, 1):
        eng = c.engine(models=cuts("init_graph", "notify"))
        st0 = State()
        this = argp(eng, st0, "this", WORKER)
        t = obj(st0, "t")
        old = sym(("arg", "old"))
        setm(eng, st0, t, 0, old)
        cell = "init_dependencies (%s)" % ("claimed" if claimed else "not claimed")
        final = track(c, eng, w, cell)
        outs = normal(eng.run(f, [this, t, claimed], st0))
        c.absorb(eng)
        c.instance(cell)
        c.need(len(outs) > 0, cell + ": does not return", w)
        c.need(any(evs(o.st, "deq") for o in outs), cell + ": takes no task", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
            dq = evs(st, "deq")
            need(len(dq) <= 1 and all(inq(c, eng, e[1], this, "emplacement_queue") for i, e in dq), "takes more than one task or from another queue")
            r = final(st, None)
            tv = eng.conc(st, eng.load(st, t, 8))
            need(eng.conc(st, o.val) == (1 if dq else 0), "result does not tell whether a task was taken")
            nt = calls(st, "notify")
            if dq:
                need(all(eng.conc(st, e[3]) == claimed for i, e in nt), "claim is not passed on")
                if claimed:
                    need(tv == (r or 0), "the task is not handed to the caller iff it is ready")
                elif nt and known(eng, st, nt[0][1][4]) == 0:
                    need(tv == 0, "a task which is not ready is handed to the caller")
            else:
                need(not nt and tv in (old, 0), "hands out a task which was not taken from the queue")


@rule("worker.gather", "C02 C03 C10 C05", minimum=1,
      text="gather_task returns every ready task it takes from a queue, initialises every new task it takes (hold, edges, release) and returns "
           "without task only after its own queues were empty and stealing failed")
def r_gather(c):
    f = c.fn(WORKER + "::gather_task")
    w = where(c, f)
    eng = c.engine(models=probe_model(3) + cuts("init_graph", "notify", "set_state"))
    st0 = State()
    p, V, ws = mk_pool(c, eng, st0, 3)
    this = ws[1]
    final = track(c, eng, w, "gather_task")
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "gather_task does not return", w)
    for o in outs:
        gather_result(c, eng, o, w, "gather_task", final, this)
    c.need(any(vcalls(o.st, "steal_task") for o in outs), "gather_task: never asks the scheduler for tasks of other workers", w)


def gather_result(c, eng, o, w, cell, final, this=None):
    st = o.st
    need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
    r = eng.conc(st, o.val)
    k = final(st, r)
    stl = vcalls(st, "steal_task")
    got = stl[-1][1][3] if stl else None
    if k is not None:
        need(r == k, "a ready task is taken but not returned")
        if got is not None:
            need(same(eng, st, got, 0), "a task is stolen but dropped")
        return
    if got is not None and not same(eng, st, got, 0):
        need(r == got, "a task is stolen but dropped")
    else:
        need(r == 0 or (got is not None and r == got), "returns a task which it did not take or which is not ready")
    if this is not None:
        for q in ("ready_queue", "emplacement_queue"):
            need(any(inq(c, eng, e[1], this, q) for i, e in evs(st, "deq.empty")), "gives up although the own %s was not seen empty" % q.replace("_", " "))


@rule("scheduler.steal", "C02 C03 C10 C01 C05", minimum=1,
      text="stealing takes at most one task from a queue of an existing worker and returns it; new tasks are initialised (hold, edges, release) "
           "and returned iff they are ready and claimed; nothing is dropped")
def r_steal(c):
    for name in ("steal_ready_task", "steal_new_task", "steal_task"):
        fs = c.P.find(DSCHED + "::" + name)
        if not fs:
            if name == "steal_task":
                raise Missing("DefaultScheduler::steal_task")
            continue
        f = fs[0]
        w = where(c, f)
        eng = c.engine(models=probe_model(2) + cuts("init_graph", "notify", "set_state"), vdispatch=VW)
        st0 = State()
        p, V, ws = mk_pool(c, eng, st0, 2)
        this = argp(eng, st0, "this", DSCHED)
        final = track(c, eng, w, name)
        outs = normal(eng.run(f, [this, ws[1]], st0))
        c.absorb(eng)
        c.instance(name)
        c.need(len(outs) > 0, name + " does not return", w)
        c.need(any(evs(o.st, "deq") for o in outs), name + ": takes no task", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, name + ": " + msg, w, eng, st)
            need(not evs(st, "oob"), "looks at a worker that does not exist")
            r = eng.conc(st, o.val)
            if name == "steal_task":
                gather_result(c, eng, o, w, name, final)
            else:
                need(r == (final(st, r, strict=False) or 0), "the task taken is not returned")


@rule("worker.loop", "C05 C10 C26", minimum=1,
      text="the work loop executes every task it gathered exactly once before it gathers the next, sleeps only after a gather without result, and "
           "ends only after it saw the stop flag, which it looks at after each sleep")
def r_loop(c):
    f = c.fn(WORKER + "::work_loop")
    w = where(c, f)
    eng = c.engine(models=cuts("cv_wait", "set_state", "gather", "execute_task"))
    st0 = State()
    this = argp(eng, st0, "this", WORKER)
    ms = eng.ptr(this, c.off(WORKER, "m_stop"))

    def pending(st, upto):
        g = [(i, e) for i, e in calls(st, "gather") if i < upto]
        return g[-1] if g else None

    def on_event(eng_, st, ev):
        need = lambda cond, msg: c.need(cond, "work_loop: " + msg, w, eng, st)
        a = st.aux
        if ev[0] == "call" and ev[1] == "gather":
            p = a.get("got")
            need(p is None or a.get("done") or same(eng, st, p, 0), "a task is gathered but not executed")
            a["got"], a["done"] = ev[3], 0
        elif ev[0] == "call" and ev[1] == "execute_task":
            need(a.get("got") is not None and ev[2] == a["got"] and not a.get("done"), "executes a task which was not gathered, or twice")
            need(differ(eng, st, ev[2], 0), "executes without task")
            a["done"] = 1
        elif ev[0] == "call" and ev[1] == "cv_wait":
            p = a.get("got")
            need(p is None or a.get("done") or same(eng, st, p, 0), "sleeps although a gathered task is not executed")
            need(p is None or same(eng, st, p, 0), "sleeps although there may be more tasks")
            need(a.get("looked"), "sleeps again without looking at the stop flag")
            need(incv(c, eng, ev[2], this), "waits for something else")
            a["looked"] = 0
            a["slept"] = 1
            a["got"] = None
        elif ev[0] == "aload" and ev[2] == ms:
            need(ev[4] in ("acquire", "seq_cst", "consume"), "stop flag is read with order " + str(ev[4]))
            a["looked"] = 1
    eng.cfg.on_event = on_event
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "work_loop does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "work_loop: " + msg, w, eng, st)
        p = st.aux.get("got")
        need(p is None or st.aux.get("done") or same(eng, st, p, 0), "ends although a gathered task is not executed")
        ld = [e for i, e in evs(st, "aload") if e[2] == ms]
        need(ld and any(eng.rng(st, e[3], 8)[0] == 1 or known(eng, st, e[3]) == 1 for e in ld[-2:]), "ends although the stop flag was not seen")
    c.need(any(calls(o.st, "execute_task") for o in outs), "work_loop never executes a task", w)
    c.need(any(calls(o.st, "cv_wait") for o in outs), "work_loop never sleeps", w)


@rule("worker.handover", "C02 C09 C10 C27 C05", minimum=4,
      text="emplace_task/activate_task of a worker put the task into the right queue exactly once and wake the worker afterwards; the default "
           "scheduler does so for one existing worker")
def r_handover(c):
    for name, cls in (("emplace_task", WORKER), ("activate_task", WORKER), ("emplace_task", DSCHED), ("activate_task", DSCHED)):
        f = c.fn(cls + "::" + name)
        w = where(c, f)
        sizes = (1, 3) if cls == DSCHED else (2,)
        for n in sizes:
            for inw in ((0, 1) if cls == DSCHED and name == "activate_task" else (0,)):
                eng = c.engine(models=probe_model(n) + assertion(c, w) + cuts("cv_notify", "set_state"), vdispatch=VW)
                st0 = State()
                p, V, ws = mk_pool(c, eng, st0, n)
                this = ws[0] if cls == WORKER else argp(eng, st0, "this", DSCHED)
                g = eng.gbase("_ZN9redGrapes7Context14current_workerE")
                eng.cfg.pin_bases.add(g)
                setm(eng, st0, g, 0, ws[-1] if inw else 0)
                T = mk_task(c, eng, st0, "task")
                over = [0]

                def on_access(eng_, st, b, o, sz, wr):
                    if b == T and st.aux.get("out"):
                        c.need(False, cell + ": the task is used after it was put into a queue", w, eng, st)

                def on_event(eng_, st, ev):
                    if ev[0] == "enq" and ev[2] == T:
                        st.aux["out"] = 1
                eng.cfg.on_access, eng.cfg.on_event = on_access, on_event
                cell = "%s::%s, %d workers" % (cls.split("::")[-1], name, n)
                outs = normal(eng.run(f, [this, T], st0))
                c.absorb(eng)
                c.instance(cell)
                c.need(len(outs) > 0, cell + ": does not return", w)
                q = "emplacement_queue" if name == "emplace_task" else "ready_queue"
                for o in outs:
                    st = o.st
                    need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
                    need(not evs(st, "oob"), "uses a worker that does not exist")
                    en = evs(st, "enq")
                    if not need(len(en) == 1 and en[0][1][2] == T, "the task is put into a queue %d times" % len(en)):
                        continue
                    W = eng.split(en[0][1][1])[0]
                    need(W in ws and inq(c, eng, en[0][1][1], W, q), "the task is put into the wrong queue")
                    if cls == WORKER:
                        need(W == this, "the task is given to another worker")
                    nt = calls(st, "cv_notify")
                    need(any(incv(c, eng, e[2], W) and i > en[0][0] for i, e in nt), "the worker is not woken after it got the task")
                    need(not evs(st, "deq"), "a task is taken from a queue")


@rule("worker.waker", "C09", minimum=3,
      text="waker id 0 is the main thread, worker i has waker id i+1; wake(id) notifies exactly that thread and ignores unknown ids; wake_all wakes all of them")
def r_waker(c):
    f = c.fn(DSCHED + "::wake")
    w = where(c, f)
    n = 3
    for wid in list(range(n + 3)) + [0xFFFF]:
        eng = c.engine(models=assertion(c, w) + cuts("cv_notify"), vdispatch=VW)
        st0 = State()
        p, V, ws = mk_pool(c, eng, st0, n)
        this = argp(eng, st0, "this", DSCHED)
        outs = normal(eng.run(f, [this, wid], st0))
        c.absorb(eng)
        c.instance("wake(%d) of %d workers" % (wid, n))
        c.need(len(outs) > 0, "wake does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "wake(%d) with %d workers: %s" % (wid, n, msg), w, eng, st)
            nt = calls(st, "cv_notify")
            need(not evs(st, "oob"), "uses a worker that does not exist")
            if wid > n:
                need(not nt and eng.conc(st, o.val) == 0, "an unknown thread is woken")
                continue
            if need(len(nt) == 1, "%d threads are woken" % len(nt)):
                b, off = eng.split(nt[0][1][2])
                if wid == 0:
                    lo = c.off(DSCHED, "cv")
                    need(b == this and lo <= off < lo + c.P.types["redGrapes::CondVar"]["size"], "the main thread is not woken")
                else:
                    need(incv(c, eng, nt[0][1][2], ws[wid - 1]), "the wrong worker is woken")
                need(same(eng, st, o.val, nt[0][1][3]), "result does not tell whether the thread was asleep")
    eng = c.engine()
    st0 = State()
    this = argp(eng, st0, "this", WORKER)
    i = argi(eng, st0, "id", 32, 0, 0xFFF0)
    setm(eng, st0, this, c.off(WORKER, "id"), i, 4)
    f2 = c.drv("worker_waker")
    outs = normal(eng.run(f2, [this], st0))
    c.absorb(eng)
    c.instance("waker id of a worker")
    for k in (0, 1, 7):
        eng2 = c.engine()
        s = State()
        t2 = argp(eng2, s, "this", WORKER)
        setm(eng2, s, t2, c.off(WORKER, "id"), k, 4)
        for o in normal(eng2.run(f2, [t2], s)):
            c.need(eng2.conc(o.st, o.val) == k + 1, "waker id of worker %d is not %d" % (k, k + 1), where(c, c.fn(WORKER + "::get_waker_id")), eng2, o.st)
    f = c.fn(DSCHED + "::wake_all")
    w = where(c, f)
    for n in (1, 2, 4):
        eng = c.engine(models=assertion(c, w) + cuts("cv_notify"), vdispatch=VW)
        st0 = State()
        p, V, ws = mk_pool(c, eng, st0, n)
        this = argp(eng, st0, "this", DSCHED)
        outs = normal(eng.run(f, [this], st0))
        c.absorb(eng)
        c.instance("wake_all of %d workers" % n)
        c.need(len(outs) > 0, "wake_all does not return", w)
        for o in outs:
            nt = {eng.split(e[2])[0] for i, e in calls(o.st, "cv_notify")}
            c.need(this in nt, "wake_all does not wake the main thread", w, eng, o.st)
            for k, x in enumerate(ws):
                c.need(x in nt, "wake_all with %d workers does not wake worker %d" % (n, k), w, eng, o.st)


@rule("worker.stop", "C26 C09 C08", minimum=3,
      text="stop sets the stop flag and then wakes the worker, joins its thread afterwards; the pool starts and stops each of its workers")
def r_stop(c):
    thr = lambda f: f.ctx == "std::thread"

    def tm(eng, st, f, args, info):
        eng.event(st, "thread", f.base, *args[:1])
        if f.base == "joinable":
            return ret(st, 1)       # start() was called
        return m_skip(eng, st, f, args, info)
    for cls in (WORKER, WTHREAD):
        f = c.fn(cls + "::stop")
        w = where(c, f)
        eng = c.engine(models=[(thr, tm)] + cuts("cv_notify"), vdispatch=VW)
        st0 = State()
        this = argp(eng, st0, "this", cls)
        ms = eng.ptr(this, c.off(cls, "m_stop"))
        outs = normal(eng.run(f, [this], st0))
        c.absorb(eng)
        c.instance(f.d)
        c.need(len(outs) > 0, "stop does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s::stop: %s" % (cls.split("::")[-1], msg), w, eng, st)
            ss = [(i, e) for i, e in evs(st, "astore") if e[2] == ms]
            nt = calls(st, "cv_notify")
            need(len(ss) == 1 and eng.conc(st, ss[0][1][3]) == 1, "the stop flag is not set")
            need(ss and ss[0][1][4] in REL, "the stop flag is not set with release order")
            need(nt and incv(c, eng, nt[-1][1][2], this), "the worker is not woken")
            if ss and nt:
                need(nt[-1][0] > ss[0][0], "the worker is woken before the stop flag is set")
            j = [(i, e) for i, e in evs(st, "thread") if e[1] in ("join", "detach")]
            if cls == WTHREAD:
                need(len(j) == 1 and j[0][1][1] == "join" and eng.split(j[0][1][2]) == (this, c.off(WTHREAD, "thread")), "the thread is not joined exactly once")
                if j and nt:
                    need(j[0][0] > nt[-1][0], "the thread is joined before it is told to stop")
    for name, inner in (("start", "start"), ("stop", "stop")):
        f = c.fn(POOL + "::" + name)
        w = where(c, f)
        for n in (1, 3):
            def im(eng, st, g, args, info):
                eng.event(st, "worker", g.base, args[0])
                return m_skip(eng, st, g, args, info)

            def jm(eng, st, g, args, info):
                x = eng.split(args[0])[0]
                if g.base == "joinable":
                    return ret(st, 1)
                if g.base == "join" and x in ws:
                    ms = eng.ptr(x, c.off(WTHREAD, "m_stop"))
                    told = [i for i, e in evs(st, "astore") if e[2] == ms and eng.conc(st, e[3]) == 1 and e[4] in REL]
                    woken = [i for i, e in calls(st, "cv_notify") if incv(c, eng, e[2], x)]
                    c.need(told and woken and max(woken) > min(told), "WorkerPool::stop: a thread is joined which was not told to stop and woken", w, eng, st)
                    eng.event(st, "worker", "stop", x)
                return m_skip(eng, st, g, args, info)

            def clr(eng, st, g, args, info):
                eng.event(st, "clear", args[0])
                return m_skip(eng, st, g, args, info)

            def shr(eng, st, g, args, info):
                if eng.split(args[0]) != (p, c.off(POOL, "workers")):
                    return None
                eng.event(st, "clear", args[0])
                return None
            eng = c.engine(vdispatch={**VW, WTHREAD + "::stop": WTHREAD + "::stop", WTHREAD + "::start": WTHREAD + "::start"}, models=([(thr, jm)] if inner == "stop" else [(lambda g: g.qual == WTHREAD + "::start", im)]) + cuts("cv_notify") + [
                                   (lambda g: g.ctx == "std::vector" and g.base in ("clear", "_M_erase_at_end"), clr),
                                   (lambda g: g.ctx == "std::vector" and g.base in ("pop_back", "erase", "_M_erase", "resize", "swap", "shrink_to_fit"), shr)])
            st0 = State()
            p, V, ws = mk_pool(c, eng, st0, n)
            outs = normal(eng.run(f, [p], st0))
            c.absorb(eng)
            c.instance("pool %s, %d workers" % (name, n))
            c.need(len(outs) > 0, "WorkerPool::%s does not return" % name, w)
            for o in outs:
                st = o.st
                done = [eng.split(e[2])[0] for i, e in evs(st, "worker") if e[1] == inner]
                for k, x in enumerate(ws):
                    c.need(done.count(x) == 1, "WorkerPool::%s: worker %d of %d is handled %d times" % (name, k, n, done.count(x)), w, eng, st)
                cl = [i for i, e in evs(st, "clear")]
                last = max([i for i, e in enumerate(st.trace) if e[0] == "worker" or (e[0] == "vcall" and e[1].endswith("::" + inner))], default=-1)
                c.need(all(i > last for i in cl), "WorkerPool::%s: workers are released before they were handled" % name, w, eng, st)


@rule("worker.run", "C09 C10 C26 C16 C29", minimum=1,
      text="a worker thread sets current worker, waker id and arena before it starts to work, and does not keep itself alive afterwards")
def r_run(c):
    f = c.fn(WTHREAD + "::run")
    w = where(c, f)
    eng = c.engine(models=cuts("work_loop") + [(lambda g: g.qual in (WTHREAD + "::cpubind", WTHREAD + "::membind"), m_skip)])
    st0 = State()
    this = argp(eng, st0, "this", WTHREAD)
    setm(eng, st0, this, c.off(WTHREAD, "id"), 5, 4)
    seen = []
    wk = c.P.layout("std::enable_shared_from_this<redGrapes::dispatch::thread::WorkerThread>")
    o = c.off(WTHREAD, "_M_weak_this", "_M_ptr")
    setm(eng, st0, this, o, this)
    gs = {n: eng.gbase(m) for n, m in (("worker", "_ZN9redGrapes7Context14current_workerE"), ("waker", "_ZN9redGrapes7Context16current_waker_idE"),
                                       ("arena", "_ZN9redGrapes7Context13current_arenaE"))}
    for g in gs.values():
        eng.cfg.pin_bases.add(g)

    def on_event(eng_, st, ev):
        if ev[0] == "call" and ev[1] == "work_loop":
            need = lambda cond, msg: c.need(cond, "worker thread: " + msg, w, eng, st)
            seen.append(1)
            need(eng.split(ev[2])[0] == this, "works for another worker")
            need(eng.conc(st, eng.load(st, gs["worker"], 8)) == this, "current worker is not set when it starts to work")
            need(eng.conc(st, eng.load(st, gs["waker"], 2)) == 6, "waker id is not set when it starts to work")
            need(eng.conc(st, eng.load(st, gs["arena"], 4)) == 5, "arena is not set when it starts to work")
    eng.cfg.on_event = on_event
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(bool(seen) and len(outs) > 0, "worker thread does not work", w)
    for o in outs:
        c.need(len(calls(o.st, "work_loop")) == 1, "work loop is run %d times" % len(calls(o.st, "work_loop")), w, eng, o.st)
        c.need(eng.conc(o.st, eng.load(o.st, gs["worker"], 8)) == 0, "the thread keeps its worker alive", w, eng, o.st)


def hwloc_model(n):
    """a machine with n processing units"""
    def h(eng, st, f, args, info):
        if f.name in ("hwloc_get_nbobjs_by_type", "hwloc_get_nbobjs_by_depth"):
            return ret(st, n)
        if f.name == "hwloc_get_type_depth":
            return ret(st, 3)
        return m_skip(eng, st, f, args, info)
    return [(lambda f: f.name.startswith("hwloc_") and (f.blocks is None or f.name == "hwloc_get_nbobjs_by_type"), h)]


def machine(c, eng, st0, n, ev=True):
    """a machine with n processing units; returns the units, their cpusets and the models of hwloc"""
    PU, CS = [], []
    oc = c.off("hwloc_obj", "cpuset")
    for k in range(n):
        b, s = ("o", ("al", 0, "pu%d" % k, 0), 0), ("o", ("al", 0, "cpuset%d" % k, 0), 0)
        st0.mem[b], st0.mem[s] = {}, {}
        setm(eng, st0, b, oc, s)
        PU.append(b)
        CS.append(s)

    def h(eng, st, f, args, info):
        a = [eng.conc(st, x) for x in args]
        if f.name == "hwloc_get_type_depth":
            return ret(st, 7 if a[1] == 3 else 5)          # HWLOC_OBJ_PU
        if f.name == "hwloc_get_nbobjs_by_depth":
            return ret(st, n if a[1] == 7 else n + 1)
        if f.name == "hwloc_get_obj_by_depth":
            if not isint(a[2]):
                raise Unsupported("processing unit with an unknown index")
            return ret(st, PU[a[2]] if a[1] == 7 and a[2] < n else 0)
        if f.name in ("hwloc_set_cpubind", "hwloc_set_membind"):
            v = eng.result(st, info)
            eng.event(st, "call", f.name, *(a + [v]))
            return eng.decide(st, info, v)
        return m_skip(eng, st, f, args, info)
    return PU, CS, [(lambda f: f.name.startswith("hwloc_") and f.blocks is None, h)]


@rule("worker.bind", "C29", minimum=6,
      text="a worker thread binds itself, and its memory, to the processing unit number id modulo the number of units, and to no other, before it "
           "looks for work; it goes on when the system refuses")
def r_bind(c):
    f = c.fn(WTHREAD + "::run")
    w = where(c, f)
    for n, i in ((1, 0), (1, 3), (3, 0), (3, 2), (3, 3), (3, 7), (4, 1), (4, 4), (6, 100), (3, 65534), (1, None)):
        eng = c.engine(models=cuts("work_loop"))
        st0 = State()
        PU, CS, M = machine(c, eng, st0, n)
        eng.cfg.models = M + eng.cfg.models
        this = argp(eng, st0, "this", WTHREAD)
        setm(eng, st0, this, c.off(WTHREAD, "id"), argi(eng, st0, "id", 32, 0, 0xFFFE) if i is None else i, 4)
        i = i or 0
        setm(eng, st0, this, c.off(WTHREAD, "_M_weak_this", "_M_ptr"), this)
        cell = "worker %d on a machine with %d units: " % (i, n)
        seen = {"hwloc_set_cpubind": set(), "hwloc_set_membind": set()}

        def on_event(eng_, st, ev):
            need = lambda cond, msg: c.need(cond, cell + msg, w, eng, st)
            if ev[0] == "call" and ev[1] in seen:
                cpu = ev[1] == "hwloc_set_cpubind"
                need(ev[3] == CS[i % n], "is bound to another unit than its own (%s)" % ev[1])
                fl = ev[4] if cpu else ev[5]
                need(isint(fl) and fl & 3 == 2, "something else than this thread is bound (%s)" % ev[1])
                if not cpu:
                    need(ev[4] == 2 and isint(fl) and not fl & 32, "memory is not bound to the unit")
                need(not calls(st, "work_loop"), "is bound after it started to work")
            if ev[0] == "call" and ev[1] == "work_loop":
                for nm in seen:
                    b = calls(st, nm)
                    need(b, "starts to work without having asked to be bound (%s)" % nm)
                    for k, e in b:
                        seen[nm].add(known(eng, st, eng.cmp(st, "eq", 32, e[-1], 0)))
        eng.cfg.on_event = on_event
        outs = normal(eng.run(f, [this], st0))
        c.absorb(eng)
        c.instance(cell)
        c.need(len(outs) > 0 and all(seen.values()), cell + "does not start to work", w)
        for nm, r in seen.items():
            c.need(None in r or 0 in r, cell + "does not start to work when it could not be bound (%s)" % nm, w)


@rule("arena.bind", "C29", minimum=5,
      text="the arena with the number i requests its memory with a binding to the processing unit number i modulo the number of units, strictly to its cpuset")
def r_arenabind(c):
    f = c.fn(POOL + "::emplace_workers")
    w = where(c, f)
    H = "redGrapes::memory::HwlocAlloc"
    BA = "redGrapes::memory::ChunkedBumpAlloc<redGrapes::memory::HwlocAlloc>"
    oo = c.off(H, "obj")
    oa = c.off(POOL, "allocs", "_M_impl", "_M_start")
    ow = c.off(POOL, "workers", "_M_impl", "_M_start")
    esz = c.P.types[BA]["size"]
    for n, pus in ((1, 4), (3, 4), (4, 4), (3, 2), (5, 2), (3, 1)):
        cell = "emplace_workers(%d) with %d units: " % (n, pus)

        def vm(eng, st, f, args, info):
            b, o = eng.split(args[0])
            if b != p or o not in (oa, ow):
                return None
            if f.base not in ("reserve", "resize"):
                e = eng.load(st, eng.ptr(p, o + 8), 8)
                if o == oa:
                    t = f.types[2] if len(f.types) > 2 else ""
                    a = eng.ptr(args[1], c.off(BA, "alloc")) if "ChunkedBumpAlloc" in t else args[1]
                    eng.event(st, "arena", eng.split(e)[1], eng.conc(st, eng.load(st, eng.ptr(a, oo), 8)))
                setm(eng, st, p, o + 8, eng.padd(e, esz if o == oa else 16))
            return m_skip(eng, st, f, args, info)

        eng = c.engine(models=[(lambda f: f.ctx == "std::vector" and f.base in ("reserve", "resize", "emplace_back", "push_back"), vm),
                               (lambda f: f.qual == WTHREAD + "::WorkerThread", m_skip)])
        st0 = State()
        PU, CS, M = machine(c, eng, st0, pus)
        eng.cfg.models = M + eng.cfg.models
        p = argp(eng, st0, "pool", POOL)
        A, B = ("o", ("al", 0, "allocs", 0), 0), ("o", ("al", 0, "wvec", 0), 0)
        for o, x in ((oa, A), (ow, B)):
            st0.mem[x] = {}
            for k in (0, 8, 16):
                setm(eng, st0, p, o + k, x)
        outs = normal(eng.run(f, [p, n], st0))
        c.absorb(eng)
        c.instance(cell)
        c.need(len(outs) > 0, cell + "does not return", w)
        for o in outs:
            need = lambda cond, msg: c.need(cond, cell + msg, w, eng, o.st)
            ar = [e for i, e in evs(o.st, "arena")]
            need(len(ar) == n, "%d arenas are created" % len(ar))
            for e in ar:
                k = e[1] // esz if isint(e[1]) else None
                need(k is not None and e[2] == PU[k % pus], "arena %s gets its memory from another unit" % k)
    f = c.fn(H + "::allocate")
    w = where(c, f)
    eng = c.engine(models=[(lambda f: f.name == "hwloc_alloc_membind", cut_model(("get", ["v"] * 5)))])
    st0 = State()
    PU, CS, M = machine(c, eng, st0, 2)
    eng.cfg.models = eng.cfg.models + M
    this = argp(eng, st0, "this", H)
    setm(eng, st0, this, oo, PU[1])
    outs = normal(eng.run(f, [this, argi(eng, st0, "n", 64, 1)], st0))
    c.absorb(eng)
    c.instance("HwlocAlloc::allocate")
    c.need(len(outs) > 0, "HwlocAlloc::allocate does not return", w)
    for o in outs:
        g = [e for i, e in calls(o.st, "get")]
        c.need(g and all(e[4] == CS[1] and e[5] == 2 and isint(e[6]) and not e[6] & 32 for e in g), "HwlocAlloc::allocate: memory is not requested with a binding to the own unit", w, eng, o.st)


@rule("pool.emplace", "C26 C09 C16 C29", minimum=3,
      text="emplace_workers creates exactly the requested number of workers with ids 0..n-1 and one arena each; storage of the arenas, to which "
           "workers keep references, is reserved before the first worker exists; an arena exists before it is handed to a worker")
def r_emplace(c):
    f = c.fn(POOL + "::emplace_workers")
    w = where(c, f)
    oa = c.off(POOL, "allocs", "_M_impl", "_M_start")
    ow = c.off(POOL, "workers", "_M_impl", "_M_start")
    esz = c.P.types["redGrapes::memory::ChunkedBumpAlloc<redGrapes::memory::HwlocAlloc>"]["size"]
    for n, pus in ((1, 4), (3, 4), (4, 4), (3, 2)):
        A = ("o", ("al", 0, "allocs", 0), 0)

        def vm(eng, st, f, args, info):
            b, o = eng.split(args[0])
            if b != p or o not in (oa, ow):
                return None
            which = "allocs" if o == oa else "workers"
            if f.base in ("reserve", "resize"):
                eng.event(st, "vec", which, "reserve", eng.conc(st, args[1]))
            else:
                e = eng.load(st, eng.ptr(p, o + 8), 8)
                x = eng.split(eng.load(st, args[1], 8))[0] if which == "workers" else None
                eng.event(st, "vec", which, "add", eng.split(e)[1], x)
                setm(eng, st, p, o + 8, eng.padd(e, esz if which == "allocs" else 16))
            return m_skip(eng, st, f, args, info)

        def ctor(eng, st, f, args, info):
            eng.event(st, "worker", args[0], args[1], eng.conc(st, args[4]))
            return m_skip(eng, st, f, args, info)
        eng = c.engine(models=hwloc_model(pus) + [(lambda f: f.ctx == "std::vector" and f.base in ("reserve", "resize", "emplace_back", "push_back"), vm),
                                                  (lambda f: f.qual == WTHREAD + "::WorkerThread", ctor)])
        st0 = State()
        p = argp(eng, st0, "pool", POOL)
        st0.mem[A] = {}
        B = ("o", ("al", 0, "wvec", 0), 0)
        st0.mem[B] = {}
        for o, x in ((oa, A), (ow, B)):
            for k in (0, 8, 16):
                setm(eng, st0, p, o + k, x)
        outs = normal(eng.run(f, [p, n], st0))
        c.absorb(eng)
        cell = "emplace_workers(%d) with %d PUs" % (n, pus)
        c.instance(cell)
        c.need(len(outs) > 0, cell + ": does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
            wk = evs(st, "worker")
            need([e[3] for i, e in wk] == list(range(n)), "workers %s are created" % [eng.show(e[3]) for i, e in wk])
            ad = [(i, e) for i, e in evs(st, "vec") if e[2] == "add"]
            al = [i for i, e in ad if e[1] == "allocs"]
            wl = [(i, e) for i, e in ad if e[1] == "workers"]
            rs = [(i, e[3]) for i, e in evs(st, "vec") if e[2] == "reserve" and e[1] == "allocs"]
            need(len(al) == n, "%d arenas are created" % len(al))
            need(len(wl) == n and [e[4] for i, e in wl] == [eng.split(e[1])[0] for i, e in wk], "the created workers are not kept")
            if wk:
                need(rs and rs[0][0] < wk[0][0] and rs[0][1] == n or (al and max(al) < wk[0][0]),
                     "arenas may be moved while workers refer to them")
            for i, e in wk:
                b, off = eng.split(e[2])
                have = len([k for k in al if k < i])
                need(b == A and isint(off) and off % esz == 0 and off // esz < have, "worker gets an arena that does not exist")


@rule("pool.ctor", "C09 C26", minimum=1,
      text="the thread that creates the pool is waiter number 0; the pool has a state for every worker")
def r_poolctor(c):
    f = c.fn(POOL + "::WorkerPool")
    w = where(c, f)
    eng = c.engine(models=[(lambda f: f.qual == "redGrapes::AtomicBitfield::AtomicBitfield", cut_model(("bits", ["v", "v"])))])
    st0 = State()
    p = argp(eng, st0, "pool", POOL)
    h = argp(eng, st0, "hwloc")
    n = argi(eng, st0, "n", 64, 1, 4096)
    g = eng.gbase("_ZN9redGrapes7Context16current_waker_idE")
    eng.cfg.pin_bases.add(g)
    outs = normal(eng.run(f, [p, h, n], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "WorkerPool() does not return", w)
    for o in outs:
        c.need(eng.conc(o.st, eng.load(o.st, g, 2)) == 0, "waker id of the creating thread is not 0", w, eng, o.st)
        b = calls(o.st, "bits")
        c.need(len(b) == 1 and b[0][1][3] == n, "no state for every worker", w, eng, o.st)
