"""The runtime context: current task, waiting, start-up and shutdown."""
from lib import *

GP = "redGrapes::GraphProperty"
OPT = "std::optional<redGrapes::scheduler::EventPtr>"
G_CUR = "_ZN9redGrapes7Context12current_taskE"
G_WID = "_ZN9redGrapes7Context16current_waker_idE"
POOL = "redGrapes::dispatch::thread::WorkerPool"


def cur_task(c, eng, st, val):
    """sets Context::current_task"""
    g = eng.gbase(G_CUR)
    eng.cfg.pin_bases.add(g)
    eng.store(st, g, val, 8)
    return g


def mk_ctx(c, eng, st):
    this = argp(eng, st, "ctx", CTXT)
    root = argp(eng, st, "root_space", TSPACE)
    setm(eng, st, this, c.off(CTXT, "root_space", "_M_ptr"), root)
    return this, root


def ret_slot(eng, st, n="ret"):
    b = ("o", ("al", 0, n, 0), 0)
    st.mem.setdefault(b, {})
    return b


@rule("context.current_space", "C24 C04", minimum=3,
      text="new tasks go to the top-level space when no task is current, otherwise to the child space of the current task, which is created once "
           "with that task as parent; scope_depth is the depth of that space")
def r_space(c):
    f = c.fn(CTXT + "::current_task_space")
    w = where(c, f)
    for case in ("none", "first", "later"):
        eng = c.engine()
        st0 = State()
        this, root = mk_ctx(c, eng, st0)
        co = c.off(TASK, "children", "_M_ptr")
        T, K = 0, 0
        if case != "none":
            T = mk_task(c, eng, st0, "task")
            if case == "later":
                K = argp(eng, st0, "children", TSPACE)
            setm(eng, st0, T, co, K)
        cur_task(c, eng, st0, T)
        ret = ret_slot(eng, st0)
        outs = normal(eng.run(f, [ret, this], st0))
        c.absorb(eng)
        c.instance("%s child space" % case)
        c.need(len(outs) > 0, "current_task_space does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "current_task_space (%s): %s" % (case, msg), w, eng, st)
            r = eng.load(st, ret, 8)
            if case == "none":
                need(r == root, "is not the top-level space")
                need(not evs(st, "new"), "creates a space")
            elif case == "later":
                need(r == K, "is not the child space of the task")
                need(eng.load(st, eng.ptr(T, co), 8) == K, "the child space of the task is replaced")
            else:
                b = eng.split(r)[0]
                need(b in {e[1] for i, e in evs(st, "new")}, "is not a new space")
                need(eng.load(st, eng.ptr(T, co), 8) == r, "the new space is not remembered by the task")
                need(eng.load(st, eng.padd(r, c.off(TSPACE, "parent")), 8) == T, "parent of the new space is not the current task")
            need(not held(st, len(st.trace)), "lock not released")
    f = c.fn(CTXT + "::scope_depth")
    for case in ("none", "later"):
        eng = c.engine()
        st0 = State()
        this, root = mk_ctx(c, eng, st0)
        T, sp = 0, root
        if case == "later":
            T = mk_task(c, eng, st0, "task")
            sp = argp(eng, st0, "children", TSPACE)
            setm(eng, st0, T, c.off(TASK, "children", "_M_ptr"), sp)
        cur_task(c, eng, st0, T)
        outs = normal(eng.run(f, [this], st0))
        c.absorb(eng)
        c.instance("scope_depth, %s" % case)
        d = eng.load(st0, eng.ptr(sp, c.off(TSPACE, "depth")), 4, w=32)
        c.need(len(outs) > 0, "scope_depth does not return", where(c, f))
        for o in outs:
            c.need(eng.cmp(o.st, "eq", 32, o.val, d) == 1, "scope_depth is not the depth of the current space", where(c, f), eng, o.st)


@rule("context.create_event", "C22 C24", minimum=2,
      text="create_event makes an event of the current task and returns none outside of tasks")
def r_create(c):
    f = c.fn(CTXT + "::create_event")
    w = where(c, f)
    tg = tags(c)
    for inside in (0, 1):
        eng = c.engine(models=cuts("add_follower"))
        st0 = State()
        this, root = mk_ctx(c, eng, st0)
        T = mk_task(c, eng, st0, "task") if inside else 0
        cur_task(c, eng, st0, T)
        ret = ret_slot(eng, st0)
        outs = normal(eng.run(f, [ret, this], st0))
        c.absorb(eng)
        c.instance("inside of a task" if inside else "outside of tasks")
        c.need(len(outs) > 0, "create_event does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "create_event: " + msg, w, eng, st)
            eg = eng.conc(st, eng.load(st, eng.ptr(ret, c.off(OPT, "_M_payload", "_M_engaged")), 1))
            need(eg == inside, "returns %s event" % ("no" if inside else "an"))
            af = calls(st, "add_follower")
            if inside:
                v = evpval(snapshot(eng, st, ret, EVP))
                need(v[0] == tg["EXT"], "returns no external event")
                need(len(af) == 1 and af[0][1][2] == v[2] and evpval(af[0][1][3])[:2] == (tg["POST"], T),
                     "the event does not hold back the completion of the current task")
            else:
                need(not af, "an edge is added")


@rule("context.backtrace", "C24", minimum=1,
      text="backtrace lists the current task followed by the parent of each listed task until there is none")
def r_backtrace(c):
    f = c.fn(CTXT + "::backtrace")
    w = where(c, f)
    for inside in (0, 1):
        eng = c.engine()
        st0 = State()
        this, root = mk_ctx(c, eng, st0)
        T = mk_task(c, eng, st0, "task") if inside else 0
        cur_task(c, eng, st0, T)
        so, po = c.off(TASK, "space", "_M_ptr"), c.off(TSPACE, "parent")

        def parents(st, X):
            """values read as parent of X"""
            a = eng.ptr(eng.load(st, eng.ptr(X, so), 8), po)
            return [e[3] for i, e in evs(st, "load") if e[2] == a]

        def on_event(eng_, st, ev):
            if ev[0] != "vec.push":
                return
            pu = [e for i, e in evs(st, "vec.push")]
            if not pu:
                c.need(ev[2] == T, "backtrace: does not start with the current task", w, eng, st)
            else:
                c.need(ev[2] in parents(st, pu[-1][2]), "backtrace: lists something else than the parent of the task listed before", w, eng, st)
        eng.cfg.on_event = on_event
        eng.cfg.volatile = {"TaskSpace.parent"}
        ret = ret_slot(eng, st0)
        outs = normal(eng.run(f, [ret, this], st0))
        c.absorb(eng)
        c.instance("inside of a task" if inside else "outside of tasks")
        c.need(len(outs) > 0, "backtrace does not return", w)
        for o in outs:
            st = o.st
            pu = [e for i, e in evs(st, "vec.push")]
            if not inside:
                c.need(not pu, "backtrace: lists a task outside of tasks", w, eng, st)
            elif c.need(len(pu) > 0, "backtrace: does not list the current task", w, eng, st):
                c.need(any(same(eng, st, x, 0) for x in parents(st, pu[-1][2])), "backtrace: ends before the top level", w, eng, st)


def call_task(c, paused):
    """model of TaskBase::operator(): the body runs and returns an event iff it paused"""
    oe = c.off(OPT, "_M_payload", "_M_engaged")

    def h(eng, st, f, args, info):
        ret_, this = args[0], args[1]
        eng.event(st, "run", this, eng.load(st, eng.gbase(G_CUR), 8))
        st.mem[eng.split(ret_)[0]] = {k: v for k, v in (st.mem.get(eng.split(ret_)[0]) or {}).items()} if eng.split(ret_)[1] else {}
        if paused:
            eng.store(st, ret_, TAGV[0], 4)
            eng.store(st, eng.padd(ret_, c.off(EVP, "task")), sym(("arg", "awaited")), 8)
            eng.store(st, eng.padd(ret_, c.off(EVP, "external_event", "_M_ptr")), 0, 8)
            eng.store(st, eng.padd(ret_, c.off(EVP, "external_event", "_M_ptr") + 8), 0, 8)
        eng.store(st, eng.padd(ret_, oe), paused, 1)
        return [Outcome("ret", st, None)]
    return [(lambda f: f.qual == "redGrapes::TaskBase::operator()", h)]


TAGV = [2]


@rule("context.execute_task", "C01 C02 C04 C05 C06 C09 C24 C25", minimum=2,
      text="execute_task first notifies the pre-event, then runs the body once with the task as current task; if the body returned it notifies the "
           "post-event once, if it paused it registers the pause and releases its own hold on the pre-event once, and leaves a thread registered as waiter of the awaited event alone; the task is not used "
           "afterwards and no task is current at the end")
def r_execute(c):
    f = c.fn(CTXT + "::execute_task")
    w = where(c, f)
    tg = tags(c)
    TAGV[0] = tg["POST"]
    for paused in (0, 1):
        eng = c.engine(models=call_task(c, paused) + cuts("notify", "sg_pause"))
        st0 = State()
        this, root = mk_ctx(c, eng, st0)
        T = mk_task(c, eng, st0, "task")
        X = mk_task(c, eng, st0, "awaited")
        g = cur_task(c, eng, st0, 0)
        cell = "execute_task of a task that %s" % ("pauses" if paused else "returns")

        def on_event(eng_, st, ev):
            if ev[0] == "call" and ev[1] == "notify" and st.aux.get("ran") and evpval(ev[2])[1] == T:
                st.aux["over"] = 1
            if ev[0] == "run":
                st.aux["ran"] = 1
            if ev[0] in ("astore", "rmw", "cas") and ev[2] == eng.padd(evaddr(c, eng, X, "POST"), c.off(EVENT, "waker_id")):
                c.need(False, cell + ": replaces the thread which is registered as waiter of the awaited event", w, eng, st)

        def on_access(eng_, st, b, o, sz, wr):
            if b == T and st.aux.get("over"):
                c.need(False, cell + ": the task is used after it may have been continued or destroyed elsewhere", w, eng, st)
        eng.cfg.on_event, eng.cfg.on_access = on_event, on_access
        outs = normal(eng.run(f, [this, T], st0))
        c.absorb(eng)
        c.instance(cell)
        c.need(len(outs) > 0, cell + ": does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
            run = [(i, e) for i, e in enumerate(st.trace) if e[0] == "run"]
            nt = calls(st, "notify")
            need(len(run) == 1 and eng.split(run[0][1][1])[0] == T, "the body is run %d times" % len(run))
            if not run:
                continue
            k = run[0][0]
            need(run[0][1][2] == T, "the task is not the current task while its body runs")
            pre = [e for i, e in nt if i < k]
            post = [(i, e) for i, e in nt if i > k]
            need(len(pre) == 1 and evpval(pre[0][2])[:2] == (tg["PRE"], T), "the pre-event is not notified exactly once before the body runs")
            need(all(e[3] == 0 for i, e in nt), "notification claims a task")
            need(len(post) == 1, "%d notifications after the body" % len(post))
            sp = calls(st, "sg_pause")
            if post:
                want = tg["PRE"] if paused else tg["POST"]
                need(evpval(post[0][1][2])[:2] == (want, T), "the wrong event is notified after the body")
            if paused:
                need(len(sp) == 1 and sp[0][1][2] == graph_of(c, eng, T) and evpval(sp[0][1][3])[:2] == (tg["POST"], X) and sp[0][0] > k,
                     "the pause is not registered for the awaited event")
                if sp and post:
                    need(sp[0][0] < post[0][0], "the hold on the pre-event is released before the pause is registered")
            else:
                need(not sp, "a pause is registered although the body returned")
            need(eng.conc(st, eng.load(st, g, 8)) == 0, "a task stays current after its execution")


def reached_at_end(c, eng, st, ev):
    """the last look at the state of the event saw it reached"""
    sa = eng.padd(ev, c.off(EVENT, "state"))
    ld = [e for i, e in evs(st, "aload") if e[2] == sa]
    return bool(ld) and any(eng.rng(st, e[3], 32)[:2] == (0, 0) for e in ld[-2:])


@rule("context.yield", "C25 C07 C09", minimum=2,
      text="yield returns only after it saw the event reached; inside a task it pauses that task for the event, outside it registers the "
           "thread as waiter before it checks the event and idles in between")
def r_yield(c):
    f = c.fn(CTXT + "::yield")
    w = where(c, f)
    tg = tags(c)
    for inside in (0, 1):
        eng = c.engine(models=[(lambda f: f.qual == "redGrapes::TaskBase::yield", cut_model(("pause", ["v", EVP])))])
        st0 = State()
        this, root = mk_ctx(c, eng, st0)
        T = mk_task(c, eng, st0, "task") if inside else 0
        X = mk_task(c, eng, st0, "awaited")
        e_ = mk_evp(c, eng, st0, "event", tg["POST"], X, 0)
        cur_task(c, eng, st0, T)
        gw = eng.gbase(G_WID)
        wid = argi(eng, st0, "waker", 16, 0, 0x7FFF)
        eng.cfg.pin_bases.add(gw)
        eng.store(st0, gw, wid, 2)
        ev = evaddr(c, eng, X, "POST")
        wa = eng.padd(ev, c.off(EVENT, "waker_id"))
        sa = eng.padd(ev, c.off(EVENT, "state"))
        cell = "yield %s" % ("inside of a task" if inside else "outside of tasks")

        def on_event(eng_, st, e):
            if e[0] == "astore" and e[2] == wa:
                st.aux["reg"] = 1
                c.need(not inside, cell + ": replaces the thread which is registered as waiter", w, eng, st)
                c.need(eng.conc(st, e[3]) == wid, cell + ": registers another thread", w, eng, st)
            if e[0] == "aload" and e[2] == sa:
                c.need(inside or st.aux.get("reg"), cell + ": the thread checks the event before it registered as waiter", w, eng, st)
            if e[0] == "call" and e[1] == "pause":
                c.need(inside and eng.split(e[2])[0] == T and evpval(e[3])[:2] == (tg["POST"], X), cell + ": pauses wrongly", w, eng, st)
            if e[0] == "fcall":
                c.need(not inside, cell + ": a task blocks its thread", w, eng, st)
                c.need(st.aux.get("reg"), cell + ": idles before the thread is registered as waiter", w, eng, st)
        eng.cfg.on_event = on_event
        outs = normal(eng.run(f, [this, e_], st0))
        c.absorb(eng)
        c.instance(cell)
        c.need(len(outs) > 0, cell + ": does not return", w)
        waited = False
        for o in outs:
            st = o.st
            c.need(reached_at_end(c, eng, st, ev), cell + ": returns although the event was not seen reached", w, eng, st)
            waited = waited or bool(calls(st, "pause") if inside else evs(st, "fcall"))
        c.need(waited, cell + ": never waits", w)


@rule("context.barrier", "C08", minimum=1,
      text="barrier returns only after it saw the top-level space empty and idles in between")
def r_barrier(c):
    f = c.fn(CTXT + "::barrier")
    w = where(c, f)
    for tsk in (0, 1):
        eng = c.engine()
        st0 = State()
        this, root = mk_ctx(c, eng, st0)
        T = mk_task(c, eng, st0, "task") if tsk else 0
        cur_task(c, eng, st0, T)
        cnt = eng.ptr(root, c.off(TSPACE, "task_count"))
        outs = normal(eng.run(f, [this], st0))
        c.absorb(eng)
        c.instance("barrier %s" % ("inside of a task" if tsk else "outside of tasks"))
        c.need(len(outs) > 0, "barrier does not return", w)
        for o in outs:
            ld = [e for i, e in evs(o.st, "aload") if e[2] == cnt]
            c.need(ld and any(eng.cmp(o.st, "eq", 32, eng.cast(o.st, "trunc", e[3], 64, 32), 0) == 1 or eng.cmp(o.st, "eq", 64, e[3], 0) == 1 for e in ld[-2:]),
                   "barrier returns although the space was not seen empty", w, eng, o.st)
        c.need(any(evs(o.st, "fcall") for o in outs), "barrier never waits", w)


def ctxstores(c, eng, st, member):
    return [(i, e) for i, e in evs(st, "store") if e[1] == "Context." + member]


@rule("context.finalize", "C08 C26", minimum=1,
      text="finalize waits until the top-level space is empty, then stops the workers, and only then releases scheduler and space")
def r_finalize(c):
    f = c.fn(CTXT + "::finalize")
    w = where(c, f)
    eng = c.engine(models=cuts("wp_stop"), fields={"Context.scheduler", "Context.root_space", "Context.worker_pool"})
    st0 = State()
    this, root = mk_ctx(c, eng, st0)
    wp = argp(eng, st0, "pool", POOL)
    sc = argp(eng, st0, "scheduler", ISCHED)
    cur_task(c, eng, st0, 0)
    setm(eng, st0, this, c.off(CTXT, "worker_pool", "_M_ptr"), wp)
    setm(eng, st0, this, c.off(CTXT, "scheduler", "_M_ptr"), sc)
    cnt = eng.ptr(root, c.off(TSPACE, "task_count"))
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "finalize does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "finalize: " + msg, w, eng, st)
        sp = calls(st, "wp_stop")
        need(len(sp) == 1 and sp[0][1][2] == wp, "workers are not stopped exactly once")
        ld = [(i, e) for i, e in evs(st, "aload") if e[2] == cnt]
        ok = ld and any(eng.cmp(st, "eq", 32, eng.cast(st, "trunc", e[3], 64, 32), 0) == 1 or eng.cmp(st, "eq", 64, e[3], 0) == 1 for i, e in ld[-2:])
        need(ok, "does not wait for all tasks")
        if sp:
            need(not ld or ld[0][0] < sp[0][0], "workers are stopped before all tasks are gone")
            for m, n in (("scheduler", "scheduler"), ("root_space", "top-level space")):
                s = ctxstores(c, eng, st, m)
                need(s and s[-1][1][3] == 0 or eng.conc(st, eng.load(st, eng.ptr(this, c.off(CTXT, m, "_M_ptr")), 8)) == 0, n + " is not released")
                need(all(i > sp[0][0] for i, e in s), n + " is released while workers are running")


@rule("context.init", "C26", minimum=2,
      text="init creates pool, arenas, workers, top-level space and scheduler before the worker threads are started; the number of workers is "
           "set before workers are created")
def r_init(c):
    for f in c.fns(CTXT + "::init"):
        w = where(c, f)
        eng = c.engine(models=cuts("wp_ctor", "wp_emplace", "wp_start"),
                       fields={"Context.scheduler", "Context.root_space", "Context.worker_pool", "Context.n_workers"})
        st0 = State()
        this = argp(eng, st0, "ctx", CTXT)
        n = argi(eng, st0, "n", 64, 1, 4096)
        a = [this, n]
        sc = None
        if len(f.types) == 4:
            s = argp(eng, st0, "sched_arg")
            sc = argp(eng, st0, "scheduler", ISCHED)
            setm(eng, st0, s, 0, sc)
            setm(eng, st0, s, 8, sym(("arg", "sched_rc")))
            a.append(s)
        outs = normal(eng.run(f, a, st0))
        c.absorb(eng)
        c.instance(f.d)
        c.need(len(outs) > 0, "init does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "init: " + msg, w, eng, st)
            stt = calls(st, "wp_start")
            em = calls(st, "wp_emplace")
            ct = calls(st, "wp_ctor")
            need(len(stt) == 1, "workers are started %d times" % len(stt))
            need(len(em) == 1 and eng.conc(st, em[0][1][3]) == n, "the requested number of workers is not created")
            need(len(ct) == 1, "no worker pool is created")
            if not (stt and em and ct):
                continue
            need(ct[0][0] < em[0][0] < stt[0][0], "workers are started before they are created")
            need(ct[0][1][2] == em[0][1][2] == stt[0][1][2], "different worker pools")
            for m in ("scheduler", "root_space", "worker_pool"):
                s = ctxstores(c, eng, st, m)
                need(s and all(i < stt[0][0] for i, e in s), "workers are started before %s is set" % m)
                need(eng.conc(st, eng.load(st, eng.ptr(this, c.off(CTXT, m, "_M_ptr")), 8)) != 0, "%s is not set" % m)
            if sc is not None:
                need(eng.load(st, eng.ptr(this, c.off(CTXT, "scheduler", "_M_ptr")), 8) == sc, "the given scheduler is not used")
            need(eng.load(st, eng.ptr(this, c.off(CTXT, "worker_pool", "_M_ptr")), 8) == ct[0][1][2], "the new pool is not used")
            s = ctxstores(c, eng, st, "n_workers")
            need(s and all(i < em[0][0] for i, e in s), "the number of workers is not known when workers are created")
            nv = eng.load(st, eng.ptr(this, c.off(CTXT, "n_workers")), 4, w=32)
            need(eng.cmp(st, "eq", 32, nv, eng.cast(st, "trunc", n, 64, 32)) == 1, "wrong number of workers")


@rule("context.update_properties", "C13 C14", minimum=2,
      text="update_properties throws when no task is running; otherwise it applies the patch to the current task and then releases dependants")
def r_update(c):
    f = c.fn(CTXT + "::update_properties")
    w = where(c, f)

    def ap(eng, st, f, args, info):
        s2 = st.copy()
        eng.event(st, "call", "apply_patch", args[0], args[1])
        eng.event(s2, "call", "apply_patch", args[0], args[1])
        return [Outcome("ret", st, None), Outcome("throw", s2, ("k", "patch"))]
    for inside in (0, 1):
        eng = c.engine(models=[(lambda f: f.qual == "redGrapes::ResourceProperty::apply_patch", ap)] + cuts("update_graph"))
        st0 = State()
        this, root = mk_ctx(c, eng, st0)
        T = mk_task(c, eng, st0, "task") if inside else 0
        cur_task(c, eng, st0, T)
        patch = argp(eng, st0, "patch")
        outs = eng.run(f, [this, patch], st0)
        c.absorb(eng)
        c.instance("inside of a task" if inside else "outside of tasks")
        if not inside:
            c.need(outs and all(o.kind == "throw" for o in outs), "update_properties does not throw outside of tasks", w)
            continue
        c.need(len(normal(outs)) > 0, "update_properties does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "update_properties: " + msg, w, eng, st)
            a, u = calls(st, "apply_patch"), calls(st, "update_graph")
            need(len(a) == 1 and a[0][1][2] == ruser_of(c, eng, T), "the patch is not applied exactly once to the current task")
            if o.kind == "ret":
                need(len(u) == 1 and u[0][1][2] == graph_of(c, eng, T) and (not a or u[0][0] > a[0][0]), "dependants are not released after the change")
            else:
                need(not u, "dependants are released although the change was rejected")
