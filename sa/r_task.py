"""Execution of tasks: bodies, stack switching, results."""
from lib import *

TB = "redGrapes::TaskBase"
OEV = ("event", "_M_payload", "_M_engaged")


def opt_cont(c, name):
    """offsets of value and flag of an optional continuation"""
    return c.off(TASK, name), c.off(TASK, name, "_M_payload", "_M_engaged")


def set_event(c, eng, st, T, name):
    """TaskBase::event = EventPtr{POST, name}"""
    o = c.off(TASK, "event")
    if name is None:
        setm(eng, st, T, c.off(TASK, *OEV), 0, 1)
        return
    setm(eng, st, T, c.off(TASK, *OEV), 1, 1)
    setm(eng, st, T, o + c.off(EVP, "tag"), 2, 4)
    setm(eng, st, T, o + c.off(EVP, "task"), sym(("arg", name)))
    setm(eng, st, T, o + c.off(EVP, "external_event", "_M_ptr"), 0)
    setm(eng, st, T, o + c.off(EVP, "external_event", "_M_ptr") + 8, 0)


def opt_event(c, eng, st, p):
    """(engaged, task) of an optional EventPtr"""
    d = c.off(TASK, *OEV) - c.off(TASK, "event")
    return eng.conc(st, eng.load(st, eng.padd(p, d), 1)), eng.load(st, eng.padd(p, c.off(EVP, "task")), 8)


def bodies():
    """functions of the driver which stand for user code"""
    def h(eng, st, f, args, info):
        saved = st.ren
        v = eng.result(st, info) if info.i.get("t") else None
        new = st.ren - saved
        if new:
            args = [subst(x, dict(new), {}) for x in args]
        eng.event(st, "user", f.base, tuple(args), *(() if v is None else (v,)))
        return [Outcome("ret", st, v)]
    return [(lambda f: f.ctx == "drv" and f.blocks is None, h)]


@rule("task.run", "C05 C25 C07", minimum=4,
      text="a task runs its body directly if stack switching is off; otherwise the first hand-out starts the body once on a stack of its own and "
           "every later one resumes it where it left; the result is the event it paused on, or none if the body returned")
def r_run(c):
    f = c.fn(TB + "::operator()", lambda f: "lambda" not in f.d)
    w = where(c, f)
    yv, yf = opt_cont(c, "yield_cont")
    rv, rf = opt_cont(c, "resume_cont")
    for case in ("plain", "first", "first-pauses", "resumed", "resumed-pauses"):
        pauses = case.endswith("pauses")

        def after(eng, st, what):
            set_event(c, eng, st, T, "awaited" if pauses else None)
            setm(eng, st, T, yf, 1 if pauses else 0, 1)
            setm(eng, st, T, yv, sym(("arg", "yield2")) if pauses else 0)
        eng = c.engine(models=cont_model(after, inline=case == "first"))

        def on_event(eng, st, ev):
            # while the body runs it may have paused and been resumed from elsewhere
            if ev[0] == "vcall" and ev[1].endswith("::run"):
                if case != "plain":
                    set_event(c, eng, st, T, "stale")
                    setm(eng, st, T, yf, 1, 1)
                    setm(eng, st, T, yv, sym(("arg", "caller2")))
        eng.cfg.on_event = on_event
        st0 = State()
        for n in ("yield2", "caller2", "stale", "awaited"):
            argp(eng, st0, n)
        T = mk_task(c, eng, st0, "task")
        setm(eng, st0, T, c.off(TASK, "enable_stack_switching"), int(case != "plain"), 1)
        set_event(c, eng, st0, T, "stale" if case.startswith("resumed") else None)
        setm(eng, st0, T, rf, int(case.startswith("resumed")), 1)
        setm(eng, st0, T, rv, argp(eng, st0, "fiber") if case.startswith("resumed") else 0)
        setm(eng, st0, T, yf, 0, 1)
        rs = ("o", ("al", 0, "ret", 0), 0)
        st0.mem[rs] = {}
        outs = normal(eng.run(f, [rs, T], st0))
        c.absorb(eng)
        c.instance(case)
        c.need(len(outs) > 0, "hand-out of a task does not return (%s)" % case, w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "hand-out of a task (%s): %s" % (case, msg), w, eng, st)
            runs = [(i, e) for i, e in vcalls(st, "run")]
            cc, rs_, fr = evs(st, "callcc"), evs(st, "resume"), evs(st, "fiber.return")
            need(not held(st, len(st.trace)), "a lock is not released")
            if case in ("plain", "first"):
                need(len(runs) == 1 and runs[0][1][2][0] == T, "the body must run exactly once")
                if runs:
                    need(not held(st, runs[0][0]), "the body runs while a lock is held")
            else:
                need(not runs, "the body is started again or on the wrong stack")
            need(len(cc) == (1 if case.startswith("first") else 0), "a new stack is %s" % ("created twice or never" if case.startswith("first") else "created"))
            need(len(rs_) == (1 if case.startswith("resumed") else 0), "the task must be resumed exactly once" if case.startswith("resumed") else "something is resumed")
            if case.startswith("resumed") and rs_:
                need(rs_[0][1][1] == sym(("arg", "fiber")), "the wrong stack is resumed")
            if case == "first":
                need(len(fr) == 1 and fr[0][1][1] == sym(("arg", "caller2")), "the body does not return to whoever resumed it last")
                need(eng.conc(st, eng.load(st, eng.ptr(T, yf), 1)) == 0, "a consumed continuation is kept")
            if case.endswith("pauses"):
                sw = (cc or rs_)
                if sw:
                    need(eng.conc(st, eng.load(st, eng.ptr(T, rf), 1)) == 1 and eng.load(st, eng.ptr(T, rv), 8) == sw[0][1][2],
                         "the continuation of the paused task is not kept")
            eg, tk = opt_event(c, eng, st, rs)
            if pauses:
                need(eg == 1 and tk == sym(("arg", "awaited")), "does not return the event the task pauses on")
            else:
                need(eg == 0, "a task whose body returned is reported as paused")
    # the first activation stores where to return before the body runs
    eng = c.engine(models=cont_model(inline=True))
    seen = []

    def on_event(eng, st, ev):
        if ev[0] == "vcall" and ev[1].endswith("::run"):
            cc = evs(st, "callcc")
            v = eng.load(st, eng.ptr(T, yv), 8)
            c.need(len(cc) == 1 and eng.conc(st, eng.load(st, eng.ptr(T, yf), 1)) == 1 and v == cc[0][1][1],
                   "first activation: the continuation of the caller is not stored before the body runs", w, eng, st)
            seen.append(1)
    eng.cfg.on_event = on_event
    st0 = State()
    T = mk_task(c, eng, st0, "task")
    setm(eng, st0, T, c.off(TASK, "enable_stack_switching"), 1, 1)
    setm(eng, st0, T, rf, 0, 1)
    setm(eng, st0, T, yf, 0, 1)
    rs = ("o", ("al", 0, "ret", 0), 0)
    st0.mem[rs] = {}
    eng.run(f, [rs, T], st0)
    c.absorb(eng)
    c.instance("caller stored")
    c.need(bool(seen), "first activation: body is not reached", w)


@rule("task.yield", "C05 C25 C02", minimum=2,
      text="TaskBase::yield with stack switching announces the awaited event, then returns to the stack which resumed the task exactly once, and "
           "remembers the next one when it continues; without stack switching nothing is announced")
def r_yield(c):
    f = c.fn(TB + "::yield")
    w = where(c, f)
    yv, yf = opt_cont(c, "yield_cont")
    for sw, old in ((0, None), (1, None), (1, "stale")):
        atsw = []

        def after(eng, st, what):
            eg, tk = opt_event(c, eng, st, eng.ptr(T, c.off(TASK, "event")))
            c.need(eg == 1 and tk == sym(("arg", "awaited")), "yield: the awaited event is not announced before switching", w, eng, st)
            c.need(not held(st, len(st.trace)), "yield: the task pauses while it holds a lock", w, eng, st)
            c.need(eng.conc(st, eng.load(st, eng.ptr(T, yf), 1)) == 0 or True, "", w)
            atsw.append(1)
        eng = c.engine(models=cont_model(after))
        st0 = State()
        T = mk_task(c, eng, st0, "task")
        X = argp(eng, st0, "awaited")
        setm(eng, st0, T, c.off(TASK, "enable_stack_switching"), sw, 1)
        set_event(c, eng, st0, T, old)
        setm(eng, st0, T, yf, 1, 1)
        setm(eng, st0, T, yv, argp(eng, st0, "caller"))
        e = mk_evp(c, eng, st0, "event", 2, X)
        outs = normal(eng.run(f, [T, e], st0))
        c.absorb(eng)
        c.instance("stack switching %d%s" % (sw, ", paused before" if old else ""))
        c.need(len(outs) > 0, "yield does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "yield (stack switching %d): %s" % (sw, msg), w, eng, st)
            rs = evs(st, "resume")
            need(len(rs) == sw, "returns to the caller %d times" % len(rs))
            need(not held(st, len(st.trace)), "a lock is not released")
            if sw and rs:
                need(rs[0][1][1] == sym(("arg", "caller")), "switches to the wrong stack")
                need(eng.conc(st, eng.load(st, eng.ptr(T, yf), 1)) == 1 and eng.load(st, eng.ptr(T, yv), 8) == rs[0][1][2],
                     "the new caller is not remembered")
            if not sw:
                eg, tk = opt_event(c, eng, st, eng.ptr(T, c.off(TASK, "event")))
                need(eg == 0, "announces a pause that does not happen")


@rule("task.result", "C05 C07", minimum=3,
      text="the run function of a task invokes its callable exactly once, stores the result completely, and notifies the result-set event exactly "
           "once afterwards")
def r_result(c):
    tg = tags(c)
    for f in c.fns("redGrapes::ResultTask::run"):
        cls = f.cls
        R = tmplarg(cls)
        w = where(c, f)
        eng = c.engine(models=cuts("notify"))
        st0 = State()
        T = argp(eng, st0, "task", cls)
        outs = normal(eng.run(f, [T], st0))
        c.absorb(eng)
        c.instance(cls)
        c.need(len(outs) > 0, "run() of a task does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s::run: %s" % (cls, msg), w, eng, st)
            rr = [(i, e) for i, e in vcalls(st, "run_result")]
            nt = calls(st, "notify")
            need(len(rr) == 1, "the callable is invoked %d times" % len(rr))
            need(len(nt) == 1 and evpval(nt[0][1][2])[:2] == (tg["RES_SET"], T), "the result-set event must be notified exactly once")
            if not rr or not nt:
                continue
            need(rr[0][0] < nt[0][0], "the result is announced before the body ran")
            if R != "void":
                v = rr[0][1][3] if len(rr[0][1]) > 3 else None
                need(eng.load(st, eng.ptr(T, eng.P.offset(cls, "result_data")), c.P.size(R) or 4) == v, "the result is not stored")
    # order of store and notification
    for f in c.fns("redGrapes::ResultTask::run"):
        R = tmplarg(f.cls)
        if R == "void":
            continue
        cls = f.cls

        def on_event(eng, st, ev):
            if ev[0] == "call" and ev[1] == "notify":
                rr = vcalls(st, "run_result")
                if rr:
                    c.need(eng.load(st, eng.ptr(T, c.P.offset(cls, "result_data")), c.P.size(R) or 4) == rr[0][1][3],
                           "%s::run: the result is announced before it is stored" % cls, where(c, f), eng, st)
        eng = c.engine(models=cuts("notify"))
        eng.cfg.on_event = on_event
        st0 = State()
        T = argp(eng, st0, "task", cls)
        eng.run(f, [T], st0)
        c.absorb(eng)
    # result data
    for f in c.fns("redGrapes::ResultTask::get_result_data"):
        eng = c.engine()
        st0 = State()
        T = argp(eng, st0, "task", f.cls)
        outs = normal(eng.run(f, [T], st0))
        c.absorb(eng)
        c.instance("get_result_data of " + f.cls)
        want = eng.ptr(T, c.P.offset(f.cls, "result_data"))
        c.need(outs and all(o.val == want for o in outs), "get_result_data does not give the stored result", where(c, f))


@rule("task.callable", "C05", minimum=2,
      text="FunTask::run_result invokes the stored callable exactly once with the stored arguments and returns its result unchanged")
def r_callable(c):
    for f in c.fns("redGrapes::FunTask::run_result"):
        if "Body" not in f.cls:
            continue
        eng = c.engine(models=bodies() + cuts("alloc", "dealloc"))
        st0 = State()
        T = argp(eng, st0, "task", f.cls)
        if f.args and f.args[0].get("sret"):
            continue
        outs = normal(eng.run(f, [T], st0))
        c.absorb(eng)
        c.instance(f.cls)
        w = where(c, f)
        c.need(len(outs) > 0, "run_result does not return", w)
        for o in outs:
            us = evs(o.st, "user")
            us = [(i, e) for i, e in us if e[1].startswith("body_")]
            c.need(len(us) == 1, "run_result of %s: the callable is invoked %d times" % (f.cls[:60], len(us)), w, eng, o.st)
            if us and "void" not in us[0][1][1]:
                c.need(o.val == us[0][1][-1], "run_result: the result is changed", w, eng, o.st)
