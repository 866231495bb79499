"""Task spaces: submission, removal, nesting."""
from lib import *
import models as M
from r_graph import VD

RB = "redGrapes::ResourceBase"
RUE = "redGrapes::ResourceUsageEntry"


@rule("space.submit", "C01 C03 C04 C06 C08 C10 C24 C05", minimum=2,
      text="TaskSpace::submit sets space and self pointer of the task, counts it, makes the post-event of the parent a follower of the child "
           "while the parent is running, registers the task once in the user list of each of its resources and only then, as last action, "
           "hands it to the scheduler exactly once")
def r_submit(c):
    f = c.fn(TSPACE + "::submit")
    w = where(c, f)
    tg = tags(c)
    for nested in (0, 1):
        eng = c.engine(models=cuts("add_follower", "ru_is_superset", "ru_superset_of", "ru_is_serial"), vdispatch=VD, initial=lambda *a: None)
        st0 = State()
        this = argp(eng, st0, "this", TSPACE)
        T = argp(eng, st0, "task", TASK)
        P = mk_task(c, eng, st0, "parent") if nested else 0
        setm(eng, st0, this, c.off(TSPACE, "parent"), P)
        wk = c.off(TSPACE, "_M_weak_this", "_M_ptr")
        setm(eng, st0, this, wk, this)
        ur = eng.ptr(T, c.off(TASK, "unique_resources"))
        cnt = eng.ptr(this, c.off(TSPACE, "task_count"))
        oe, orr, ou = c.off(RUE, "task_entry"), c.off(RUE, "resource", "_M_ptr"), c.off(RB, "users")
        cell = "submit to a %s space" % ("child" if nested else "top-level")

        def done(st, p):
            need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
            evl = since(st, p)
            R = eng.load(st, eng.ptr(elem(p), orr), 8)
            pu = [e for e in evl if e[0] == "push"]
            need(len(pu) == 1 and pu[0][1] == eng.ptr(R, ou) and pu[0][2] == T, "the task is not added exactly once to the users of a resource")
            if pu:
                need(itpos(eng, st, eng.ptr(elem(p), oe)) == pu[0][3], "the position in the user list is not remembered")
            need(not [e for e in evl if e[0] == "vcall" and e[1].endswith("emplace_task")], "the task is handed out before it is registered")

        def on_next(eng_, st, pos):
            if pos in chain(st, ur):
                done(st, pos)
                forget(st, pos)

        def on_access(eng_, st, b, o, sz, wr):
            if b == T and st.aux.get("handed"):
                c.need(False, cell + ": the task is used after it was handed to the scheduler", w, eng, st)

        def on_event(eng_, st, ev):
            if ev[0] == "vcall" and ev[1].endswith("::emplace_task"):
                st.aux["handed"] = 1

        eng.cfg.on_next, eng.cfg.on_access, eng.cfg.on_event = on_next, on_access, on_event
        outs = normal(eng.run(f, [this, T], st0))
        c.absorb(eng)
        c.instance(cell)
        c.need(len(outs) > 0, cell + ": does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
            em = vcalls(st, "emplace_task")
            need(len(em) == 1 and em[0][1][2][1] == T, "the task is handed to the scheduler %d times" % len(em))
            hand = em[0][0] if em else len(st.trace)
            rm = [(i, e) for i, e in evs(st, "rmw", "astore", "cas") if e[2] == cnt]
            need(len(rm) == 1 and rm[0][1][0] == "rmw" and rmw_add(rm[0][1], 64) == 1, "the task is not counted exactly once")
            need(all(i < hand for i, e in rm), "the task is counted after it was handed to the scheduler")
            loops_complete(c, eng, st, ur, cell, w)
            need(all(i < hand for i, e in evs(st, "it.begin")), "user lists are filled after the task was handed out")
            need(eng.load(st, eng.ptr(T, c.off(TASK, "task")), 8) == T, "self pointer of the task is not set")
            need(eng.load(st, eng.ptr(T, c.off(TASK, "space", "_M_ptr")), 8) == this, "space of the task is not set")
            af = calls(st, "add_follower")
            if nested:
                need(len(af) == 1 and af[0][1][2] == evaddr(c, eng, T, "POST") and evpval(af[0][1][3])[:2] == (tg["POST"], P),
                     "the post-event of the parent is not made a follower of the child exactly once")
                need(all(i < hand for i, e in af), "the parent is not held before the child may run")
            else:
                need(not af, "an edge is added to a task without parent")


@rule("space.covered", "C30", minimum=2,
      text="a task which is submitted inside of another task is compared with it, parent as superset of the child, before another thread can see it; "
           "it is refused exactly if it is not covered")
def r_covered(c):
    f = c.fn(TSPACE + "::submit")
    w = where(c, f)
    for nested in (0, 1):
        cell = "submit to a %s space: " % ("child" if nested else "top-level")

        def judged(eng, st):
            """results of the comparisons of the parent with the child"""
            r = []
            for i, e in calls(st, "superset"):
                if e[2:4] == (ruser_of(c, eng, P), ruser_of(c, eng, T)):
                    r.append((i, known(eng, st, e[-1])))
                else:
                    c.need(False, cell + "the accesses of other tasks, or in the wrong direction, are compared", w, eng, st)
            return r

        def seen(st):
            return [i for i, e in enumerate(st.trace) if e[0] == "push" or e[0] == "vcall" and e[1].endswith("::emplace_task")]

        def refused(eng, st):
            c.need(nested and any(v == 0 for i, v in judged(eng, st)), cell + "a task is refused although the parent covers it", w, eng, st)
            c.need(not seen(st), cell + "a refused task is visible to others", w, eng, st)

        def af(eng, st, f, args, info):
            refused(eng, st)
            return []
        eng = c.engine(models=[(lambda f: f.name == "__assert_fail", af),
                               (lambda f: f.qual in ("redGrapes::ResourceUser::is_superset", "redGrapes::ResourceUser::is_superset_of"), cut_model(("superset", ["v", "v"])))]
                       + cuts("add_follower", "ru_is_serial"), vdispatch=VD, initial=lambda *a: None)
        st0 = State()
        this = argp(eng, st0, "this", TSPACE)
        T = argp(eng, st0, "task", TASK)
        P = mk_task(c, eng, st0, "parent") if nested else 0
        setm(eng, st0, this, c.off(TSPACE, "parent"), P)
        setm(eng, st0, this, c.off(TSPACE, "_M_weak_this", "_M_ptr"), this)
        outs = eng.run(f, [this, T], st0)
        c.absorb(eng)
        c.instance(cell)
        c.need(len(normal(outs)) > 0, cell + "does not return", w)
        for o in outs:
            if o.kind != "ret":
                refused(eng, o.st)
            elif nested:
                j = judged(eng, o.st)
                c.need(any(v == 1 for i, v in j) and not any(v == 0 for i, v in j), cell + "a task is accepted without its accesses being covered by its parent", w, eng, o.st)
                c.need(not j or not seen(o.st) or j[0][0] < min(seen(o.st)), cell + "the accesses are compared after the task became visible", w, eng, o.st)


def held_space(this, T, weak, mine):
    """references to the task space which are held by local variables; st.aux["hold"] is the set of their addresses"""
    def model(eng, st, f, args, info):
        b = f.base
        inT = lambda a: eng.split(a)[0] in (T, this)
        hold = set(st.aux.get("hold", ()))
        if b == "~__shared_count":
            st.aux["hold"] = tuple(sorted(hold - {args[0]}, key=repr))
        elif b in ("__shared_count", "operator=") and len(args) >= 2:
            v = eng.load(st, args[1], 8)
            if not inT(args[0]):
                st.aux["hold"] = tuple(sorted(hold | {args[0]} if v in (weak, mine) else hold - {args[0]}, key=repr))
        elif b == "_M_swap" and len(args) == 2:
            x, y = eng.load(st, args[0], 8), eng.load(st, args[1], 8)
            eng.store(st, args[0], y, 8)
            eng.store(st, args[1], x, 8)
            for a, v in ((args[0], y), (args[1], x)):
                hold.discard(a)
                if not inT(a) and v in (weak, mine):
                    hold.add(a)
            st.aux["hold"] = tuple(sorted(hold, key=repr))
            return [Outcome("ret", st, None)]
        return None
    return [(lambda f: f.ctx == "std::__shared_count", lambda *a: model(*a) or M.sp_count_model(*a))]


@rule("space.free_task", "C06 C08 C09 C16", minimum=1,
      text="TaskSpace::free_task destroys the task once, returns its storage to the arena it came from, then uncounts it once, and wakes all "
           "waiting threads if it was the last task; the space is kept alive by more than the task")
def r_free(c):
    f = c.fn(TSPACE + "::free_task")
    w = where(c, f)
    for last in (0, 1):
        eng = c.engine(models=cuts("dealloc"), fields={"Task.arena_id"})
        st0 = State()
        this = argp(eng, st0, "this", TSPACE)
        T = mk_task(c, eng, st0, "task", space=this)
        co = c.off(TSPACE, "task_count")
        cnt = eng.ptr(this, co)
        eng.cfg.pinned.add((this, co))
        setm(eng, st0, this, co, 1 if last else argi(eng, st0, "count", 64, 2, 0xFFFFFFFF), 8)
        ao = c.off(TASK, "arena_id")
        arena = eng.load(st0, eng.ptr(T, ao), 4, w=32)
        spo = c.off(TASK, "space", "_M_refcount", "_M_pi")
        weak = sym(("arg", "control"))
        setm(eng, st0, this, c.off(TSPACE, "_M_weak_this", "_M_refcount", "_M_pi"), weak)
        setm(eng, st0, this, c.off(TSPACE, "_M_weak_this", "_M_ptr"), this)
        setm(eng, st0, T, spo, weak)
        eng.cfg.models = held_space(this, T, weak, weak) + eng.cfg.models

        def on_access(eng_, st, b, o, sz, wr):
            if b == this and st.aux.get("dead"):
                c.need(bool(st.aux.get("hold")), "free_task: the space is used after the task is destroyed, which may have held the last reference to it", w, eng, st)
            if b == T and st.aux.get("dead"):
                c.need(False, "free_task: the task is used after its destruction", w, eng, st)

        def on_event(eng_, st, ev):
            if ev[0] == "vcall" and "~" in ev[1] and ev[2][0] == T:
                st.aux["dead"] = 1
            if ev[0] in ("rmw", "astore", "cas") and ev[2] == cnt and st.aux.get("dead"):
                c.need(bool(st.aux.get("hold")), "free_task: the space is used after the task is destroyed, which may have held the last reference to it", w, eng, st)

        eng.cfg.on_access, eng.cfg.on_event = on_access, on_event
        outs = normal(eng.run(f, [this, T], st0))
        c.absorb(eng)
        c.instance("last task" if last else "not the last task")
        c.need(len(outs) > 0, "free_task does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "free_task: " + msg, w, eng, st)
            rm = [(i, e) for i, e in evs(st, "rmw", "astore", "cas") if e[2] == cnt]
            need(len(rm) == 1 and rm[0][1][0] == "rmw" and rmw_add(rm[0][1], 64) == -1, "the task is not uncounted exactly once")
            d = [(i, e) for i, e in enumerate(st.trace) if e[0] == "vcall" and "~" in e[1] and e[2][0] == T]
            need(len(d) == 1 and not d[0][1][1].endswith("delete"), "the task is destroyed %d times" % len(d))
            fr = calls(st, "dealloc")
            need(len(fr) == 1, "the storage is released %d times" % len(fr))
            if fr:
                i, e = fr[0]
                need(e[3] == T, "something else than the task is released")
                wid = valfield(e[2], "worker_id")
                need(wid == arena or isinstance(wid, tuple) and wid[:4] == ("bin", "urem", 32, arena), "the storage is not returned to the arena of the task")
                need(not d or d[0][0] < i, "the storage is released before the task is destroyed")
                need(not rm or i < rm[0][0], "barrier() may return before the task is released: it is uncounted too early")
            wk = vcalls(st, "wake_all")
            if last:
                need(len(wk) >= 1, "waiting threads are not woken after the last task")
                if wk:
                    need(wk[-1][0] > rm[0][0] if rm else True, "waiting threads are woken before the task is uncounted")


@rule("space.nesting", "C24 C08 C11 C12 C30", minimum=4,
      text="a task space starts empty, a child space belongs to its parent one level deeper; empty() means no task is counted; is_serial and "
           "is_superset compare the accesses of exactly the two tasks")
def r_nesting(c):
    for f in c.fns(TSPACE + "::TaskSpace"):
        n = len(f.args)
        eng = c.engine()
        st = State()
        this = argp(eng, st, "this", TSPACE)
        a = [this]
        if n == 2:
            P = mk_task(c, eng, st, "parent")
            sp = sym(("arg", "parent.space"))
            st.facts[eng.load(st, eng.ptr(sp, c.off(TSPACE, "depth")), 4, w=32)] = (0, 255, NE)
            a.append(P)
        outs = normal(eng.run(f, a, st))
        c.absorb(eng)
        c.instance(f.d)
        w = where(c, f)
        c.need(len(outs) > 0, "constructor does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s: %s" % (f.d, msg), w, eng, st)
            ini = eng.conc(st, eng.load(st, eng.ptr(this, c.off(TSPACE, "task_count")), 8))
            need(ini == 0, "a new space is not empty")
            need(eng.load(st, eng.ptr(this, c.off(TSPACE, "parent")), 8) == (P if n == 2 else 0), "wrong parent")
            d = eng.load(st, eng.ptr(this, c.off(TSPACE, "depth")), 4, w=32)
            if n == 1:
                need(eng.conc(st, d) == 0, "depth of the top-level space is not 0")
            else:
                pd = eng.load(st, eng.ptr(sp, c.off(TSPACE, "depth")), 4, w=32)
                need(eng.cmp(st, "eq", 32, d, eng.binop(st, "add", 32, pd, 1)) == 1, "depth of a child space is not the depth of its parent plus one")
    f = c.fn(TSPACE + "::empty")
    for lo, hi in ((0, 0), (1, 0xFFFFFFFF)):
        eng = c.engine()
        st = State()
        this = argp(eng, st, "this", TSPACE)
        co = c.off(TSPACE, "task_count")
        eng.cfg.pinned.add((this, co))
        setm(eng, st, this, co, argi(eng, st, "count", 64, lo, hi), 8)
        outs = normal(eng.run(f, [this], st))
        c.absorb(eng)
        c.instance("empty() with count in [%d,%d]" % (lo, hi))
        c.need(len(outs) > 0, "empty() does not return", where(c, f))
        for o in outs:
            c.need(eng.conc(o.st, o.val) == int(hi == 0), "empty() gives %s with %s tasks" % (eng.show(o.val), lo), where(c, f), eng, o.st)
            c.need(all(e[4] in ACQ for i, e in evs(o.st, "aload")), "empty() does not read with acquire order", where(c, f), eng, o.st)
    for name, cut in (("is_serial", "ru_is_serial"), ("is_superset", "ru_is_superset")):
        f = c.fn(TSPACE + "::" + name)
        eng = c.engine(models=cuts(cut))
        st = State()
        this = argp(eng, st, "this", TSPACE)
        A, B = mk_task(c, eng, st, "a"), mk_task(c, eng, st, "b")
        outs = normal(eng.run(f, [this, A, B], st))
        c.absorb(eng)
        c.instance(name)
        c.need(len(outs) > 0, name + " does not return", where(c, f))
        for o in outs:
            cl = calls(o.st, name)
            ra, rb = ruser_of(c, eng, A), ruser_of(c, eng, B)
            ok = cl and (cl[-1][1][2:4] == (ra, rb) or (name == "is_serial" and cl[-1][1][2:4] == (rb, ra))) and \
                eng.cmp(o.st, "eq", 1, o.val, cl[-1][1][4]) == 1
            c.need(ok, "%s() does not compare the accesses of the two tasks" % name, where(c, f), eng, o.st)
