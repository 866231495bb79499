"""Events: notification, followers, counters."""
from lib import *


def run_notify(c, tag, old, claimed, waker, countdown):
    """abstract paths of EventPtr::notify for one partition of its inputs"""
    f = c.fn(EVP + "::notify")
    eng = c.engine(models=cuts("notify", "free_task", "alloc", "dealloc"))
    st = State()
    tg = tags(c)
    if tag == "EXT":
        T = 0
        ev = argp(eng, st, "ext", EVENT)
        this = mk_evp(c, eng, st, "this", tg[tag], 0, ev)
    else:
        T = mk_task(c, eng, st, "task")
        this = mk_evp(c, eng, st, "this", tg[tag], T, 0)
        ev = evaddr(c, eng, T, tag)
    sa = eng.padd(ev, c.off(EVENT, "state"))
    eng.cfg.pinned.add(eng.split(sa))
    setm(eng, st, *eng.split(sa), old(eng, st), 4)
    wa = eng.padd(ev, c.off(EVENT, "waker_id"))
    eng.cfg.pinned.add(eng.split(wa))
    setm(eng, st, *eng.split(wa), waker(eng, st), 2)
    if T != 0:
        ra = eng.ptr(T, c.off(TASK, "removal_countdown"))
        eng.cfg.pinned.add(eng.split(ra))
        setm(eng, st, *eng.split(ra), countdown, 4)

    def on_aload(eng_, st, ptr, i):
        """other edges may be removed or added between two accesses"""
        if eng.split(ptr) == eng.split(wa):
            eng.event(st, "aload", eng.field(*eng.split(wa)), wa, eng.load(st, wa, 2), i["ord"])
        if eng.split(ptr) != eng.split(sa):
            return None
        v = eng.conc(st, eng.load(st, sa, 4))
        if not any(e[2] == sa for _, e in evs(st, "rmw")):
            alt = [v + 1] if isint(v) else [1, 2]
        elif v == 0:
            alt = []
        else:
            alt = [0, 2] if v == 1 else [0, 1]
        eng.event(st, "aload", eng.field(*eng.split(sa)), sa, v, i["ord"])
        return [(st.copy(), x) for x in alt] + [(st, v)]

    eng.cfg.on_aload = on_aload
    outs = eng.run(f, [this, claimed], st)
    c.absorb(eng)
    return f, eng, outs, T, ev, sa, tg


def o_old1(eng, st):
    return 1


def o_old2(eng, st):
    return 2


def o_many(eng, st):
    return argi(eng, st, "old", 32, 3, 0x7FFFFFFF)


def w_none(eng, st):
    return 0xFFFF


def w_some(eng, st):
    return argi(eng, st, "waker", 16, 0, 0x7FFF)


@rule("event.notify", "C01 C02 C03 C04 C06 C08 C09 C14 C22 C25 C07", minimum=30,
      text="EventPtr::notify removes exactly one incoming edge; when the event becomes ready it hands out "
           "the task of a pre-event once (unless claimed) as its last action; when it becomes reached it first removes a completed task "
           "from the user lists, wakes the waker, notifies every follower once and destroys the task at the second of post/get-event; "
           "otherwise nothing happens, and the event, which another thread may have destroyed, is not used")
def r_notify(c):
    for tag in TAGS:
        for on, old in (("1", o_old1), ("2", o_old2), ("n", o_many)):
            for cl in ((0, 1) if tag == "PRE" and on == "2" else (0,)):
                for wn, wk in (("-", w_none), ("w", w_some)):
                    for cd in ((1, 2) if on == "1" and tag in ("POST", "RES_GET") else (2,)):
                        check_notify(c, tag, on, old, cl, wn, wk, cd)


def check_notify(c, tag, on, old, cl, wn, wk, cd):
    f, eng, outs, T, ev, sa, tg = run_notify(c, tag, old, cl, wk, cd)
    wa = eng.padd(ev, c.off(EVENT, "waker_id"))
    w = where(c, f)
    cell = "%s-event with %s pending edges%s%s" % (tag, on, ", claimed" if cl else "", ", waiting thread" if wn == "w" else "")
    c.instance(cell + (", countdown %d" % cd if on == "1" else ""))
    outs = normal(outs)
    c.need(len(outs) > 0, "notify of a %s does not return" % cell, w)
    for o in outs:
        st = o.st
        def need(cond, msg):
            return c.need(cond, "notify of a %s: %s" % (cell, msg), w, eng, st)
        rm = [(i, e) for i, e in evs(st, "rmw") if e[2] == sa]
        need(len(rm) == 1 and rmw_add(rm[0][1]) == -1, "the number of edges must be decremented atomically exactly once")
        need(not [1 for i, e in evs(st, "astore", "cas") if e[2] == sa], "the number of edges is overwritten")
        if not rm:
            continue
        need(rm[0][1][6] in STRONG, "decrement is not acquire-release")
        pos = rm[0][0]
        ret = eng.conc(st, o.val)
        need(ret == (1 if on == "2" else 0), "returns %s" % eng.show(ret))
        act = vcalls(st, "activate_task")
        wake = vcalls(st, "wake")
        wakeall = vcalls(st, "wake_all")
        fol = eng.padd(ev, c.off(EVENT, "followers"))
        nt = calls(st, "notify")
        fr = calls(st, "free_task")
        rc = [(i, e) for i, e in evs(st, "rmw") if T != 0 and e[2] == eng.ptr(T, c.off(TASK, "removal_countdown"))]
        ur = eng.ptr(T, c.off(TASK, "unique_resources")) if T != 0 else None
        rem = evs(st, "remove", "erase")
        # --- activation
        if tag == "PRE" and on == "2" and not cl:
            need(len(act) == 1 and eng.conc(st, act[0][1][2][1]) == T, "the task must be activated exactly once")
            if act:
                need(act[0][0] == len(st.trace) - 1, "the event is used after its task was activated")
        else:
            need(not act, "a task is activated")
        # --- wake up
        if T != 0 and tag != "PRE" and on != "1":
            # someone else may reach the event and destroy the task at once. (The last edge of a pre-event is removed by this thread
            # when it hands out the task, and an external event is kept alive by the pointer to it)
            need(not [1 for i, e in evs(st, "aload") if i > pos], "the event is used after another thread may have destroyed its task")
        if on == "1":
            # who registers before the decrement is seen after it; who registers later sees that the event is reached
            need([1 for i, e in evs(st, "aload") if i > pos and e[2] == wa], "whether a thread waits is not looked up after the event is reached: a wake-up may be lost")
        if on == "2" and wn == "w" and wake:
            # ready, not yet reached: not what a waiting thread waits for, but harmless
            need(len(wake) == 1 and eng.conc(st, wake[0][1][2][1]) == sym(("arg", "waker"), 16), "the wrong thread is woken")
            need(T == 0 or tag == "PRE", "the event is used after another thread may have destroyed its task")
        elif on == "1" and wn == "w":
            need(len(wake) == 1, "the waiting thread must be woken exactly once")
            if wake:
                need(eng.conc(st, wake[0][1][2][1]) == sym(("arg", "waker"), 16), "the wrong thread is woken")
                need(wake[0][0] > pos, "the waiting thread is woken before the change")
        else:
            need(not wake, "a thread is woken")
        # --- followers
        if on == "1":
            its = chain(st, fol)
            loops_complete(c, eng, st, fol, "notify of a %s" % cell, w)
            for i, e in nt:
                tk = evpval(e[2])
                need(any(mention(e[2], ("elem", p)) for p in its), "something else than a follower is notified")
                need(e[3] == 0, "followers are notified as claimed")
            # every position visited is notified once
            for p in its:
                if eng.cmp(st, "eq", 64, p, REND) == 1:
                    continue
                n = len([1 for i, e in nt if mention(e[2], ("elem", p))])
                need(n == 1 or (n >= 1 and summary(p)), "a follower is notified %d times" % n)
            fb = [i for i, e in evs(st, "it.begin") if e[1] == fol]
            lk = [i for i, e in evs(st, "lock") if e[1] == eng.padd(ev, c.off(EVENT, "followers_mutex")) and i > pos]
            ul = [i for i, e in evs(st, "unlock") if e[1] == eng.padd(ev, c.off(EVENT, "followers_mutex")) and i > pos]
            if fb:
                need(lk and lk[0] < fb[0], "followers that are being added concurrently are not awaited")
            if nt:
                need(not held(st, nt[0][0]), "followers are notified while a lock is held")
            if wake and nt:
                pass
        else:
            need(not nt, "followers are notified although the event is not reached")
        # --- user lists
        if on == "1" and tag == "POST":
            loops_complete(c, eng, st, ur, "removing a completed task from the user lists", w)
            fb = [i for i, e in evs(st, "it.begin") if e[1] == fol]
            for i, e in rem:
                need(not fb or i < fb[0], "the task is removed from a user list after its followers were notified")
                need(i > pos, "the task is removed from a user list before it is completed")
            lb = [i for i, e in evs(st, "it.begin") if e[1] == ur]
            need(len(lb) == 1 and (not fb or lb[0] < fb[0]), "user lists are not handled before the followers are notified")
        else:
            need(not rem, "something is removed from a list")
        # --- destruction
        if on == "1" and tag in ("POST", "RES_GET"):
            need(len(rc) == 1 and rmw_add(rc[0][1]) == -1, "the removal countdown must be decremented exactly once")
            if rc:
                need(rc[0][1][6] in STRONG, "removal countdown is not acquire-release")
                need(not nt or rc[0][0] > nt[-1][0], "the task may be destroyed before its followers are notified")
                # nothing of the task is touched after the countdown unless it is destroyed here
                if cd == 2:
                    need(rc[0][0] == len(st.trace) - 1, "the task is used after another thread may have destroyed it")
            if cd == 1:
                need(len(fr) == 1 and fr[0][1][3] == T and fr[0][1][2] == sym(("arg", "task.space")),
                     "the task must be destroyed exactly once by its space")
                if fr:
                    need(fr[0][0] == len(st.trace) - 1, "the task is used after its destruction")
            else:
                need(not fr, "the task is destroyed too early")
        else:
            need(not fr and not rc, "the task is destroyed or its removal counted")


@rule("event.counter", "C02 C03 C25 C01 C04 C06 C22", minimum=6,
      text="a new event has one pending edge, no waker and no followers; up/dn change the number of edges by one; reached means 0 and ready "
           "means 1 pending edges")
def r_counter(c):
    soff = c.off(EVENT, "state")
    # constructors
    for f in c.fns(EVENT + "::Event"):
        n = len(f.args)
        eng = c.engine(models=cuts("alloc", "dealloc"))
        st = State()
        this = argp(eng, st, "this", EVENT)
        if n == 1:
            outs = normal(eng.run(f, [this], st))
            c.absorb(eng)
            c.instance(f.d)
            for o in outs:
                c.need(eng.conc(o.st, eng.load(o.st, eng.ptr(this, soff), 4)) == 1, "a new event must have one pending edge", where(c, f), eng, o.st)
                c.need(eng.conc(o.st, eng.load(o.st, eng.ptr(this, c.off(EVENT, "waker_id")), 2)) == 0xFFFF,
                       "a new event must have no waker", where(c, f), eng, o.st)
    for name, delta in (("up", 1), ("dn", -1)):
        f = c.fn(EVENT + "::" + name)
        eng = c.engine()
        st = State()
        this = argp(eng, st, "this", EVENT)
        outs = normal(eng.run(f, [this], st))
        c.absorb(eng)
        c.instance(f.d)
        for o in outs:
            rm = [e for i, e in evs(o.st, "rmw", "astore", "cas") if e[2] == eng.ptr(this, soff)]
            c.need(len(rm) == 1 and rm[0][0] == "rmw" and rmw_add(rm[0]) == delta and rm[0][6] in STRONG,
                   "%s() must change the number of edges by %d atomically" % (name, delta), where(c, f), eng, o.st)
    for name, val in (("is_reached", 0), ("is_ready", 1)):
        f = c.fn(EVENT + "::" + name)
        for lo, hi in ((0, 0), (1, 1), (2, MASK[32])):
            eng = c.engine()
            st = State()
            this = argp(eng, st, "this", EVENT)
            s = argi(eng, st, "state", 32, lo, hi)
            eng.cfg.pinned.add((this, soff))
            setm(eng, st, this, soff, s, 4)
            outs = normal(eng.run(f, [this], st))
            c.absorb(eng)
            c.instance(f.d + " %d" % lo)
            for o in outs:
                want = 1 if lo == hi == val else 0
                c.need(eng.conc(o.st, o.val) == want, "%s() with state in [%d,%d] gives %s" % (name, lo, hi, eng.show(o.val)), where(c, f), eng, o.st)
                ld = [e for i, e in evs(o.st, "aload") if e[2] == eng.ptr(this, soff)]
                c.need(ld and all(e[4] in ACQ for e in ld), "%s() must read the state with acquire order" % name, where(c, f), eng, o.st)


@rule("event.get", "C02 C03 C04 C07 C22 C01 C25", minimum=6,
      text="EventPtr::get_event selects the pre-, post-, result-set-, result-get-event of its task or the external event by its tag")
def r_get_event(c):
    f = c.fn(EVP + "::get_event")
    tg = tags(c)
    for tag in TAGS:
        eng = c.engine()
        st = State()
        T = mk_task(c, eng, st, "task")
        X = argp(eng, st, "ext", EVENT)
        this = mk_evp(c, eng, st, "this", tg[tag], T, X)
        outs = normal(eng.run(f, [this], st))
        c.absorb(eng)
        c.instance(tag)
        want = X if tag == "EXT" else evaddr(c, eng, T, tag)
        c.need(len(outs) == 1 and outs[0].val == want, "get_event of a %s event gives %s" % (tag, [eng.show(o.val) for o in outs]), where(c, f))
    eng = c.engine()
    st = State()
    T = mk_task(c, eng, st, "task")
    X = argp(eng, st, "ext", EVENT)
    this = mk_evp(c, eng, st, "this", 0, T, X)
    outs = normal(eng.run(f, [this], st))
    c.absorb(eng)
    c.instance("uninitialised")
    c.need(not outs, "get_event of an uninitialised EventPtr must fail", where(c, f))
    # identity of the pointers
    f = c.fn(EVP + "::operator==")
    for tag in TAGS:
        for other in TAGS:
            for k, (t2, x2) in enumerate((("T", "X"), ("U", "X"), ("T", "Y"), ("U", "Y"))):
                eng = c.engine()
                st = State()
                o = {x: ("o", ("al", 0, x, 0), 0) for x in "TUXY"}
                if tag == "EXT":
                    a = mk_evp(c, eng, st, "this", tg[tag], 0, o["X"])
                else:
                    a = mk_evp(c, eng, st, "this", tg[tag], o["T"], 0)
                if other == "EXT":
                    b = mk_evp(c, eng, st, "other", tg[other], 0, o[x2])
                    same_ = tag == "EXT" and x2 == "X"
                else:
                    b = mk_evp(c, eng, st, "other", tg[other], o[t2], 0)
                    same_ = tag == other and t2 == "T"
                outs = normal(eng.run(f, [a, b], st))
                c.absorb(eng)
                c.need(len(outs) > 0 and all(eng.conc(q.st, q.val) == int(same_) for q in outs),
                       "comparing a %s event with %s %s event does not tell whether they are the same event" % (
                           tag, "the same" if same_ else "another", other), where(c, f))
        c.instance("identity " + tag)
    # construction of the pointers
    for nm, tag in (("get_pre_event", "PRE"), ("get_post_event", "POST"), ("get_result_set_event", "RES_SET"), ("get_result_get_event", "RES_GET")):
        f = c.fn("redGrapes::GraphProperty::" + nm)
        eng = c.engine()
        st = State()
        T = mk_task(c, eng, st, "task")
        G = eng.padd(T, c.off(TASK, "task") - c.off("redGrapes::GraphProperty", "task"))
        ret = ("o", ("al", 0, "ret", 0), 0)
        outs = normal(eng.run(f, [ret, G], st))
        c.absorb(eng)
        c.instance(nm)
        for o in outs:
            v = evpval(snapshot(eng, o.st, ret, EVP))
            c.need(v[0] == tg[tag] and v[1] == T, "%s() yields %s" % (nm, [eng.show(x) for x in v]), where(c, f), eng, o.st)
            c.need(v[2] == 0, "%s() refers to an external event" % nm, where(c, f), eng, o.st)


@rule("event.add_follower", "C01 C02 C03 C04 C22 C25 C27", minimum=3,
      text="Event::add_follower decides under the followers lock whether the event is already reached; if not it first counts the edge at "
           "the follower and then makes the follower visible, exactly once")
def r_add_follower(c):
    f = c.fn(EVENT + "::add_follower")
    tg = tags(c)
    for ftag in ("PRE", "POST"):
        for lo, hi in ((0, 0), (1, MASK[32])):
            eng = c.engine(models=cuts("notify"))
            st = State()
            this = argp(eng, st, "this", EVENT)
            sa = eng.ptr(this, c.off(EVENT, "state"))
            eng.cfg.pinned.add(eng.split(sa))
            setm(eng, st, this, c.off(EVENT, "state"), argi(eng, st, "state", 32, lo, hi), 4)
            T = mk_task(c, eng, st, "follower")
            fp = mk_evp(c, eng, st, "arg", tg[ftag], T, 0)
            fsa = eng.padd(evaddr(c, eng, T, ftag), c.off(EVENT, "state"))
            mtx = eng.ptr(this, c.off(EVENT, "followers_mutex"))
            fol = eng.ptr(this, c.off(EVENT, "followers"))
            outs = normal(eng.run(f, [this, fp], st))
            c.absorb(eng)
            cell = "add_follower (%s) on a %s event" % (ftag, "reached" if hi == 0 else "pending")
            c.instance(cell)
            w = where(c, f)
            c.need(len(outs) > 0, cell + " does not return", w)
            for o in outs:
                st = o.st
                need = lambda cond, msg: c.need(cond, cell + ": " + msg, w, eng, st)
                up = [(i, e) for i, e in evs(st, "rmw", "astore", "cas") if e[2] == fsa]
                pu = [(i, e) for i, e in evs(st, "push") if e[1] == fol]
                ld = [(i, e) for i, e in evs(st, "aload") if e[2] == sa]
                need(not held(st, len(st.trace)), "a lock is not released")
                need(not [1 for i, e in evs(st, "astore", "cas", "rmw") if e[2] == sa], "the own counter is changed")
                if hi == 0:
                    need(not up and not pu, "a reached event must not get followers")
                else:
                    need(len(pu) == 1 and evpval(pu[0][1][2])[:2] == (tg[ftag], T), "the follower must be added exactly once")
                    need(len(up) == 1 and up[0][1][0] == "rmw" and rmw_add(up[0][1]) == 1, "the edge must be counted exactly once at the follower")
                    if pu and up:
                        need(up[0][0] < pu[0][0], "the follower is visible before its edge is counted")
                    if pu:
                        need(mtx in held(st, pu[0][0]), "the follower is added without holding the lock")
                        need(any(mtx in held(st, i) and i < pu[0][0] for i, e in ld), "the state is not checked under the lock")
                        # same critical section
                        if ld:
                            li = [i for i, e in ld if mtx in held(st, i)]
                            if li:
                                need(not [1 for i, e in evs(st, "unlock") if e[1] == mtx and li[-1] < i < pu[0][0]],
                                     "the lock is released between check and insertion")
