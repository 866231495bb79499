"""Locks, condition variable, queue."""
from lib import *

CV = "redGrapes::CondVar"
SL = "redGrapes::SpinLock"


def cv_models():
    def h(eng, st, f, args, info):
        if f.base.startswith("notify"):
            eng.event(st, "cv.notify", f.base, args[0])
            return ret(st)
        if f.base in ("wait", "wait_for", "wait_until") and f.blocks is None:
            eng.event(st, "cv.wait", args[0])
            return m_skip(eng, st, f, args, info)
        return None
    return [(lambda f: f.ctx in ("std::condition_variable", "std::_V2::condition_variable"), h)]


def writes(st, addr):
    """accesses to the flag: (index, kind, event)"""
    return [(i, e) for i, e in enumerate(st.trace) if e[0] in ("astore", "rmw", "cas") and e[2] == addr]


@rule("cv.wait", "C09 C27", minimum=1,
      text="CondVar::wait returns only after it saw a notification, which it consumes; it blocks only when it saw, under the mutex, that there is none; "
           "it never discards a notification it did not see")
def r_wait(c):
    f = c.fn(CV + "::wait")
    w = where(c, f)
    eng = c.engine(models=cv_models())
    st0 = State()
    this = argp(eng, st0, "this", CV)
    fl = eng.ptr(this, c.off(CV, "should_wait"))
    mx = eng.ptr(this, c.off(CV, "m"))
    setm(eng, st0, this, c.off(CV, "timeout"), argi(eng, st0, "timeout", 32), 4)

    def look(st, v, order, what):
        c.need(order in ACQ, "CondVar::wait: the notification is looked at with order %s (%s)" % (order, what), w, eng, st)
        st.aux["v"] = v
        st.aux["locked"] = st.aux.get("m", 0)

    def on_event(eng_, st, ev):
        need = lambda cond, msg: c.need(cond, "CondVar::wait: " + msg, w, eng, st)
        if ev[0] == "aload" and ev[2] == fl:
            look(st, ev[3], ev[4], "load")
        elif ev[0] == "rmw" and ev[2] == fl:
            need(ev[3] == "xchg" and eng.conc(st, ev[4]) == 1, "the flag is modified in an unexpected way")
            look(st, ev[5], ev[6], "exchange")
            st.aux["reset"] = 1
        elif ev[0] == "cas" and ev[2] == fl:
            need(eng.conc(st, ev[4]) == 1 and eng.conc(st, ev[3]) == 0, "the flag is modified in an unexpected way")
            if ev[5] == 1:
                st.aux["v"] = 0
                st.aux["reset"] = 1
        elif ev[0] == "astore" and ev[2] == fl:
            v = st.aux.get("v")
            need(v is not None and known(eng, st, v) == 0, "a notification which was not seen is discarded")
            need(eng.conc(st, ev[3]) == 1, "the flag is not reset")
            st.aux["reset"] = 1
        elif ev[0] == "cv.wait":
            v = st.aux.get("v")
            need(st.aux.get("m") == 1, "blocks without holding the mutex")
            need(st.aux.get("locked") == 1 and v is not None and known(eng, st, v) == 1, "blocks without having checked for a notification under the mutex")
            st.aux["v"] = None
        elif ev[0] == "lock" and ev[1] == mx:
            st.aux["m"] = 1
        elif ev[0] == "unlock" and ev[1] == mx:
            st.aux["m"] = st.aux["locked"] = 0
    eng.cfg.on_event = on_event
    eng.cfg.widen_vals = eng.cfg.widen_after = 1
    eng.cfg.keep = lambda eng_, e: e[0] in ("lock", "unlock", "cv.wait")
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "CondVar::wait does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "CondVar::wait: " + msg, w, eng, st)
        v = st.aux.get("v")
        need(v is not None and known(eng, st, v) == 0, "returns although no notification was seen")
        need(st.aux.get("reset"), "the notification is not consumed")
        need(st.aux.get("m", 0) == 0, "the mutex is not released")


@rule("cv.notify", "C09 C27", minimum=1,
      text="CondVar::notify records the notification and only then, after the mutex was held once, wakes sleepers; it tells whether there was none before")
def r_notify(c):
    f = c.fn(CV + "::notify")
    w = where(c, f)
    eng = c.engine(models=cv_models())
    st0 = State()
    this = argp(eng, st0, "this", CV)
    fl = eng.ptr(this, c.off(CV, "should_wait"))
    mx = eng.ptr(this, c.off(CV, "m"))
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "CondVar::notify does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "CondVar::notify: " + msg, w, eng, st)
        wr = writes(st, fl)
        last = None
        old = None
        for i, e in wr:
            if e[0] == "cas":
                if e[5] == 1:
                    need(eng.conc(st, e[4]) == 0, "the flag is not cleared")
                    need(e[6] in REL, "the notification is recorded with order " + str(e[6]))
                    last, old = i, e[3]
                else:
                    last, old = i, e[7]
                    need(eng.conc(st, e[3]) == 1, "expects something else than a waiting thread")
            elif e[0] == "rmw":
                need(e[3] == "xchg" and eng.conc(st, e[4]) == 0 and e[6] in REL, "the flag is not cleared with release order")
                last, old = i, e[5]
            else:
                need(eng.conc(st, e[3]) == 0 and e[4] in REL, "the flag is not cleared with release order")
                last = i
        need(last is not None, "the notification is not recorded")
        nt = [(i, e) for i, e in evs(st, "cv.notify")]
        need(nt, "sleepers are not woken")
        if nt and last is not None:
            k = nt[-1][0]
            lk = [i for i, e in evs(st, "lock") if e[1] == mx]
            need(k > last, "sleepers are woken before the notification is recorded")
            need(any(i > last for i in lk if i < k) or held(st, last, mx), "the mutex is not held between recording the notification and waking sleepers")
        need(not held(st, len(st.trace)), "the mutex is not released")
        if old is not None:
            need(same(eng, st, uncast(o.val), old) or (known(eng, st, o.val) is not None and known(eng, st, o.val) == known(eng, st, old)), "result does not tell whether there was no notification before")


@rule("cv.new", "C09", minimum=1, text="a new CondVar has no notification")
def r_cvnew(c):
    n = 0
    for f in c.fns(CV + "::CondVar"):
        eng = c.engine(models=cv_models())
        st0 = State()
        this = argp(eng, st0, "this", CV)
        o_ = c.off(CV, "should_wait")
        args = [this] + [argi(eng, st0, "timeout", 32)] * (len(f.args) - 1)
        outs = normal(eng.run(f, args, st0))
        c.absorb(eng)
        c.instance(f.d)
        for o in outs:
            c.need(eng.conc(o.st, eng.load(o.st, eng.ptr(this, o_), 1)) == 1, "a new CondVar has a notification", where(c, f), eng, o.st)


@rule("spinlock", "C27", minimum=3,
      text="SpinLock::lock returns only after it changed the state from free to taken with acquire order; unlock frees it with release order; a new lock is free")
def r_spin(c):
    f = c.drv("spin_lock")
    w = where(c, c.fn(SL + "::lock"))
    nl = [m for m in std_models()]
    eng = c.engine()
    eng.cfg.models = [m for m in eng.cfg.models if m not in lock_models()]
    eng.cfg.models = misc_models() + default_models()
    st0 = State()
    this = argp(eng, st0, "this", SL)
    addr = eng.ptr(this, c.off(SL, "state"))
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance("lock")
    c.need(len(outs) > 0, "SpinLock::lock does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "SpinLock::lock: " + msg, w, eng, st)
        got = []
        for i, e in writes(st, addr):
            if e[0] == "cas" and e[5] == 1:
                need(eng.conc(st, e[3]) == 0 and eng.conc(st, e[4]) == 1, "changes the state in an unexpected way")
                need(e[6] in ACQ, "is taken with order " + str(e[6]))
                got.append(e)
            elif e[0] == "rmw" and e[3] in ("xchg", "or"):
                need(eng.conc(st, e[4]) == 1 and e[6] in ACQ, "is taken with order " + str(e[6]))
                if known(eng, st, e[5]) == 0:
                    got.append(e)
            elif e[0] != "cas":
                need(False, "changes the state in an unexpected way")
        need(len(got) >= 1, "returns without having taken the lock")
    for name, want in (("spin_unlock", "unlock"), ("spin_new", "SpinLock")):
        f = c.drv(name)
        w = where(c, c.fn(SL + "::" + want))
        eng = c.engine()
        eng.cfg.models = misc_models() + default_models()
        st0 = State()
        this = argp(eng, st0, "this", SL)
        addr = eng.ptr(this, c.off(SL, "state"))
        outs = normal(eng.run(f, [this], st0))
        c.absorb(eng)
        c.instance(want)
        c.need(len(outs) > 0, "SpinLock::%s does not return" % want, w)
        for o in outs:
            st = o.st
            wr = writes(st, addr)
            if name == "spin_unlock":
                c.need(len(wr) == 1 and wr[0][1][0] in ("astore", "rmw") and
                       (wr[0][1][0] == "astore" and eng.conc(st, wr[0][1][3]) == 0 and wr[0][1][4] in REL or
                        wr[0][1][0] == "rmw" and wr[0][1][3] == "xchg" and eng.conc(st, wr[0][1][4]) == 0 and wr[0][1][6] in REL),
                       "SpinLock::unlock does not free the lock with release order", w, eng, st)
            else:
                v = eng.conc(st, eng.load(st, addr, 1))
                c.need(v == 0 or (wr and eng.conc(st, wr[-1][1][3]) == 0), "a new SpinLock is not free", w, eng, st)


@rule("queue", "C10 C27 C02 C05", minimum=2,
      text="push adds exactly the given task to the queue; pop removes one task and returns it, or returns none if the queue was empty")
def r_queue(c):
    Q = "redGrapes::task::Queue"
    f = c.drv("queue_push")
    w = where(c, c.fn(Q + "::push"))
    eng = c.engine()
    st0 = State()
    q = argp(eng, st0, "queue", Q)
    T = mk_task(c, eng, st0, "task")
    outs = normal(eng.run(f, [q, T], st0))
    c.absorb(eng)
    c.instance("push")
    c.need(len(outs) > 0, "Queue::push does not return", w)
    for o in outs:
        en = evs(o.st, "enq")
        c.need(len(en) == 1 and en[0][1][2] == T and eng.split(en[0][1][1])[0] == q, "Queue::push does not add the task exactly once", w, eng, o.st)
    f = c.drv("queue_pop")
    w = where(c, c.fn(Q + "::pop"))
    eng = c.engine()
    st0 = State()
    q = argp(eng, st0, "queue", Q)
    outs = normal(eng.run(f, [q], st0))
    c.absorb(eng)
    c.instance("pop")
    c.need(any(evs(o.st, "deq") for o in outs), "Queue::pop takes nothing", w)
    for o in outs:
        dq = evs(o.st, "deq")
        c.need(len(dq) <= 1 and eng.conc(o.st, o.val) == (dq[0][1][2] if dq else 0), "Queue::pop drops the task or returns something else", w, eng, o.st)
