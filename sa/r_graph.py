"""Dependencies between tasks: search for predecessors, removal from user lists, demotion, pause, external events."""
from lib import *

RB = "redGrapes::ResourceBase"
RUE = "redGrapes::ResourceUsageEntry"
GP = "redGrapes::GraphProperty"
VD = {"redGrapes::TaskSpace::is_serial": "redGrapes::TaskSpace::is_serial",
      "redGrapes::TaskSpace::is_superset": "redGrapes::TaskSpace::is_superset"}


class Setup:
    """a task with its list of resources"""

    def __init__(self, c, eng, st):
        self.c, self.eng = c, eng
        self.T = mk_task(c, eng, st, "task")
        self.G = graph_of(c, eng, self.T)
        self.ur = eng.ptr(self.T, c.off(TASK, "unique_resources"))
        self.space = sym(("arg", "task.space"))
        self.o_entry = c.off(RUE, "task_entry")
        self.o_res = c.off(RUE, "resource", "_M_ptr")
        self.o_users = c.off(RB, "users")
        self.o_mtx = c.off(RB, "users_mutex")
        self.o_space = c.off(TASK, "space", "_M_ptr")

    def entry(self, st, r):
        """(resource, position of the own entry) of element r of unique_resources"""
        e = elem(r)
        return self.eng.load(st, self.eng.ptr(e, self.o_res), 8), itpos(self.eng, st, self.eng.ptr(e, self.o_entry))


def serial_result(c, eng, st, evl, X, T):
    """known value of the conflict test between tasks X and T (None: not made or unknown)"""
    A, B = ruser_of(c, eng, X), ruser_of(c, eng, T)
    r = None
    for e in evl:
        if e[0] == "call" and e[1] == "is_serial" and set(e[2:4]) == {A, B}:
            k = known(eng, st, e[4])
            if k is not None:
                r = k
    return r


def sync_result(c, eng, st, evl, X, R):
    A = ruser_of(c, eng, X)
    for e in evl:
        if e[0] == "call" and e[1] == "has_sync" and e[2] == A and any(x == R for x in flat(e[3])):
            return known(eng, st, e[-1])
    return None


def flat(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from flat(x)


@rule("graph.init_graph", "C01 C03 C11 C27 C02", minimum=1,
      text="init_graph visits, for each resource of the task that it is registered at, under users_mutex, every user before its own entry; it "
           "adds exactly one edge from each user of the same space that conflicts, unless that event is already reached, and stops only at the "
           "parent task or at a conflicting user with synchronising access to the resource")
def r_init_graph(c):
    f = c.fn(GP + "::init_graph")
    w = where(c, f)
    eng = c.engine(models=cuts("add_follower", "ru_is_serial", "ru_is_superset", "has_sync"), vdispatch=VD)
    st0 = State()
    S = Setup(c, eng, st0)
    tg = tags(c)
    so = c.off(EVENT, "state")

    def users(R):
        return eng.ptr(R, S.o_users)

    def edge(st, evl, X):
        """number of edges from X, True if the event was seen reached"""
        n, reached, dep = 0, False, None
        for e in evl:
            if e[0] == "vcall" and e[1].endswith("::task_dependency_type") and e[2][1] == X and e[2][2] == S.T:
                dep = known(eng, st, e[3])
        for e in evl:
            if e[0] == "aload" and dep is not None:
                ev = evaddr(c, eng, X, "PRE" if dep else "POST")
                if e[2] == eng.padd(ev, so) and eng.rng(st, e[3], 32)[:2] == (0, 0):
                    reached = True
            if e[0] == "call" and e[1] == "add_follower" and mentions(e[2], X):
                ok = dep is not None and e[2] == evaddr(c, eng, X, "PRE" if dep else "POST")
                c.need(ok, "the edge does not start at the event the scheduler asks for", w, eng, st)
                c.need(evpval(e[3])[:2] == (tg["PRE"], S.T), "the edge does not end at the pre-event of the new task", w, eng, st)
                n += 1
        return n, reached

    def handled(st, p, last):
        """obligations about one predecessor; last: the search ended here"""
        evl = since(st, p)
        X = eng.load(st, elem(p), 8)
        par = eng.load(st, eng.ptr(S.space, c.off(TSPACE, "parent")), 8)
        R = resource_of(st, p)
        need = lambda cond, msg: c.need(cond, "init_graph: " + msg, w, eng, st)
        ispar = same(eng, st, X, par)
        xs = eng.load(st, eng.ptr(X, S.o_space), 8)
        other = differ(eng, st, xs, S.space)
        ser = serial_result(c, eng, st, evl, X, S.T)
        n, reached = edge(st, evl, X)
        if ispar or other:
            need(n == 0, "an edge from the parent task or from a task of another space is added")
        elif ser == 1:
            need(same(eng, st, xs, S.space), "it is not established that a predecessor belongs to the same space")
            need(differ(eng, st, X, par), "it is not established that a predecessor is not the parent")
            need(n == 1 or (n == 0 and reached), "a conflicting predecessor gets %d edges" % n)
        else:
            need(n == 0, "an edge from a task without conflict is added")
            need(ser == 0, "a user of the resource is not tested for conflicts")
        if last:
            need(ispar or (ser == 1 and not other and sync_result(c, eng, st, evl, X, R) == 1),
                 "the search stops at a user which does not order everything before it")
        for i, e in enumerate(evl):
            if e[0] == "call" and e[1] == "add_follower":
                need(eng.ptr(R, S.o_mtx) in held(st, len(st.trace) - len(evl) + i), "an edge is added without holding users_mutex")

    def resource_of(st, p):
        """resource whose user list position p belongs to"""
        outer = outer_pos(st)
        return S.entry(st, outer)[0]

    def outer_pos(st):
        ch = chain(st, S.ur)
        return ch[-1] if ch else None

    def inner_chain(st, o):
        TE = S.entry(st, o)[1]
        cur, res = [TE], []
        R = S.entry(st, o)[0]
        for e in since(st, o):
            if e[0] == "it.next" and e[1] in cur:
                cur.append(e[2])
                res.append(e[2])
        return res

    def outer_done(st, o):
        R, TE = S.entry(st, o)
        need = lambda cond, msg: c.need(cond, "init_graph: " + msg, w, eng, st)
        t = eng.cmp(st, "eq", 64, TE, REND)
        ch = inner_chain(st, o)
        if t == 1:
            need(not ch, "the list is searched although the task is not registered")
        else:
            need(len(ch) > 0, "users before the own entry are not searched")
            if ch:
                if not same(eng, st, ch[-1], REND):
                    handled(st, ch[-1], True)
        need(not held(st, len(st.trace)), "a lock is still held after a resource was searched")

    def on_next(eng_, st, pos):
        if pos in chain(st, S.ur):
            outer_done(st, pos)
            forget(st, pos)
            return
        o = outer_pos(st)
        if o is None:
            return
        R, TE = S.entry(st, o)
        c.need(eng.ptr(R, S.o_mtx) in held(st, len(st.trace)), "init_graph: user list is searched without holding users_mutex", w, eng, st)
        if pos == TE:
            return
        c.need(pos in inner_chain(st, o), "init_graph: search does not start at the own entry", w, eng, st)
        handled(st, pos, False)
        forget(st, pos)

    eng.cfg.on_next = on_next
    outs = eng.run(f, [S.G], st0)
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(normal(outs)) > 0, "init_graph does not return", w)
    for o in normal(outs):
        st = o.st
        loops_complete(c, eng, st, S.ur, "init_graph", w)
        c.need(not held(st, len(st.trace)), "init_graph: a lock is not released", w, eng, st)


@rule("graph.delete_from_resources", "C01 C03 C06 C27", minimum=1,
      text="delete_from_resources removes the own entry from the user list of each resource of the task under users_mutex, and nothing else")
def r_delete(c):
    f = c.fn(GP + "::delete_from_resources")
    w = where(c, f)
    eng = c.engine()
    st0 = State()
    S = Setup(c, eng, st0)

    def done(st, o):
        R, TE = S.entry(st, o)
        need = lambda cond, msg: c.need(cond, "delete_from_resources: " + msg, w, eng, st)
        evl = since(st, o)
        base = len(st.trace) - len(evl)
        rem = [(base + i, e) for i, e in enumerate(evl) if e[0] in ("remove", "erase")]
        if same(eng, st, TE, REND):
            need(not rem, "something is removed although the task is not registered")
        else:
            need(len(rem) == 1 and rem[0][1][0] == "remove" and rem[0][1][1] == eng.ptr(R, S.o_users) and rem[0][1][2] == TE,
                 "the own entry is not removed exactly once from the user list")
            for i, e in rem:
                need(eng.ptr(R, S.o_mtx) in held(st, i), "the entry is removed without holding users_mutex")
        need(not held(st, len(st.trace)), "lock not released")

    def on_next(eng_, st, pos):
        if pos in chain(st, S.ur):
            done(st, pos)
            forget(st, pos)

    eng.cfg.on_next = on_next
    outs = normal(eng.run(f, [S.G], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "delete_from_resources does not return", w)
    for o in outs:
        loops_complete(c, eng, o.st, S.ur, "delete_from_resources", w)
        c.need(not evs(o.st, "remove", "erase"), "delete_from_resources: removes something outside of its loop", w, eng, o.st)


@rule("graph.update_graph", "C14 C04 C02", minimum=1,
      text="update_graph first waits, with the users_mutex of each resource of the task, for searches for predecessors which saw the former accesses; it "
           "visits every follower of the post-event; exactly the pre-events of tasks without conflict are removed from the followers and notified once, "
           "removal first")
def r_update(c):
    f = c.fn(GP + "::update_graph")
    w = where(c, f)
    eng = c.engine(models=cuts("notify", "ru_is_serial", "ru_is_superset"), vdispatch=VD)
    st0 = State()
    S = Setup(c, eng, st0)
    tg = tags(c)
    fol = eng.padd(evaddr(c, eng, S.T, "POST"), c.off(EVENT, "followers"))
    so = [c.off(EVP, "tag"), c.off(EVP, "task")]

    def done(st, p):
        need = lambda cond, msg: c.need(cond, "update_graph: " + msg, w, eng, st)
        evl = since(st, p)
        tag = eng.load(st, eng.ptr(elem(p), so[0]), 4, w=32)
        X = eng.load(st, eng.ptr(elem(p), so[1]), 8)
        rem = [(i, e) for i, e in enumerate(evl) if e[0] in ("remove", "erase")]
        nt = [(i, e) for i, e in enumerate(evl) if e[0] == "call" and e[1] == "notify"]
        ispre = eng.cmp(st, "eq", 32, tag, tg["PRE"])
        notask = eng.cmp(st, "eq", 64, X, 0)
        ser = serial_result(c, eng, st, evl, X, S.T)
        if ispre == 1 and notask != 1 and ser == 0:
            need(len(rem) == 1 and rem[0][1][0] == "remove" and rem[0][1][1] == fol and rem[0][1][2] == p,
                 "the edge to a task without conflict is not removed exactly once")
            need(len(nt) == 1 and evpval(nt[0][1][2])[:2] == (tag, X) or len(nt) == 1 and evpval(nt[0][1][2])[:2] == (tg["PRE"], X),
                 "a released follower is not notified exactly once")
            if nt:
                need(nt[0][1][3] == 0, "a released follower is notified as claimed")
            if rem and nt:
                need(rem[0][0] < nt[0][0], "the follower is notified before its edge is removed")
        else:
            need(not rem and not nt, "a follower is released that still has to wait")
            need(ispre == 0 or notask == 1 or ser == 1, "a follower is not tested for conflicts")
        for i, e in nt:
            need(not held(st, len(st.trace) - len(evl) + i), "a follower is notified while a lock is held")

    def waited(st, o):
        R, TE = S.entry(st, o)
        if same(eng, st, TE, REND):
            return
        c.need(any(e[0] == "lock" and e[1] == eng.ptr(R, S.o_mtx) for e in since(st, o)),
               "update_graph: a task which searches for its predecessors right now, and saw the former accesses, is not waited for", w, eng, st)

    def on_next(eng_, st, pos):
        if pos in chain(st, S.ur):
            waited(st, pos)
            forget(st, pos)
        elif pos in chain(st, fol):
            done(st, pos)
            forget(st, pos)

    def on_event(eng_, st, e):
        if e[0] == "it.begin" and e[1] == fol:
            loops_complete(c, eng, st, S.ur, "update_graph, before it looks at the followers", w)

    eng.cfg.on_next = on_next
    eng.cfg.on_event = on_event
    outs = normal(eng.run(f, [S.G], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "update_graph does not return", w)
    for o in outs:
        loops_complete(c, eng, o.st, fol, "update_graph", w)
        c.need(not evs(o.st, "remove", "erase") and not calls(o.st, "notify"), "update_graph: acts outside of its loop", w, eng, o.st)


@rule("graph.sg_pause", "C25 C02 C03", minimum=1,
      text="sg_pause re-arms the pre-event so that it is held by the caller and by the awaited event, before it is added as follower")
def r_pause(c):
    f = c.fn(GP + "::sg_pause")
    w = where(c, f)
    eng = c.engine(models=cuts("add_follower"))
    st0 = State()
    S = Setup(c, eng, st0)
    tg = tags(c)
    X = mk_task(c, eng, st0, "awaited")
    ev = mk_evp(c, eng, st0, "event", tg["POST"], X, 0)
    pe = evaddr(c, eng, S.T, "PRE")
    sa = eng.padd(pe, c.off(EVENT, "state"))
    eng.cfg.pinned.add(eng.split(sa))
    setm(eng, st0, *eng.split(sa), 0, 4)
    outs = normal(eng.run(f, [S.G, ev], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "sg_pause does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "sg_pause: " + msg, w, eng, st)
        af = calls(st, "add_follower")
        ch = [(i, e) for i, e in evs(st, "astore", "rmw", "cas") if e[2] == sa]
        need(eng.conc(st, eng.load(st, sa, 4)) == 2, "pre-event of a paused task must have two pending edges besides the awaited event")
        need(len(af) == 1 and af[0][1][2] == evaddr(c, eng, X, "POST") and evpval(af[0][1][3])[:2] == (tg["PRE"], S.T),
             "the pre-event must become follower of the awaited event exactly once")
        if af:
            need(all(i < af[0][0] for i, e in ch), "the pre-event is changed after it was made a follower")


@rule("graph.make_event", "C22 C04", minimum=1,
      text="make_event creates a new event with one pending edge, adds the post-event of the task as its follower and returns a handle of it")
def r_make_event(c):
    f = c.fn(GP + "::make_event")
    w = where(c, f)
    eng = c.engine(models=cuts("add_follower"))
    st0 = State()
    S = Setup(c, eng, st0)
    tg = tags(c)
    ret = ("o", ("al", 0, "ret", 0), 0)
    outs = normal(eng.run(f, [ret, S.G], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "make_event does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "make_event: " + msg, w, eng, st)
        af = calls(st, "add_follower")
        v = evpval(snapshot(eng, st, ret, EVP))
        need(v[0] == tg["EXT"], "the handle is not of an external event")
        x = v[2]
        news = {e[1] for i, e in evs(st, "new")}
        b = eng.split(x)[0] if isinstance(x, tuple) else None
        need(b in news, "the handle does not refer to a new event")
        need(len(af) == 1 and af[0][1][2] == x and evpval(af[0][1][3])[:2] == (tg["POST"], S.T),
             "the post-event of the task is not added as follower of the new event exactly once")
        if b in news:
            need(eng.conc(st, eng.load(st, eng.padd(x, c.off(EVENT, "state")), 4)) == 1, "the new event has not exactly one pending edge")
