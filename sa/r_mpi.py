"""The pool of MPI requests."""
import itertools
from lib import *
from r_context import cur_task

POOL = "redGrapes::dispatch::mpi::RequestPool"
VECS = ("requests", "events", "statuses")
NMAX = 3


class Lay:
    def __init__(self, c):
        self.sz = {"requests": 8, "events": c.P.size(EVP), "statuses": 16}
        self.off = {v: c.off(POOL, v) for v in VECS}
        self.ss = c.P.size("MPI_Status")
        self.sf = [(m[0], m[1]) for m in c.P.layout("MPI_Status") if m[2] == "m"]


def pool(c, eng, st, n, L):
    """a pool with n entries"""
    p = argp(eng, st, "pool", POOL)
    base = {}
    for v in VECS:
        b = argp(eng, st, v + ".data")
        for k, x in ((0, 0), (8, n), (16, n)):
            setm(eng, st, p, L.off[v] + k, eng.ptr(b, x * L.sz[v]) if n else 0)
        base[v] = b
        for i in range(n):
            x = argp(eng, st, "%s%d" % (v, i), "MPI_Status" if v == "statuses" else None)
            if v == "requests":
                setm(eng, st, b, 8 * i, x)
            elif v == "statuses":
                setm(eng, st, b, 16 * i, x)
                setm(eng, st, b, 16 * i + 8, argp(eng, st, "owner%d" % i))
            else:
                o = L.sz[v] * i
                setm(eng, st, b, o + c.off(EVP, "tag"), tags(c)["EXT"], 4)
                setm(eng, st, b, o + c.off(EVP, "task"), 0)
                setm(eng, st, b, o + c.off(EVP, "external_event", "_M_ptr"), x)
                setm(eng, st, b, o + c.off(EVP, "external_event", "_M_ptr") + 8, argp(eng, st, "eowner%d" % i))
    return p, base


def content(c, eng, st, p, L):
    """the entries of the pool: for each vector the list of what identifies its elements"""
    r = {}
    for v in VECS:
        a, e = (eng.conc(st, eng.load(st, eng.ptr(p, L.off[v] + k), 8)) for k in (0, 8))
        if eng.cmp(st, "eq", 64, a, e) == 1:
            r[v] = []
            continue
        (b, o), (b2, o2) = eng.split(a), eng.split(e)
        if b != b2 or not isint(o) or not isint(o2) or o2 < o or (o2 - o) % L.sz[v]:
            return None
        at = {"requests": 0, "statuses": 0, "events": c.off(EVP, "external_event", "_M_ptr")}[v]
        r[v] = [eng.conc(st, eng.load(st, eng.ptr(b, o + k * L.sz[v] + at), 8)) for k in range((o2 - o) // L.sz[v])]
    return r


def outsym(k, o, w):
    return sym(("arg", "out%d.%d" % (k, o)), 8 * w)


def newlen(eng, st, ptr):
    """bytes of a fresh allocation"""
    b, o = eng.split(ptr)
    for i, e in evs(st, "new"):
        if same(eng, st, e[1], ptr):
            return eng.conc(st, e[2])
    return None


@rule("mpi.poll", "C23", minimum=1,
      text="RequestPool::poll asks MPI, under the pool's lock, about exactly the pending requests, and for each index MPI reports it stores that request's status "
           "in that request's place before it notifies that request's event, once, and takes exactly the reported entries out of all three lists")
def r_poll(c):
    L = Lay(c)
    f = c.drv("mpi_poll")
    w = where(c, c.fn(POOL + "::poll"))
    for n in range(NMAX + 1):
        seqs = [s for k in range(n + 1) for s in itertools.permutations(range(n), k)]

        def testsome(eng, st, fn, args, info):
            need = lambda cond, msg: c.need(cond, "RequestPool::poll: " + msg, w, eng, st)
            pp = st.aux["pool"]
            a = [eng.conc(st, x) for x in args]
            need(held(st, len(st.trace), pp) or any(eng.split(x)[0] == eng.split(pp)[0] for x in held(st, len(st.trace))),
                 "MPI is asked without the lock of the pool")
            need("asked" not in st.aux, "MPI is asked twice")
            need(a[0] == n and same(eng, st, a[1], eng.conc(st, eng.load(st, eng.ptr(pp, L.off["requests"]), 8))),
                 "MPI is not asked about exactly the pending requests")
            for k, size, what in ((3, 4, "indices"), (4, L.ss, "statuses")):
                m = newlen(eng, st, a[k])
                need(m is None or not isint(m) or m >= n * size, "the room for the %s which MPI reports is too small" % what)
            r = []
            for s in seqs:
                s2 = st.copy()
                s2.aux["asked"] = s
                eng.store(s2, a[2], len(s), 4)
                for k, i in enumerate(s):
                    eng.store(s2, eng.padd(a[3], 4 * k), i, 4)
                    for o, z in L.sf:
                        eng.store(s2, eng.padd(a[4], L.ss * k + o), outsym(k, o, z), z)
                r.append(Outcome("ret", s2, 0))
            return r

        def notify(eng, st, fn, args, info):
            need = lambda cond, msg: c.need(cond, "RequestPool::poll: " + msg, w, eng, st)
            s = st.aux.get("asked", ())
            x = eng.conc(st, eng.load(st, eng.padd(args[0], c.off(EVP, "external_event", "_M_ptr")), 8))
            i = [i for i in range(n) if x == sym(("arg", "events%d" % i))]
            need(len(i) == 1 and i[0] in s, "an event is notified whose request is not completed")
            if len(i) == 1 and i[0] in s:
                i = i[0]
                need(i not in st.aux.get("done", ()), "an event is notified twice")
                st.aux["done"] = st.aux.get("done", ()) + (i,)
                k = s.index(i)
                need(all(eng.conc(st, eng.load(st, eng.ptr(sym(("arg", "statuses%d" % i)), o), z)) == outsym(k, o, z) for o, z in L.sf),
                     "a waiter is notified before the status of its request is stored")
            return ret(st, eng.result(st, info) if info.i.get("t") else None)

        eng = c.engine(models=[(lambda g: g.name == "MPI_Testsome", testsome), (lambda g: g.qual == EVP + "::notify", notify)])
        eng.cfg.fields = set(getattr(eng.cfg, "fields", ()) or ()) | {"MPI_Status." + m[3] for m in c.P.layout("MPI_Status")}
        st = State()
        p, base = pool(c, eng, st, n, L)
        st.aux["pool"] = p
        got = []
        for o in eng.run(f, [p], st):
            st2 = o.st
            need = lambda cond, msg: c.need(cond, "RequestPool::poll: " + msg, w, eng, st2)
            if o.kind != "ret":
                need(False, "does not return")
                continue
            need(not held(st2, len(st2.trace)), "the lock of the pool is not released")
            s = st2.aux.get("asked")
            need(s is not None or n == 0, "pending requests are not polled")
            s = s or ()
            got.append(s)
            need(set(st2.aux.get("done", ())) == set(s), "the waiter of a completed request is not notified")
            r = content(c, eng, st2, p, L)
            if r is None:
                need(False, "the lists of pending requests are broken")
                continue
            rest = [i for i in range(n) if i not in s]
            need(all(len(r[v]) == len(rest) for v in VECS), "not exactly the completed requests are removed")
            trip = list(zip(*(r[v] for v in VECS)))
            exp = [tuple(sym(("arg", "%s%d" % (v, i))) for v in VECS) for i in rest]
            need(sorted(map(str, trip)) == sorted(map(str, exp)), "the pending entries (request, event, status) which remain are mixed up")
        c.need(n == 0 or len(set(got)) == len(seqs), "RequestPool::poll: a report of MPI is not handled", w)
        c.instance("%d pending requests" % n)
        c.absorb(eng)


@rule("mpi.status", "C23", minimum=1,
      text="get_status registers the request with a new event and room for the status in all three lists under the pool's lock, waits, without the lock, "
           "for exactly that event, and returns the status found there afterwards")
def r_status(c):
    L = Lay(c)
    f = c.drv("mpi_status")
    w = where(c, c.fn(POOL + "::get_status"))
    req = sym(("arg", "request"))

    def yield_(eng, st, fn, args, info):
        need = lambda cond, msg: c.need(cond, "RequestPool::get_status: " + msg, w, eng, st)
        need("woken" not in st.aux, "waits twice")
        v = snapshot(eng, st, args[-1], EVP)
        p = st.aux["pool"]
        need(not any(eng.split(x)[0] == eng.split(p)[0] for x in held(st, len(st.trace))), "waits while it holds the lock of the pool")
        ps = evs(st, "vec.push")
        st.aux["woken"] = len(st.trace)
        at = {nm: [(i, e) for i, e in ps if e[1] == eng.ptr(p, L.off[nm])] for nm in VECS}
        need(all(len(at[nm]) == 1 for nm in VECS), "waits for a request which is not registered, or registered more than once")
        if any(len(at[nm]) != 1 for nm in VECS):
            return []
        for nm in VECS:
            i = at[nm][0][0]
            need(any(eng.split(x)[0] == eng.split(p)[0] for x in held(st, i)), "a request is registered without the lock of the pool")
        i0, i1 = min(at[nm][0][0] for nm in VECS), max(at[nm][0][0] for nm in VECS)
        need(not any(e[0] == "unlock" for e in st.trace[i0:i1]), "the lock is released in the middle of the registration")
        need(at["requests"][0][1][2] == req, "another request is registered")
        ev = at["events"][0][1][2]
        need(evpval(ev)[:3] == evpval(v)[:3] and evpval(v)[0] is not None, "waits for another event than the one which is registered")
        need(eng.conc(st, evpval(ev)[0]) == tags(c)["EXT"] and known(eng, st, eng.cmp(st, "ne", 64, evpval(ev)[2], 0)) == 1,
             "the event of the request is no new external event")
        room = at["statuses"][0][1][2]
        room = room if not (isinstance(room, tuple) and room[0] == "val") else None
        need(room is not None, "no room for the status is registered")
        if room is None:
            return []
        # what poll() stores while this task waits
        for o, z in L.sf:
            eng.store(st, eng.padd(room, o), outsym(0, o, z), z)
        return ret(st)

    eng = c.engine(models=[(lambda g: g.qual in (CTXT + "::yield", "redGrapes::yield"), yield_)])
    eng.cfg.fields = set(getattr(eng.cfg, "fields", ()) or ()) | {"MPI_Status." + m[3] for m in c.P.layout("MPI_Status")}
    st = State()
    p = argp(eng, st, "pool", POOL)
    st.aux["pool"] = p
    cur_task(c, eng, st, mk_task(c, eng, st, "cur"))
    rv = obj(st, "status")
    sret = bool(f.args and f.args[0].get("sret"))
    n = 0
    for o in eng.run(f, ([rv] if sret else []) + [p, req], st):
        st2 = o.st
        need = lambda cond, msg: c.need(cond, "RequestPool::get_status: " + msg, w, eng, st2)
        if o.kind != "ret":
            continue
        n += 1
        if not need("woken" in st2.aux, "does not wait"):
            continue
        need(not held(st2, len(st2.trace)), "the lock of the pool is not released")
        if sret:
            got = [eng.conc(st2, eng.load(st2, eng.padd(rv, o_), z)) for o_, z in L.sf]
        else:
            got = parts(eng.conc(st2, o.val))
        need(got == [outsym(0, o_, z) for o_, z in L.sf], "does not return the status which was stored for its request")
    c.need(n >= 1, "RequestPool::get_status: never returns", w)
    c.instance("get_status")
    c.absorb(eng)


def parts(v):
    """the members of a value returned in registers"""
    if isinstance(v, tuple) and v and v[0] == "agg":
        return [y for x in v[1] for y in parts(x)]
    if isinstance(v, tuple) and v and v[0] == "cat":
        return [y for x in v[2] for y in parts(x[2])]
    return [v]
