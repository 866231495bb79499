"""What lies between the big pieces: the public functions, scopes of resources, start of threads, idling, states of workers."""
from lib import *
from models import m_skip, cut_model
from r_context import mk_ctx, ret_slot, cur_task
from r_worker import mk_pool, probe_model, POOL, GCTX

BF = "redGrapes::AtomicBitfield"
RBASE = "redGrapes::ResourceBase"
RACC = "redGrapes::ResourceAccess"
ENTRY = "redGrapes::ResourceUsageEntry"


def api_models():
    """calls of methods of the context become events ('api', name, context, arguments); results are named"""
    def h(eng, st, f, args, info):
        sret = bool(f.args and f.args[0].get("sret"))
        a = list(args)
        slot = a.pop(0) if sret else None
        ts = f.types[2:] if len(f.types) > 2 else []
        vals = []
        for k, x in enumerate(a[1:]):
            t = ts[k].rstrip("&") if k < len(ts) else ""
            # arguments by value are given as copies
            p = isinstance(x, tuple) and t in eng.P.types and not (k < len(ts) and ts[k].endswith("&"))
            vals.append(snapshot(eng, st, x, t) if p else eng.conc(st, x))
        eng.event(st, "api", f.base, a[0], tuple(vals), slot)
        return ret(st, eng.result(st, info) if info.i.get("t") else None)
    return [(lambda f: f.ctx == CTXT and f.base in ("init", "finalize", "barrier", "yield", "update_properties", "backtrace", "create_event",
                                                    "scope_depth", "current_task_space") and f.blocks is not None, h)]


@rule("api.forward", "C08 C13 C22 C24 C25 C26", minimum=6,
      text="each public function of the runtime does what the context's method of that name does, once, with the same arguments, and returns its result")
def r_api(c):
    n = 0
    for name in ("init", "finalize", "barrier", "yield", "update_properties", "backtrace", "create_event", "scope_depth", "current_task_space"):
        for f in c.P.find("redGrapes::" + name):
            eng = c.engine(models=api_models() + cuts("is_reached"))
            st0 = State()
            sret = bool(f.args and f.args[0].get("sret"))
            args, given = [], []
            for k, a in enumerate(f.args):
                if sret and k == 0:
                    args.append(ret_slot(eng, st0))
                    continue
                t = f.types[k if sret else k + 1].rstrip("&") if len(f.types) > (k if sret else k + 1) else None
                if a["t"][0] == "p":
                    p = argp(eng, st0, "arg%d" % k, t)
                    args.append(p)
                    given.append((p, t, f.types[k if sret else k + 1].endswith("&")))
                else:
                    v = argi(eng, st0, "arg%d" % k, a["t"][1])
                    args.append(v)
                    given.append((v, None, False))
            outs = eng.run(f, args, st0.copy())
            c.absorb(eng)
            c.instance(f.d)
            w = where(c, f)
            n += 1
            c.need(len(normal(outs)) > 0, "%s does not return" % name, w)
            for o in normal(outs):
                st = o.st
                need = lambda cond, msg: c.need(cond, "redGrapes::%s: %s" % (name, msg), w, eng, st)
                ap = [e for i, e in evs(st, "api")]
                if name == "yield" and not ap and any(known(eng, st, e[1][-1]) == 1 for e in calls(st, "is_reached")):
                    continue  # there is nothing to wait for
                if not need(len(ap) == 1 and ap[0][1] == name, "does not call the method of the context once"):
                    continue
                want = []
                for v, t, ref in given:
                    want.append(v if t is None or ref else snapshot(eng, st0, v, t))
                got = list(ap[0][3])
                ok = len(got) == len(want) and all(g == x or same(eng, st, g, x) if isint(g) or isint(x) else g == x for g, x in zip(got, want))
                need(ok, "other arguments are given on")
                if sret:
                    need(ap[0][4] == args[0], "the result is not that of the method")
                elif f.types and f.types[0] != "void" and o.val is not None:
                    need(isinstance(o.val, tuple), "the result is not that of the method")


@rule("context.idle", "C09 C08 C25", minimum=2,
      text="the thread that starts the runtime idles by waiting, once, for the condition variable which waker 0 notifies; it sleeps without delay")
def r_idle(c):
    D = "redGrapes::scheduler::DefaultScheduler"
    f = c.fn(D + "::idle")
    w = where(c, f)
    eng = c.engine(models=cuts("cv_wait"))
    st0 = State()
    this = argp(eng, st0, "this", D)
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance("DefaultScheduler::idle")
    c.need(len(outs) > 0, "DefaultScheduler::idle does not return", w)
    cv = eng.ptr(this, c.off(D, "cv"))
    for o in outs:
        ws = calls(o.st, "cv_wait")
        c.need(len(ws) == 1 and ws[0][1][2] == cv, "DefaultScheduler::idle does not wait once for its condition variable", w, eng, o.st)
    # the function which is installed
    lam = [g for g in c.P.fns.values() if g.blocks is not None and g.base == "operator()" and g.d.startswith("redGrapes::Context::Context()::")]
    c.need(len(lam) >= 1, "no idle function is made by Context()", where(c, c.fn(CTXT + "::Context")))
    captured = False
    for g in lam:
        eng = c.engine()
        st0 = State()
        clo = argp(eng, st0, "closure", None)
        ctx = argp(eng, st0, "ctx", CTXT)
        eng.store(st0, clo, ctx, 8)
        sch = argp(eng, st0, "scheduler", ISCHED)
        sch2 = argp(eng, st0, "the scheduler", ISCHED)
        for x, v in ((ctx, sch), (eng.gbase(GCTX), sch2)):  # by the closure, or the singleton
            setm(eng, st0, x, c.off(CTXT, "scheduler", "_M_ptr"), v)
        outs = normal(eng.run(g, [clo], st0))
        c.absorb(eng)
        c.instance("Context::idle")
        c.need(len(outs) > 0, "the idle function does not return", where(c, g))
        for o in outs:
            v = [e for i, e in evs(o.st, "vcall") if e[1].endswith("::idle")]
            captured = captured or bool(v and v[0][2][0] == sch)
            c.need(len(v) == 1 and v[0][2][0] in (sch, sch2), "the idle function does not let the scheduler idle, once", where(c, g), eng, o.st)
    f = c.fn(CTXT + "::Context")
    eng = c.engine(models=[(lambda g: g.ctx == "std::function" and g.base == "operator=", m_fnset)])
    st0 = State()
    this = argp(eng, st0, "this", CTXT)
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.need(len(outs) > 0, "Context() does not return", where(c, f))
    idle = eng.gbase("_ZN9redGrapes7Context4idleE")
    for o in outs:
        s = [e for i, e in evs(o.st, "fn.set")]
        c.need(len(s) == 1 and s[0][1] == idle and (s[0][2] == this or not captured), "Context() does not install the idle function for its thread", where(c, f), eng, o.st)


def m_fnset(eng, st, f, args, info):
    eng.event(st, "fn.set", args[0], eng.load(st, args[1], 8))
    return ret(st, args[0])


@rule("worker.new", "C26 C10 C27", minimum=3,
      text="a worker begins with the id it was given, its own arena and no request to stop; start() starts exactly one thread, owned by the worker, that runs this worker")
def r_new(c):
    for cls in (WORKER, WTHREAD):
        f = c.fn(cls + "::" + cls.split("::")[-1])
        w = where(c, f)
        eng = c.engine(models=[(lambda g: g.qual == "redGrapes::task::Queue::Queue" or g.qual == "redGrapes::CondVar::CondVar", m_skip)])
        st0 = State()
        this = argp(eng, st0, "this", cls)
        al = argp(eng, st0, "alloc")
        wid = argi(eng, st0, "id", 32)
        tail = f.args[-1]["t"]
        if tail[0] == "i" and tail[1] != 32:
            wid = argi(eng, st0, "id", tail[1])
        eng.cfg.pinned.add((this, c.off(cls, "m_stop")))
        args = [this, al, argp(eng, st0, "hw"), argp(eng, st0, "obj"), wid]
        if len(args) != len(f.args):
            raise Unsupported("constructor of the worker has %d arguments" % len(f.args))
        outs = normal(eng.run(f, args, st0))
        c.absorb(eng)
        c.instance(f.d)
        c.need(len(outs) > 0, "%s: constructor does not return" % cls, w)
        sz = eng.P.size(eng.P.membertype(cls, "id")) or 4
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "new worker: " + msg, w, eng, st)
            need(same(eng, st, eng.load(st, eng.ptr(this, c.off(cls, "id")), sz, w=8 * sz), wid), "has another id")
            need(eng.load(st, eng.ptr(this, c.off(cls, "alloc")), 8) == al, "has another arena")
            need(eng.conc(st, eng.load(st, eng.ptr(this, c.off(cls, "m_stop")), 1)) == 0, "is to stop at once")
    f = c.fn(WTHREAD + "::start")
    w = where(c, f)

    def tm(eng, st, g, args, info):
        if g.base == "thread" and len(args) > 1:
            # a closure, or a method and the object
            eng.event(st, "thread.new", args[0], eng.load(st, args[2 if len(args) > 2 else 1], 8), eng.load(st, args[1], 8) if len(args) > 2 else None)
            eng.store(st, args[0], 4711, 8)
            return ret(st)
        if g.base == "thread":
            eng.store(st, args[0], 0, 8)
            return ret(st)
        if g.base == "operator=":
            eng.store(st, args[0], eng.load(st, args[1], 8), 8)
            eng.store(st, args[1], 0, 8)
            return ret(st, args[0])
        if g.base in ("detach", "join"):
            eng.event(st, "thread." + g.base, args[0])
        if g.base == "~thread":
            if eng.conc(st, eng.load(st, args[0], 8)) == 4711:
                eng.event(st, "thread.lost")
            return ret(st)
        return m_skip(eng, st, g, args, info)
    eng = c.engine(models=[(lambda g: g.ctx == "std::thread", tm)])
    st0 = State()
    this = argp(eng, st0, "this", WTHREAD)
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "WorkerThread::start does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "WorkerThread::start: " + msg, w, eng, st)
        tn = [e for i, e in evs(st, "thread.new")]
        if not need(len(tn) == 1 and tn[0][2] == this, "does not start one thread for this worker"):
            continue
        if tn[0][3] is not None:
            g = c.P.fns.get(tn[0][3][1]) if isinstance(tn[0][3], tuple) and tn[0][3][0] == "f" else None
            need(g is not None and g.qual == WTHREAD + "::run", "the thread does not run the worker")
        need(not evs(st, "thread.join", "thread.detach", "thread.lost") and eng.conc(st, eng.load(st, eng.ptr(this, c.off(WTHREAD, "thread")), 8)) == 4711,
             "the thread does not belong to the worker afterwards")
    # what the thread does
    lam = [g for g in c.P.fns.values() if g.blocks is not None and g.base == "operator()" and g.d.startswith(WTHREAD + "::start()::")]
    for g in lam:
        eng = c.engine(models=[(lambda h: h.qual == WTHREAD + "::run", cut_model(("run", ["v"])))])
        st0 = State()
        clo = argp(eng, st0, "closure")
        this = argp(eng, st0, "this", WTHREAD)
        eng.store(st0, clo, this, 8)
        outs = normal(eng.run(g, [clo], st0))
        c.absorb(eng)
        c.instance("thread function")
        c.need(len(outs) > 0, "the thread of a worker never ends", where(c, g))
        for o in outs:
            r = calls(o.st, "run")
            c.need(len(r) == 1 and r[0][1][2] == this, "the thread does not run its worker, once", where(c, g), eng, o.st)


@rule("pool.state", "C20 C10", minimum=3,
      text="the state of a worker is that of the bit with its id; setting it succeeds exactly if the state was another one; a free worker is looked for among the "
           "available ones, from an existing worker on, and is returned only after it was claimed")
def r_state(c):
    def bm(eng, st, f, args, info):
        v = eng.fresh(st, info.cs, info.i["n"], 1)
        eng.bools.add(v) if isinstance(getattr(eng, "bools", None), set) else None
        eng.event(st, "bit", f.base, args[0], tuple(eng.conc(st, a) for a in args[1:]), v)
        return ret(st, v)
    M = [(lambda f: f.ctx == BF and f.base in ("set", "get"), bm)]
    for name in ("get_worker_state", "set_worker_state"):
        f = c.fn(POOL + "::" + name)
        w = where(c, f)
        for val in (0, 1) if name.startswith("set") else (None,):
            for was in (0, 1):
                def bw(eng, st, g, args, info):
                    eng.event(st, "bit", g.base, args[0], tuple(eng.conc(st, a) for a in args[1:]))
                    return ret(st, was)
                eng = c.engine(models=[(M[0][0], bw)])
                st0 = State()
                this = argp(eng, st0, "this", POOL)
                wid = argi(eng, st0, "id", f.args[1]["t"][1], 0, 1000)
                outs = normal(eng.run(f, [this, wid] + ([val] if val is not None else []), st0))
                c.absorb(eng)
                c.need(len(outs) > 0, name + " does not return", w)
                for o in outs:
                    st = o.st
                    need = lambda cond, msg: c.need(cond, "%s: %s" % (name, msg), w, eng, st)
                    b = [e for i, e in evs(st, "bit")]
                    if not need(len(b) == 1 and b[0][2] == eng.ptr(this, c.off(POOL, "worker_state")), "does not use the state field once"):
                        continue
                    need(b[0][1] == name[:3] and same(eng, st, uncast(b[0][3][0]), wid), "uses another bit")
                    if val is None:
                        need(eng.conc(st, o.val) == was, "tells another state")
                    else:
                        need(b[0][3][1] == val, "sets another state")
                        need(known(eng, st, o.val) == (was != val), "tells the wrong thing about the former state")
        c.instance(name)
    f = c.fn(POOL + "::find_free_worker")
    w = where(c, f)
    for n in (1, 3):
        for inw in (0, 1):
            P0 = probe_model(n)
            seen = []

            def pm(eng, st, g, args, info):
                eng.event(st, "probe.from", args[0], eng.conc(st, args[2]), eng.conc(st, args[3]))
                return P0[0][1](eng, st, g, args, info)
            eng = c.engine(models=[(P0[0][0], pm)] + cuts("set_state"))
            st0 = State()
            p, V, ws = mk_pool(c, eng, st0, n)
            g = eng.gbase("_ZN9redGrapes7Context14current_workerE")
            eng.cfg.pin_bases.add(g)
            setm(eng, st0, g, 0, ws[-1] if inw else 0)
            outs = normal(eng.run(f, [p], st0))
            c.absorb(eng)
            c.instance("find_free_worker, %d workers" % n)
            c.need(len(outs) > 0, "find_free_worker does not return", w)
            for o in outs:
                st = o.st
                need = lambda cond, msg: c.need(cond, "find_free_worker: " + msg, w, eng, st)
                pf = [e for i, e in evs(st, "probe.from")]
                if not need(len(pf) >= 1 and all(e[2] == 1 for e in pf), "does not look for available workers"):
                    continue
                cl = [e for i, e in calls(st, "set_state")]
                need(all(e[4] == 0 for e in cl), "claims in a strange way")
                r = eng.conc(st, o.val)
                won = [e for e in cl if known(eng, st, e[5]) == 1]
                if r == MASK[32]:
                    need(not won, "a claimed worker is not returned")
                else:
                    need(len(won) == 1 and same(eng, st, r, won[0][3]), "returns a worker which was not claimed")


@rule("resource.scope", "C12 C13 C15 C21", minimum=6,
      text="a resource, and the accesses of a task, carry the depth of the scope they were created in; an access tells the resource, the scope and the "
           "synchronising property of what it was made of; entries for the same resource are equal")
def r_scope(c):
    def depth(eng, st, f, args, info):
        v = eng.fresh(st, info.cs, info.i["n"], 32)
        eng.event(st, "depth", v)
        return ret(st, v)

    def gen(eng, st, f, args, info):
        v = eng.fresh(st, info.cs, info.i["n"], 32)
        eng.event(st, "id", v)
        return ret(st, v)
    M = [(lambda f: f.qual in ("redGrapes::scope_depth", CTXT + "::scope_depth"), depth), (lambda f: f.qual == RBASE + "::generateID", gen),
         (lambda f: f.ctx == "redGrapes::ChunkedList" and f.base == "ChunkedList", None)]
    M = M[:2]
    f = c.fn(RBASE + "::ResourceBase")
    w = where(c, f)
    eng = c.engine(models=M)
    st0 = State()
    this = argp(eng, st0, "this", RBASE)
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance("ResourceBase()")
    c.need(len(outs) > 0, "ResourceBase() does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "ResourceBase(): " + msg, w, eng, st)
        d, i = [e for k, e in evs(st, "depth")], [e for k, e in evs(st, "id")]
        need(len(i) == 1 and eng.load(st, eng.ptr(this, c.off(RBASE, "id")), 4) == i[0][1], "the id is not a new one")
        need(len(d) >= 1 and eng.load(st, eng.ptr(this, c.off(RBASE, "scope_level")), 4) in [e[1] for e in d], "the scope level is not the current depth")
    for f in c.fns(RUSER + "::ResourceUser"):
        w = where(c, f)
        copy = len(f.args) == 2 and len(f.types) > 2 and "ResourceUser" in f.types[2]
        eng = c.engine(models=M)
        st0 = State()
        this = argp(eng, st0, "this", RUSER)
        oth = argp(eng, st0, "other", RUSER if copy else None)
        size = c.P.membersize(RUSER, "scope_level")
        lv = argi(eng, st0, "lvl", 8 * size)
        if copy:
            setm(eng, st0, oth, c.off(RUSER, "scope_level"), lv, size)
        args = [this, oth] + [0] * (len(f.args) - 2)
        outs = normal(eng.run(f, args[:len(f.args)], st0))
        c.absorb(eng)
        c.instance(f.d)
        c.need(len(outs) > 0, f.d + " does not return", w)
        for o in outs:
            st = o.st
            v = eng.load(st, eng.ptr(this, c.off(RUSER, "scope_level")), size, w=8 * size)
            d = [e[1] for k, e in evs(st, "depth")]
            if copy:
                c.need(v == lv, "a copied access list has another scope level", w, eng, st)
            else:
                c.need(d and any(eng.cmp(st, "eq", 64, eng.cast(st, "zext", v, 8 * size, 64) if size < 8 else v, eng.cast(st, "zext", x, 32, 64)) == 1 for x in d),
                       "the scope level of a new access list is not the current depth, of any value", w, eng, st)
    AB = RACC + "::AccessBase"
    for name, get in (("scope_level", "scope_level"), ("resource_id", "id"), ("get_resource", None), ("is_synchronizing", "v")):
        fs = c.P.find(RACC + "::" + name)
        for f in fs:
            w = where(c, f)
            eng = c.engine()
            st0 = State()
            this = argp(eng, st0, "this", RACC)
            ob = argp(eng, st0, "obj", AB)
            R = argp(eng, st0, "resource", RBASE)
            setm(eng, st0, this, c.off(RACC, "obj", "_M_ptr"), ob)
            setm(eng, st0, ob, c.off(AB, "resource", "_M_ptr"), R)
            sret = bool(f.args[0].get("sret"))
            slot = ret_slot(eng, st0)
            outs = normal(eng.run(f, ([slot] if sret else []) + [this], st0))
            c.absorb(eng)
            c.instance("ResourceAccess::" + name)
            c.need(len(outs) > 0, name + " does not return", w)
            for o in outs:
                st = o.st
                need = lambda cond, msg: c.need(cond, "ResourceAccess::%s: %s" % (name, msg), w, eng, st)
                if get is None:
                    need(eng.load(st, slot, 8) == R, "is not the resource of the access")
                elif get == "v":
                    v = [e for i, e in evs(st, "vcall")]
                    need(len(v) == 1 and v[0][1].endswith("::is_synchronizing") and v[0][2][0] == ob and same(eng, st, v[0][-1], o.val), "is not what the access says")
                else:
                    need(same(eng, st, o.val, eng.load(st, eng.ptr(R, c.off(RBASE, get)), 4, w=32)), "is not that of the resource")
    for f in c.P.find("redGrapes::Resource::Access::is_synchronizing"):
        w = where(c, f)

        def pol(eng, st, g, args, info):
            v = eng.fresh(st, info.cs, info.i["n"], 1)
            eng.event(st, "policy", args[0], v)
            return ret(st, v)
        eng = c.engine(models=[(lambda g: g.base == "is_synchronizing" and g.qual != "redGrapes::Resource::Access::is_synchronizing", pol)])
        st0 = State()
        this = argp(eng, st0, "this", f.cls or None)
        outs = normal(eng.run(f, [this], st0))
        c.absorb(eng)
        c.instance(f.d)
        c.need(len(outs) > 0, f.d + " does not return", w)
        po = c.off(f.cls, "policy")
        for o in outs:
            e = [x for i, x in evs(o.st, "policy")]
            c.need(len(e) == 1 and e[0][1] == eng.ptr(this, po) and same(eng, o.st, o.val, e[0][2]), "an access does not ask its policy whether it is synchronising", w, eng, o.st)
    for f in c.P.find(RUSER + "::is_superset"):
        w = where(c, f)
        eng = c.engine(models=cuts("ru_superset_of"))
        st0 = State()
        a, b = argp(eng, st0, "a", RUSER), argp(eng, st0, "b", RUSER)
        outs = normal(eng.run(f, [a, b], st0))
        c.absorb(eng)
        c.instance("ResourceUser::is_superset")
        for o in outs:
            e = calls(o.st, "ru_superset_of")
            c.need(len(e) == 1 and e[0][1][2:4] == (a, b) and same(eng, o.st, o.val, e[0][1][4]), "is_superset(a, b) does not tell whether a covers b", w, eng, o.st)
    f = c.fn(ENTRY + "::operator==")
    w = where(c, f)
    for eq in (0, 1):
        eng = c.engine()
        st0 = State()
        a, b = argp(eng, st0, "a", ENTRY), argp(eng, st0, "b", ENTRY)
        r1, r2 = ret_slot(eng, st0, "r1"), ret_slot(eng, st0, "r2")
        for k, x in enumerate((r1, r2)):
            setm(eng, st0, x, c.off(RBASE, "id"), 7 + k, 4)
        setm(eng, st0, a, c.off(ENTRY, "resource", "_M_ptr"), r1)
        setm(eng, st0, b, c.off(ENTRY, "resource", "_M_ptr"), r1 if eq else r2)
        outs = normal(eng.run(f, [a, b], st0))
        c.absorb(eng)
        c.need(len(outs) > 0 and all(eng.conc(o.st, o.val) == eq for o in outs), "entries are not equal exactly if their resources are", w)
    c.instance("ResourceUsageEntry")


@rule("guard.deref", "C15", minimum=4, text="a guard of an IO resource gives access to the object of its resource, and to nothing else")
def r_deref(c):
    n = 0
    for cls in ("redGrapes::ioresource::ReadGuard", "redGrapes::ioresource::WriteGuard"):
        for name in ("get", "operator*", "operator->"):
            for f in c.P.find(cls + "::" + name):
                eng = c.engine()
                st0 = State()
                this = argp(eng, st0, "this", f.cls)
                ob = argp(eng, st0, "object")
                setm(eng, st0, this, c.off(f.cls, "obj", "_M_ptr"), ob)
                outs = normal(eng.run(f, [this], st0))
                c.absorb(eng)
                c.instance(f.d)
                n += 1
                c.need(len(outs) > 0 and all(o.val == ob for o in outs), "%s does not give the object of the resource" % f.d, where(c, f))
