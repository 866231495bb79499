"""Creation of tasks and consumption of their results."""
from lib import *
from r_context import cur_task, G_CUR
from r_task import bodies
from r_access import Io
from r_guard import policy_off, RACC, RB

SUBMIT = "redGrapes::TaskSpace::submit"
G_ARENA = "_ZN9redGrapes7Context13current_arenaE"
G_NEXT = "_ZN9redGrapes7Context11next_workerE"


def submit_model(c):
    """TaskSpace::submit (rule space.submit): the task knows its space and itself afterwards"""
    def h(eng, st, f, args, info):
        eng.event(st, "call", "submit", args[0], args[1])
        eng.store(st, eng.padd(args[1], c.off(TASK, "task")), args[1], 8)
        eng.store(st, eng.padd(args[1], c.off(TASK, "space", "_M_ptr")), args[0], 8)
        return [Outcome("ret", st, None)]
    return [(lambda f: f.qual == SUBMIT, h)]


def root(c, eng, st):
    """top-level space of the singleton context"""
    g = [n for n in c.P.globals if "SingletonContext3getEvE3ctx" in n and not n.startswith("_ZGV")]
    if not g:
        raise Missing("SingletonContext instance")
    b = eng.gbase(g[0])
    R = argp(eng, st, "root_space", TSPACE)
    eng.store(st, eng.padd(b, c.off(CTXT, "root_space", "_M_ptr")), R, 8)
    return b, R


SCEN = {
    # name: (driver entry, future consumed/dropped inside)
    "dropped": ("emplace_int", "drop"), "dropped void": ("emplace_void", "drop"),
    "get": ("emplace_int_get", "get"), "get void": ("emplace_void_get", "get"),
    "submit": ("emplace_int_submit", "keep"), "submit void": ("emplace_void_submit", "keep"),
    "arguments": ("emplace_args", "drop"), "properties": ("emplace_res", "drop"), "add resource": ("emplace_add_res", "drop"),
    "tags": ("emplace_tags", "drop"), "arguments which create tasks": ("emplace_own", "drop"),
}


def own_model(c):
    """building the properties of an argument is up to the user: it may create other tasks, which changes the current arena"""
    def h(eng, st, f, args, info):
        eng.event(st, "user", f.base, tuple(args))
        for g in (G_ARENA, G_NEXT):
            eng.store(st, eng.gbase(g), sym(("own", g), 32), 4)
        return [Outcome("ret", st, None)]
    return [(lambda f: f.ctx == "drv" and f.base == "build_own", h)]


def run_emplace(c, entry, hook=None, cut=(), init=None):
    f = c.drv(entry)
    eng = c.engine(models=submit_model(c) + own_model(c) + cuts("alloc", "dealloc", "notify", "yield", *cut))
    if hook:
        hook(eng)
    st = State()
    cur_task(c, eng, st, 0)
    ctx, R = root(c, eng, st)
    args = []
    k = 0
    if f.args and f.args[0].get("sret"):
        args.append(obj(st, "ret"))
        k = 1
    for j in range(k, len(f.args)):
        t = f.types[1 + j - k] if len(f.types) > 1 + j - k else ""
        args.append(argp(eng, st, "a%d" % j, t[:-1] if t[-1:] in "*&" else None) if t[-1:] in ("*", "&") else argi(eng, st, "n%d" % j))
    if init:
        init(eng, st, args[k:])
    outs = eng.run(f, args, st)
    c.absorb(eng)
    return f, eng, outs, R, ctx


@rule("builder.submit", "C05 C06 C07 C16 C21 C24 C02", minimum=8,
      text="each way to create a task allocates storage for it, initialises it completely, gives it one new id and the current arena, submits it "
           "exactly once to the current space, does not write to it any more afterwards, and consumes its result right exactly once")
def r_submit(c):
    tg = tags(c)
    actor = [f for f in c.fns("redGrapes::memory::Allocator::Allocator") if len(f.types) > 2]
    if not actor:
        raise Missing("Allocator(WorkerId)")
    actor = actor[0]
    for name, (entry, fut) in SCEN.items():

        def hook(eng):
            arena = eng.gbase(G_ARENA)
            eng.cfg.pin_bases.add(arena)

            def on_access(eng_, st, b, o, size, iswrite):
                if iswrite and isinstance(b, tuple) and b[0] == "s" and b[1][0] == "c":
                    if any(e[1] == "submit" and e[3] == b for i, e in evs(st, "call")):
                        c.need(False, "creating a task (%s): the task is written to after its submission" % name, where(c, f0), eng_, st)

            eng.cfg.on_access = on_access
        f0 = c.drv(entry)
        f, eng, outs, R, ctx = run_emplace(c, entry, hook, cut=("add_access",))
        w = where(c, f)
        c.instance(name)
        ok = normal(outs)
        c.need(len(ok) > 0, "creating a task (%s) does not return" % name, w)
        for o in outs:
            if o.kind == "throw":
                c.need(not calls(o.st, "submit"), "creating a task (%s): fails after the task was submitted" % name, w, eng, o.st)
        for o in ok:
            st = o.st
            need = lambda cond, msg: c.need(cond, "creating a task (%s): %s" % (name, msg), w, eng, st)
            su = calls(st, "submit")
            al = [(i, e) for i, e in calls(st, "alloc")]
            need(len(su) == 1, "the task is submitted %d times" % len(su))
            if len(su) != 1:
                continue
            T = su[0][1][3]
            need(su[0][1][2] == R, "the task is submitted to the wrong space")
            a = [(i, e) for i, e in al if isinstance(e[4], tuple) and e[4][0] == "agg" and e[4][1][0] == T]
            need(len(a) == 1, "the task is not allocated from the arena allocator")
            need(eng.conc(st, T) != 0 and eng.cmp(st, "eq", 64, T, 0) == 0, "allocation failure is not noticed")
            if a:
                ts = [t for o_, t in eng.btypes.get(T, {}).items() if o_ == 0]
                sz = max([c.P.size(t) for t in ts] or [0])
                ln = eng.conc(st, a[0][1][3])
                need(isint(ln) and sz > 0 and ln >= sz, "%s bytes are allocated for a task of %s bytes" % (eng.show(ln), sz))
                need(a[0][0] < su[0][0], "allocated after submission")
            ids = [(i, e) for i, e in evs(st, "rmw") if "id_counter" in eng.show(e[2]) or rmw_add(e, 64) == 1]
            ids = [(i, e) for i, e in ids if rmw_add(e, 64) == 1 or rmw_add(e, 32) == 1]
            need(len(ids) == 1 and ids[0][0] < su[0][0], "the task must get exactly one new id before its submission")
            ido = c.off(TASK, "task_id")
            if ids:
                v = eng.load(st, eng.ptr(T, ido), 4, w=32)
                need(ticket(eng, st, v, 32) == ids[0][1], "the id is not the new one")
            # arena
            aid = eng.load(st, eng.ptr(T, c.off(TASK, "arena_id")), 4, w=32)
            if a:
                # the arena which free_task (rule space.free_task) gives the storage back to
                al2 = obj(st, "alloc2")
                for st2, v2 in seq(eng, st, lambda st: (actor, [al2, aid])):
                    w2 = eng.load(st2, eng.padd(al2, c.off("redGrapes::memory::Allocator", "worker_id")), 4, w=32)
                    need(valfield(a[0][1][2], "worker_id") == w2, "the task does not remember the arena it was allocated from")
            # initial state of the task
            need(eng.conc(st, eng.load(st, eng.ptr(T, c.off(TASK, "removal_countdown")), 4)) == 2, "removal countdown is not 2")
            for n in EVFIELD.values():
                need(eng.conc(st, eng.load(st, eng.ptr(T, c.off(TASK, n, "state")), 4)) == 1, "%s does not have one pending edge" % n)
            need(eng.conc(st, eng.load(st, eng.ptr(T, c.off(TASK, "event", "_M_payload", "_M_engaged")), 1)) == 0, "a new task is paused")
            for n in ("yield_cont", "resume_cont"):
                need(eng.conc(st, eng.load(st, eng.ptr(T, c.off(TASK, n, "_M_payload", "_M_engaged")), 1)) == 0, "a new task has a stack")
            sw = eng.conc(st, eng.load(st, eng.ptr(T, c.off(TASK, "enable_stack_switching")), 1))
            need(sw == (1 if name == "properties" else 0), "stack switching is %s" % eng.show(sw))
            need(eng.load(st, eng.ptr(T, c.off(TASK, "children", "_M_ptr")), 8) == 0, "a new task has children")
            # result
            nt = [(i, e) for i, e in calls(st, "notify")]
            yl = calls(st, "yield")
            need(all(evpval(e[2])[:2] == (tg["RES_GET"], T) for i, e in nt), "notifies something else than the consumption of the result")
            need(len(nt) == (0 if fut == "keep" else 1), "the result is consumed %d times" % len(nt))
            need(len(yl) == (1 if fut == "get" else 0), "waits %d times for the result" % len(yl))
            need(all(i > su[0][0] for i, e in nt + yl), "the result is used before submission")


@rule("builder.space", "C24 C01 C04", minimum=2,
      text="a task which is created while a task runs is submitted to the child space of that task, also when the space existed before")
def r_builder_space(c):
    for name in ("dropped", "submit"):
        entry, fut = SCEN[name]
        box = {}

        def init(eng, st, args):
            X = box["X"] = mk_task(c, eng, st, "parent")
            K = box["K"] = argp(eng, st, "children", TSPACE)
            setm(eng, st, X, c.off(TASK, "children", "_M_ptr"), K)
            cur_task(c, eng, st, X)
        f, eng, outs, R, ctx = run_emplace(c, entry, cut=("add_access",), init=init)
        w = where(c, f)
        c.instance(name)
        c.need(len(normal(outs)) > 0, "creating a task inside of a task (%s) does not return" % name, w)
        for o in normal(outs):
            su = calls(o.st, "submit")
            c.need(len(su) == 1 and su[0][1][2] == box["K"], "creating a task inside of a task (%s): not submitted to the child space of the current task" % name, w, eng, o.st)
            c.need(eng.load(o.st, eng.gbase(G_CUR), 8) == box["X"], "creating a task changes the current task", w, eng, o.st)


ACC = {"emplace_args": ("read", "write"), "emplace_res": ("read", "write"), "emplace_add_res": ("read",)}


@rule("builder.access", "C15 C01 C02", minimum=3,
      text="each access declared for a task, by an argument or by a property, is registered with the task, on the resource and with the mode it was "
           "declared with, before the task is submitted, and nothing else is registered")
def r_builder_access(c):
    io = Io(c)
    P = "redGrapes::access::IOAccess"
    names = dict((v, k) for k, v in io.m.items())
    for entry, modes in ACC.items():
        bases = []

        def init(eng, st, args):
            f = c.drv(entry)
            del bases[:]
            for k in range(len(modes)):
                b = argp(eng, st, "base%d" % k, RB)
                setm(eng, st, args[k], c.off(f.types[1 + k].rstrip("&"), "base", "_M_ptr"), b)
                bases.append(b)
        f, eng, outs, R, ctx = run_emplace(c, entry, cut=("add_access", "build_unique"), init=init)
        w = where(c, f)
        c.instance(entry)
        what = "creating a task (%s): " % entry
        c.need(len(normal(outs)) > 0, what + "does not return", w)
        al = c.off(RUSER, "access_list")
        for o in normal(outs):
            st = o.st
            need = lambda cond, msg: c.need(cond, what + msg, w, eng, st)
            su = calls(st, "submit")
            if len(su) != 1:
                continue
            U = ruser_of(c, eng, su[0][1][3])
            al_ = eng.ptr(U, al)
            got, last = [], None
            for i, e in enumerate(st.trace):
                if e[0] == "call" and e[1] == "add_access":
                    need(e[2] == U, "accesses are registered with another task")
                elif e[0] == "push" and e[1] == al_:
                    last = i
                else:
                    continue
                need(i < su[0][0], "an access is registered after the task was submitted")
                ob = valfield(e[3] if e[0] == "call" else e[2], "obj._M_ptr")
                r = eng.load(st, eng.ptr(ob, c.off(RACC + "::AccessBase", "resource", "_M_ptr")), 8)
                m = eng.conc(st, eng.load(st, eng.ptr(ob, policy_off(c, P)), 4))
                got.append((r, names.get(m, eng.show(m))))
            if last is not None:
                bu = [i for i, e in calls(st, "build_unique") if e[2] == U]
                need(bu and last < bu[-1] < su[0][0], "the resources of the task are not collected after its accesses were set")
            want = list(zip(bases, modes))
            for r, m in want:
                need((r, m) in got, "the declared %s access is not registered (registered: %s)" % (m, ", ".join("%s of %s" % (b, eng.show(a)) for a, b in got) or "nothing"))
            for g in got:
                need(g in want, "a %s access of %s is registered" % (g[1], eng.show(g[0])))


@rule("builder.move", "C05 C06", minimum=4,
      text="moving (or copying) a task builder transfers the right to submit: of all builders and calls exactly one submits the task, to the space "
           "it was created for")
def r_move(c):
    B = None
    for n in c.fns("drv::builder_destroy"):
        B = n.types[1].rstrip("*")
    fd, fm, fc, fs, fg = (c.drv("builder_" + x) for x in ("destroy", "move", "copy", "submit", "get"))
    for mv in (None, fm, fc):
        for end in ("destroy", "submit", "get"):
            eng = c.engine(models=submit_model(c) + cuts("notify", "yield", "alloc", "dealloc"))
            st0 = State()
            cur_task(c, eng, st0, 0)
            root(c, eng, st0)
            T = argp(eng, st0, "task", TASK)
            S = argp(eng, st0, "space", TSPACE)
            b1 = obj(st0, "builder1")
            b2 = obj(st0, "builder2")
            eng.settype(b1, 0, B)
            eng.settype(b2, 0, B)
            setm(eng, st0, b1, c.off(B, "task"), T)
            setm(eng, st0, b1, c.off(B, "space", "_M_ptr"), S)
            setm(eng, st0, b1, c.off(B, "space", "_M_ptr") + 8, sym(("arg", "count")))
            setm(eng, st0, b1, c.off(B, "builder"), b1)
            steps = []
            last = b1
            if mv is not None:
                steps.append(lambda st: (mv, [b2, b1]))
                last = b2
            fut = obj(st0, "future")
            if end == "submit":
                steps.append(lambda st: (fs, ([fut] if fs.args[0].get("sret") else []) + [last]))
            elif end == "get":
                steps.append(lambda st: (fg, [last]))
            if mv is not None:
                steps.append(lambda st: (fd, [b1]))
            steps.append(lambda st: (fd, [last]))
            res = seq(eng, st0, *steps)
            c.absorb(eng)
            what = "builder %s, then %s" % ("moved" if mv is fm else "copied" if mv is fc else "kept", end)
            c.instance(what)
            w = where(c, mv or fd)
            c.need(len(res) > 0, what + ": does not return", w)
            for st, vals in res:
                su = calls(st, "submit")
                c.need(len(su) == 1 and su[0][1][3] == T and su[0][1][2] == S, what + ": the task is submitted %d times" % len(su), w, eng, st)
                if mv is not None:
                    c.need(eng.load(st, eng.ptr(b2, c.off(B, "builder")), 8) == b2, what + ": properties are set on the former builder", w, eng, st)


@rule("builder.arguments", "C05", minimum=1,
      text="the callable of a task is invoked with the arguments the task was created with")
def r_arguments(c):
    f, eng, outs, R, ctx = run_emplace(c, "emplace_args", cut=("add_access",))
    w = where(c, f)
    eng.cfg.models[:0] = bodies()
    eng._modelcache.clear()
    want = ("s", ("L", sym(("arg", "a2")), 0, 4), 32)

    def on_event(eng_, st, ev):
        if ev[0] == "user" and ev[1] == "body_args":
            v = eng_.load(st, ev[2][2], 4, w=32)
            c.need(v in (want, sym(("arg", "n2"), 32)), "the argument is not passed unchanged: %s" % eng_.show(v), w, eng_, st)
    eng.cfg.on_event = on_event
    for o in normal(outs):
        su = calls(o.st, "submit")
        if not su:
            continue
        T = su[0][1][3]
        ts = [t for o_, t in eng.btypes.get(T, {}).items() if "FunTask" in t]
        rr = [g for g in c.fns("redGrapes::FunTask::run_result") if g.cls in ts]
        if not c.need(len(rr) == 1, "callable of a task with arguments not found", w):
            continue
        c.instance("resources and value")
        for st, vals in seq(eng, o.st, lambda st: (rr[0], [T])):
            us = [e for i, e in evs(st, "user") if e[1] == "body_args"]
            c.need(len(us) == 1, "the callable with arguments is invoked %d times" % len(us), w, eng, st)


FUT = "redGrapes::Future"


@rule("future.protocol", "C07 C05 C06", minimum=8,
      text="get() waits for the result-set event, then reads the result of the task and then gives up the right to it; moving transfers that "
           "right; whatever is done, the result is released exactly once and never before the last future is gone or get() has read it")
def r_future(c):
    tg = tags(c)
    for R, sfx in (("int", ""), ("void", "_void"), ("std::string", "_str")):
        ctors = [f for f in c.fns(FUT + "::Future") if len(f.types) > 2 and f.types[2].startswith(TASK + "&") and tmplarg(f.cls).startswith(
            {"int": "int", "void": "void", "std::string": "std::"}[R])]
        if R == "std::string" and not ctors:
            ctors = [None]
        if not ctors:
            raise Missing("constructor of Future<%s>" % R)
        get = c.drv("fut_get" + sfx)
        mv = c.drv("fut_move" + sfx) if R != "std::string" else None
        dt = c.drv("fut_dtor" + sfx) if R != "std::string" else None
        scen = {"dropped": "d1", "get": "g1 d1", "moved": "m d1 d2", "moved, get": "m g2 d1 d2", "get, moved": "g1 m d1 d2", "moved, destroyed in reverse": "m d2 d1"}
        if R == "std::string":
            scen = {"get": "g1"}
        for name, steps in scen.items():
            eng = c.engine(models=cuts("notify", "yield"))
            st0 = State()
            T = mk_task(c, eng, st0, "task")
            f1, f2 = obj(st0, "f1"), obj(st0, "f2")
            what = "future of %s, %s" % (R, name)
            w = where(c, get)

            def on_access(eng_, st, b, o, size, iswrite):
                vc = vcalls(st, "get_result_data")
                if any(len(e) > 3 and e[3] == b for i, e in vc):
                    y, n = calls(st, "yield"), calls(st, "notify")
                    c.need(len(y) >= 1, what + ": the result is read before it is awaited", w, eng_, st)
                    c.need(not n, what + ": the result is read after it was released", w, eng_, st)
            eng.cfg.on_access = on_access

            def on_event(eng_, st, ev):
                if ev[0] == "call" and ev[1] == "notify" and "g" in steps and R != "void":
                    c.need(bool(vcalls(st, "get_result_data")), what + ": the result is released before it was read", w, eng_, st)
            eng.cfg.on_event = on_event
            todo = []
            if ctors[0] is not None:
                todo.append(lambda st: (ctors[0], [f1, T]))
            else:
                FT = get.types[1].rstrip("&")
                setm(eng, st0, f1, c.off(FT, "taken"), 0, 1)
                setm(eng, st0, f1, c.off(FT, "task"), T)
            for s in steps.split():
                if s == "m":
                    todo.append(lambda st: (mv, [f2, f1]))
                elif s[0] == "d":
                    todo.append(lambda st, x=f1 if s[1] == "1" else f2: (dt, [x]))
                else:
                    todo.append(lambda st, x=f1 if s[1] == "1" else f2: (get, ([obj(st, "str")] if get.args[0].get("sret") else []) + [x]))
            res = seq(eng, st0, *todo)
            c.absorb(eng)
            c.instance(what)
            c.need(len(res) > 0, what + ": does not return", w)
            for st, vals in res:
                nt, yl = calls(st, "notify"), calls(st, "yield")
                need = lambda cond, msg: c.need(cond, what + ": " + msg, w, eng, st)
                need(len(nt) == 1 and evpval(nt[0][1][2])[:2] == (tg["RES_GET"], T), "the result is released %d times" % len(nt))
                need(len(yl) == (1 if "g" in steps else 0), "waits %d times" % len(yl))
                if yl:
                    need(evpval(yl[0][1][3])[:2] == (tg["RES_SET"], T), "waits for the wrong event")
                    need(not nt or yl[0][0] < nt[0][0], "the result is released before it is available")
                if "g" in steps and R == "int":
                    vc = vcalls(st, "get_result_data")
                    k = [j for j, s in enumerate(["c"] + steps.split()) if s[0] == "g"][0]
                    need(len(vc) >= 1 and vals[k] == eng.load(st, vc[0][1][3], 4, w=32), "get() returns something else than the result")
                    need(all(e[2][0] == T for i, e in vc), "the result of another task is read")
    # premature release: a moved-from or live future must not release early
    for R, sfx in (("int", ""), ("void", "_void")):
        dt, mv = c.drv("fut_dtor" + sfx), c.drv("fut_move" + sfx)
        ctor = [f for f in c.fns(FUT + "::Future") if len(f.types) > 2 and f.types[2].startswith(TASK + "&") and tmplarg(f.cls) == R]
        eng = c.engine(models=cuts("notify", "yield"))
        st0 = State()
        T = mk_task(c, eng, st0, "task")
        f1, f2 = obj(st0, "f1"), obj(st0, "f2")
        for st, vals in seq(eng, st0, lambda st: (ctor[0], [f1, T]), lambda st: (mv, [f2, f1]), lambda st: (dt, [f1])):
            c.need(not calls(st, "notify"), "future of %s: a moved-from future releases the result" % R, where(c, mv), eng, st)
        c.absorb(eng)
        c.instance("moved-from future of %s" % R)


@rule("future.ready", "C07", minimum=2,
      text="is_ready() is true exactly if the result-set event of the task is reached")
def r_ready(c):
    for sfx in ("", "_void"):
        f = c.drv("fut_ready" + sfx)
        FT = f.types[1].rstrip("&").replace(" const", "").replace("const ", "")
        for lo, hi in ((0, 0), (1, MASK[32])):
            eng = c.engine()
            st0 = State()
            T = mk_task(c, eng, st0, "task")
            ctor = [g for g in c.fns(FUT + "::Future") if len(g.types) > 2 and g.types[2].startswith(TASK + "&") and g.cls == FT]
            if not ctor:
                raise Missing("constructor of " + FT)
            f1 = obj(st0, "f1")
            so = c.off(TASK, "result_set_event", "state")
            eng.cfg.pinned.add((T, so))
            setm(eng, st0, T, so, argi(eng, st0, "state", 32, lo, hi), 4)
            res = seq(eng, st0, lambda st: (ctor[0], [f1, T]), lambda st: (f, [f1]))
            c.absorb(eng)
            c.instance("%s %s" % (FT, "reached" if hi == 0 else "pending"))
            c.need(len(res) > 0, "is_ready does not return", where(c, f))
            for st, vals in res:
                c.need(eng.conc(st, vals[-1]) == int(hi == 0), "is_ready() of a %s result is %s" % ("set" if hi == 0 else "pending", eng.show(eng.conc(st, vals[-1]))), where(c, f), eng, st)
