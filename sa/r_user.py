"""Lists of accesses of a task: conflict, superset, registration."""
from lib import *

RACC = "redGrapes::ResourceAccess"
RB = "redGrapes::ResourceBase"
RUE = "redGrapes::ResourceUsageEntry"


def setup(c, eng, st, *names):
    r = []
    for n in names:
        u = argp(eng, st, n, RUSER)
        r += [u, eng.ptr(u, c.off(RUSER, "access_list"))]
    return r


def res_of(c, eng, st, acc):
    """resource of the access at an address"""
    o = eng.load(st, eng.ptr(acc, c.off(RACC, "obj", "_M_ptr")), 8)
    eng.settype(o, 0, RACC + "::AccessBase")
    return eng.load(st, eng.ptr(o, c.off(RACC + "::AccessBase", "resource", "_M_ptr")), 8)


def ended(eng, st, lst, evl):
    cur = []
    for e in evl:
        if e[0] == "it.begin" and e[1] == lst:
            cur = [e[2]]
        elif e[0] == "it.next" and e[1] in cur:
            cur.append(e[2])
    return any(same(eng, st, p, REND) for p in cur)


def answers(eng, st, evl, name, *args):
    """known results of the calls name(args...)"""
    r = []
    for e in evl:
        if e[0] == "call" and e[1] == name and tuple(e[2:2 + len(args)]) == args:
            r.append(known(eng, st, e[-1]))
    return r


@rule("user.serial", "C11 C01 C14", minimum=1,
      text="two tasks conflict exactly if some access of the one conflicts with some access of the other: true is returned only after such a pair was "
           "found, false only after all pairs were tested")
def r_serial(c):
    f = c.fn(RUSER + "::is_serial")
    w = where(c, f)
    eng = c.engine(models=cuts("ra_serial"))
    st0 = State()
    a, la, b, lb = setup(c, eng, st0, "a", "b")
    need = lambda st, cond, msg: c.need(cond, "ResourceUser::is_serial: " + msg, w, eng, st)

    def pos(st):
        """(outer list, inner list, outer position)"""
        first = [e for e in st.trace if e[0] == "it.begin" and e[1] in (la, lb)]
        if not first:
            return None, None, None
        o = first[0][1]
        ch = chain(st, o)
        return o, (lb if o == la else la), ch[-1]

    def inner_ok(st, o, p):
        x, y = elem(o), elem(p)
        r = answers(eng, st, since(st, p), "ra_serial", x, y) + answers(eng, st, since(st, p), "ra_serial", y, x)
        return r and all(k == 0 for k in r)

    def on_next(eng_, st, p):
        ol, il, o = pos(st)
        if p == o:
            need(st, ended(eng, st, il, since(st, o)), "an access is not compared with all accesses of the other task")
            forget(st, p)
        elif p in chain(st, il):
            need(st, inner_ok(st, o, p), "the search goes on without having found that a pair does not conflict")
            forget(st, p)
    eng.cfg.on_next = on_next
    outs = normal(eng.run(f, [a, b], st0))
    c.absorb(eng)
    c.instance(f.d)
    vals = set()
    for o in outs:
        st = o.st
        v = eng.conc(st, o.val)
        if not isint(v):
            cl = [e for i, e in calls(st, "ra_serial")] if False else [e for e in st.trace if e[0] == "call" and e[1] == "ra_serial"]
            need(st, cl and v == cl[-1][-1] and False, "the result is not decided by the tests")
            continue
        vals.add(v)
        if v:
            need(st, any(e[0] == "call" and e[1] == "ra_serial" and known(eng, st, e[-1]) == 1 for e in st.trace), "reports a conflict although no pair conflicts")
        else:
            ol, il, op = pos(st)
            need(st, ol is not None and ended(eng, st, ol, st.trace), "reports no conflict before all accesses were compared")
            need(st, not any(e[0] == "call" and e[1] == "ra_serial" and known(eng, st, e[-1]) == 1 for e in st.trace), "reports no conflict although a pair conflicts")
    c.need(vals == {0, 1}, "ResourceUser::is_serial does not tell conflicts apart", w)


@rule("user.superset", "C12 C13 C30", minimum=1,
      text="a task covers another one exactly if each access of the other one to a resource of this or an outer scope is covered by one of its own")
def r_superset(c):
    f = c.fn(RUSER + "::is_superset_of")
    w = where(c, f)
    eng = c.engine(models=cuts("ra_superset", "ra_scope"))
    st0 = State()
    this, lt, a, la = setup(c, eng, st0, "this", "a")
    size = c.P.membersize(RUSER, "scope_level")
    lvl = argi(eng, st0, "level", 8 * size)
    setm(eng, st0, this, c.off(RUSER, "scope_level"), lvl, size)
    need = lambda st, cond, msg: c.need(cond, "ResourceUser::is_superset_of: " + msg, w, eng, st)

    def outer(st):
        ch = chain(st, la)
        return ch[-1] if ch else None

    def scope_ok(st, o):
        """1: new resource of an inner scope, 0: not"""
        r = None
        for e in since(st, o):
            if e[0] == "call" and e[1] == "ra_scope" and e[2] == elem(o):
                k = eng.cmp(st, "ult", 32, eng.cast(st, "zext", lvl, 8 * size, 32) if size < 4 else lvl, e[-1])
                k = k if isint(k) else None
                if k is not None:
                    r = k
        return r

    def on_event(eng_, st, e):
        if e[0] == "it.begin" and e[1] == lt:
            st.aux["found"] = 0

    def settle(st, o, p):
        r = answers(eng, st, since(st, p), "ra_superset", elem(p), elem(o))
        if 1 in r:
            st.aux["found"] = 1
        return r

    def on_next(eng_, st, p):
        o = outer(st)
        if p == o:
            last = chain(st, lt)
            if last and last[-1] != REND and not same(eng, st, last[-1], REND):
                settle(st, o, last[-1])
            need(st, st.aux.get("found") == 1 or scope_ok(st, o) == 1, "an access is passed over although it is not covered")
            forget(st, p)
            st.aux["found"] = 0
        elif p in chain(st, lt):
            r = settle(st, o, p)
            need(st, r and None not in r, "an own access is not tested")
            forget(st, p)
    eng.cfg.on_event = on_event
    eng.cfg.on_next = on_next
    outs = normal(eng.run(f, [this, a], st0))
    c.absorb(eng)
    c.instance(f.d)
    vals = set()
    for x in outs:
        st = x.st
        v = eng.conc(st, x.val)
        vals.add(v)
        o = outer(st)
        need(st, v in (0, 1), "the result is not decided by the tests")
        if v == 1:
            need(st, ended(eng, st, la, st.trace), "reports a superset before all accesses were tested")
        elif v == 0:
            need(st, o is not None and not same(eng, st, o, REND), "reports no superset although all accesses are covered")
            if o is not None:
                need(st, ended(eng, st, lt, since(st, o)) and not st.aux.get("found"), "reports no superset although an own access may cover it")
                need(st, scope_ok(st, o) == 0, "reports no superset although the resource was introduced by an inner scope")
    c.need(vals == {0, 1}, "ResourceUser::is_superset_of does not tell supersets apart", w)


@rule("user.sync", "C11 C01 C12", minimum=1,
      text="a task is said to have a synchronizing access to a resource only if one of its accesses is synchronizing and belongs to that resource")
def r_sync(c):
    f = c.fn(RUSER + "::has_sync_access")
    w = where(c, f)
    eng = c.engine(models=cuts("ra_sync"))
    st0 = State()
    this, lt = setup(c, eng, st0, "this")
    R = argp(eng, st0, "res", RB)
    p = argp(eng, st0, "res.sp")
    setm(eng, st0, p, 0, R)
    eng.cfg.on_next = lambda eng_, st, q: forget(st, q)
    outs = normal(eng.run(f, [this, p], st0))
    c.absorb(eng)
    c.instance(f.d)
    vals = set()
    for o in outs:
        st = o.st
        v = eng.conc(st, o.val)
        vals.add(v if isint(v) else 2)
        if v == 0:
            continue
        ch = chain(st, lt)
        good = False
        for q in ch:
            k = answers(eng, st, since(st, q), "ra_sync", elem(q))
            sy = 1 in k or (not isint(v) and any(e[-1] == v for e in st.trace if e[0] == "call" and e[1] == "ra_sync"))
            if sy and same(eng, st, res_of(c, eng, st, elem(q)), R):
                good = True
        c.need(good, "ResourceUser::has_sync_access: reports a synchronizing access which was not found", w, eng, st)
    c.need(len(vals) > 0, "has_sync_access does not return", w)


def entry_is(c, st, v, R, eng):
    return same(eng, st, valfield(v, "resource._M_ptr"), R)


@rule("user.add", "C01 C11 C14 C15 C13", minimum=1,
      text="adding an access appends exactly it to the accesses, and its resource to the resources of the task unless it is there already")
def r_add(c):
    f = c.fn(RUSER + "::add_resource_access")
    w = where(c, f)
    eng = c.engine()
    st0 = State()
    this, lt = setup(c, eng, st0, "this")
    ur = eng.ptr(this, c.off(RUSER, "unique_resources"))
    ra = argp(eng, st0, "ra", RACC)
    ob = argp(eng, st0, "ra.obj", RACC + "::AccessBase")
    setm(eng, st0, ra, c.off(RACC, "obj", "_M_ptr"), ob)
    R = argp(eng, st0, "R", RB)
    setm(eng, st0, ob, c.off(RACC + "::AccessBase", "resource", "_M_ptr"), R)
    ro = c.off(RUE, "resource", "_M_ptr")

    def on_next(eng_, st, p):
        if p in chain(st, ur):
            if same(eng, st, eng.load(st, eng.ptr(elem(p), ro), 8), R):
                st.aux["have"] = 1
            forget(st, p)
    eng.cfg.on_next = on_next
    outs = normal(eng.run(f, [this, ra], st0))
    c.absorb(eng)
    c.instance(f.d)
    kinds = set()
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "add_resource_access: " + msg, w, eng, st)
        pa = [e for e in st.trace if e[0] == "push" and e[1] == lt]
        need(len(pa) == 1 and same(eng, st, valfield(pa[0][2], "obj._M_ptr"), ob), "the access is not added exactly once")
        pu = [e for e in st.trace if e[0] == "push" and e[1] == ur]
        other = [e for e in st.trace if e[0] in ("remove", "erase", "list.assign") or (e[0] == "push" and e[1] not in (lt, ur))]
        need(not other, "other entries are changed")
        ch = chain(st, ur)
        have = st.aux.get("have") or (ch and any(same(eng, st, eng.load(st, eng.ptr(elem(q), ro), 8), R) for q in ch if not same(eng, st, q, REND)))
        kinds.add(len(pu))
        if pu:
            need(len(pu) == 1 and entry_is(c, st, pu[0][2], R, eng), "the resource is not added exactly once")
            need(not have, "the resource is added although it is there already")
            need(ended(eng, st, ur, st.trace), "the resource is added without having searched all resources")
        else:
            need(have, "the resource of the access is not added")
    c.need(1 in kinds, "add_resource_access never adds a resource", w)


@rule("user.remove", "C14 C28 C13", minimum=1, text="removing an access erases exactly the accesses equal to it")
def r_remove(c):
    f = c.fn(RUSER + "::rm_resource_access")
    w = where(c, f)
    eng = c.engine()
    st0 = State()
    this, lt = setup(c, eng, st0, "this")
    ra = argp(eng, st0, "ra", RACC)
    ob = argp(eng, st0, "ra.obj", RACC + "::AccessBase")
    setm(eng, st0, ra, c.off(RACC, "obj", "_M_ptr"), ob)
    outs = normal(eng.run(f, [this, ra], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "rm_resource_access does not return", w)
    for o in outs:
        er = [e for e in o.st.trace if e[0] in ("erase", "remove", "push", "list.assign")]
        if any(e[0] == "remove" for e in er) and not any(e[0] == "erase" for e in er):
            raise Missing("rm_resource_access removes by position")
        c.need(len(er) == 1 and er[0][0] == "erase" and er[0][1] == lt and same(eng, o.st, valfield(er[0][2], "obj._M_ptr"), ob),
               "rm_resource_access does not erase exactly this access", w, eng, o.st)


@rule("user.unique", "C01 C06", minimum=1,
      text="after building the list of resources it has exactly one entry, not registered anywhere, for the resource of each access")
def r_unique(c):
    f = c.fn(RUSER + "::build_unique_resource_list")
    w = where(c, f)
    eng = c.engine()
    st0 = State()
    this, lt = setup(c, eng, st0, "this")
    ur = eng.ptr(this, c.off(RUSER, "unique_resources"))

    def on_next(eng_, st, p):
        if p not in chain(st, lt):
            return
        need = lambda cond, msg: c.need(cond, "build_unique_resource_list: " + msg, w, eng, st)
        R = res_of(c, eng, st, elem(p))
        ops = [e for e in since(st, p) if e[0] in ("push", "erase", "remove") and e[1] == ur]
        ps = [i for i, e in enumerate(ops) if e[0] == "push"]
        es = [i for i, e in enumerate(ops) if e[0] == "erase"]
        if not es and any(e[0] == "it.begin" and e[1] == ur for e in since(st, p)):
            raise Missing("build_unique_resource_list searches instead of erasing")
        need(len(ps) == 1 and entry_is(c, st, ops[ps[0]][2], R, eng), "the resource of an access is not added once")
        need(any(i < (ps or [0])[0] and entry_is(c, st, ops[i][2], R, eng) for i in es), "former entries of the resource are not removed")
        forget(st, p)
    eng.cfg.on_next = on_next
    outs = normal(eng.run(f, [this], st0))
    c.absorb(eng)
    c.instance(f.d)
    c.need(len(outs) > 0, "build_unique_resource_list does not return", w)
    for o in outs:
        loops_complete(c, eng, o.st, lt, "build_unique_resource_list", w)
