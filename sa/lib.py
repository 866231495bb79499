"""helpers for rules"""
from ctx import *

TASK = "redGrapes::Task"
EVENT = "redGrapes::scheduler::Event"
EVP = "redGrapes::scheduler::EventPtr"
TSPACE = "redGrapes::TaskSpace"
CTXT = "redGrapes::Context"
RUSER = "redGrapes::ResourceUser"
ISCHED = "redGrapes::scheduler::IScheduler"
WORKER = "redGrapes::dispatch::thread::Worker"
WTHREAD = "redGrapes::dispatch::thread::WorkerThread"

TAGS = {"PRE": 1, "POST": 2, "RES_SET": 3, "RES_GET": 4, "EXT": 5}
EVFIELD = {"PRE": "pre_event", "POST": "post_event", "RES_SET": "result_set_event", "RES_GET": "result_get_event"}
STRONG = ("acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")
ACQ = ("acquire", "acq_rel", "seq_cst")
NE = frozenset()


def tags(c):
    e = c.P.types.get("redGrapes::scheduler::EventPtrTag")
    if not e or "enum" not in e:
        raise Missing("EventPtrTag")
    d = dict(e["enum"])
    return {k: d["T_EVT_" + k] for k in TAGS}


def argp(eng, st, name, typ=None, nonnull=True):
    s = sym(("arg", name))
    if typ:
        eng.settype(s, 0, typ)
    if nonnull:
        st.facts[s] = (1, MASK[64], NE)
    return s


def argi(eng, st, name, w=32, lo=0, hi=None):
    s = sym(("arg", name), w)
    st.facts[s] = (lo, MASK[w] if hi is None else hi, NE)
    return s


def argb(name):
    return sym(("arg", name), 1)


def setm(eng, st, base, off, val, size=8):
    eng.store(st, eng.ptr(base, off), val, size)


def mk_task(c, eng, st, name, space=True):
    T = argp(eng, st, name, TASK)
    setm(eng, st, T, c.off(TASK, "task"), T)
    if space is True:
        sp = argp(eng, st, name + ".space", TSPACE)
        setm(eng, st, T, c.off(TASK, "space", "_M_ptr"), sp)
    elif space:
        setm(eng, st, T, c.off(TASK, "space", "_M_ptr"), space)
    return T


def mk_evp(c, eng, st, name, tag, task, ext=0):
    p = argp(eng, st, name, EVP)
    setm(eng, st, p, c.off(EVP, "tag"), tag, 4)
    setm(eng, st, p, c.off(EVP, "task"), task)
    setm(eng, st, p, c.off(EVP, "external_event", "_M_ptr"), ext)
    return p


def evaddr(c, eng, T, tag):
    return eng.ptr(T, c.off(TASK, EVFIELD[tag]))


def evs(st, *kinds):
    return [(i, e) for i, e in enumerate(st.trace) if e[0] in kinds]


def rmw_add(e, w=32):
    """amount added by an rmw event as signed number, None if it is no addition"""
    if e[3] == "add" and isint(e[4]):
        return sgn(e[4], w)
    if e[3] == "sub" and isint(e[4]):
        return -sgn(e[4], w)
    return None


def ticket(eng, st, v, w):
    """v (w bits) is an injective function of the number which an atomic addition to a counter took: the event, else None"""
    while True:
        v = eng.conc(st, v)
        if isint(v) or not isinstance(v, tuple):
            return None
        for e in st.trace:
            if e[0] == "rmw" and e[5] == v and rmw_add(e, 64) not in (None, 0) and isinstance(eng.split(e[2])[0], tuple) and eng.split(e[2])[0][0] == "g":
                return e if v[0] == "s" and v[2] >= w else None
        if v[0] == "cast" and v[1] in ("trunc", "zext", "sext"):
            if v[1] == "trunc" and v[2] < w:
                return None
            v = v[3]
        elif v[0] == "add" or v[0] == "bin" and v[1] in ("add", "sub", "xor"):
            ts = [x for x in v[1:] if isinstance(x, tuple)]
            if len(ts) != 1:
                return None
            v = ts[0]
        else:
            return None


def vcalls(st, name):
    VNAMES.add(name)
    return [(i, e) for i, e in enumerate(st.trace) if e[0] == "vcall" and e[1].split("::")[-1] == name]


def calls(st, name):
    return [(i, e) for i, e in enumerate(st.trace) if e[0] == "call" and e[1] == name]


def valfield(v, name):
    """member of a snapshot"""
    if isinstance(v, tuple) and v and v[0] == "val":
        for x in v[2:]:
            if x[0] == name:
                return x[1]
    return None


def evpval(v):
    """(tag, task, ext) of an EventPtr snapshot"""
    return (valfield(v, "tag"), valfield(v, "task"), valfield(v, "external_event._M_ptr"))


def held(st, upto, addr=None):
    """locks held before event index upto: list of addresses"""
    h = []
    for e in st.trace[:upto]:
        if e[0] in ("lock", "lock_shared"):
            h.append(e[1])
        elif e[0] in ("unlock", "unlock_shared"):
            if e[1] in h:
                h.remove(e[1])
    return h if addr is None else (addr in h)


def summary(e):
    """does the event mention a summary (older loop instance)?"""
    def m(t):
        if isinstance(t, tuple):
            if len(t) == 4 and t[0] in ("c", "A", "al", "h") and t[3] == 1 and isint(t[1]):
                return True
            return any(m(x) for x in t if isinstance(x, tuple))
        return False
    return m(e)


def mention(t, s):
    return mentions(t, s)


def fact(eng, st, t, w=64):
    return eng.rng(st, t, w)


def normal(outs):
    return [o for o in outs if o.kind == "ret"]


def where(c, fn):
    return c.P.where(fn)


def loops_complete(c, eng, st, lst, what, w, forward=None, allow_break=None):
    """iteration over lst starts at its begin and goes on until its end"""
    beg = [(i, e) for i, e in evs(st, "it.begin") if e[1] == lst]
    c.need(len(beg) >= 1, "%s: list is not iterated" % what, w, eng, st)
    if not beg:
        return
    cur = {e[2] for i, e in beg}
    for i, e in evs(st, "it.next"):
        if e[1] in cur:
            cur.add(e[2])
    ended = any(eng.cmp(st, "eq", 64, p, REND) == 1 for p in cur)
    if not ended and allow_break and allow_break(st):
        return
    c.need(ended, "%s: iteration stops before the end of the list" % what, w, eng, st)


def chain(st, lst):
    """positions reached by iterating over lst"""
    cur = []
    for i, e in enumerate(st.trace):
        if e[0] == "it.begin" and e[1] == lst:
            cur.append(e[2])
        elif e[0] == "it.next" and e[1] in cur:
            cur.append(e[2])
    return cur


# ------------------------------------------------------------------ per-iteration checks
def freshsyms(t, acc):
    """names introduced by the execution (results, iterator positions) which occur in t"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "s" and isinstance(t[1], tuple) and len(t[1]) == 4 and t[1][0] in ("c", "A", "h"):
            acc.add(t)
            return
        for x in t:
            if isinstance(x, tuple):
                freshsyms(x, acc)


def arrival(st, pos):
    """index of the event by which the position was reached"""
    r = None
    for i, e in enumerate(st.trace):
        if e[0] in ("it.begin", "it.next") and e[2] == pos:
            r = i
    return r


def since(st, pos):
    a = arrival(st, pos)
    return st.trace[a:] if a is not None else st.trace


def forget(st, pos, keep=()):
    """the iteration over position pos has been checked: drop its events and the facts about its names"""
    a = arrival(st, pos)
    if a is None:
        return
    kept, drop = list(st.trace[:a + 1]), []
    bal = []
    for e in st.trace[a + 1:]:
        if e[0] in ("lock", "lock_shared"):
            bal.append(e)
        elif e[0] in ("unlock", "unlock_shared"):
            m = [x for x in bal if x[1] == e[1]]
            if m:
                bal.remove(m[-1])
                drop.append(e)
            else:
                bal.append(e)
        elif e[0] in keep:
            bal.append(e)
        else:
            drop.append(e)
    st.trace = tuple(kept + bal)
    gone, stay = set(), set()
    for e in drop:
        freshsyms(e, gone)
    for e in st.trace:
        freshsyms(e, stay)
    gone -= stay
    el = ("elem", pos)
    memo = {}

    def hit(t):
        if not isinstance(t, tuple):
            return False
        r = memo.get(t)
        if r is None:
            r = t == el or t in gone or any(hit(x) for x in t if isinstance(x, tuple))
            memo[t] = r
        return r
    st.facts = {t: f for t, f in st.facts.items() if not hit(t)}


def assertion(c, w):
    """an assertion which may fail is a violation"""
    def h(eng, st, f, args, info):
        c.need(False, "an assertion may fail", w, eng, st)
        return []
    return [(lambda f: f.name == "__assert_fail", h)]


def drop_before(st, n):
    """everything before event n has been checked: drop it and the facts about names which do not occur any more"""
    gone, stay = set(), set()
    for e in st.trace[:n]:
        freshsyms(e, gone)
    st.trace = tuple(st.trace[n:])
    for e in st.trace:
        freshsyms(e, stay)
    gone -= stay
    st.facts = {t: f for t, f in st.facts.items() if not any(mentions(t, g) for g in gone)}


def elem(pos):
    return ("s", ("elem", pos), 64)


def graph_of(c, eng, T):
    """GraphProperty part of a task"""
    return eng.padd(T, c.off(TASK, "task") - c.off("redGrapes::GraphProperty", "task"))


def ruser_of(c, eng, T):
    """ResourceUser part of a task"""
    return eng.padd(T, c.off(TASK, "unique_resources") - c.off(RUSER, "unique_resources"))


def known(eng, st, t):
    """1 / 0 / None"""
    v = eng.truth(st, t)
    if v not in (0, 1) and isinstance(t, tuple) and t and t[-1] == 8:
        v = eng.truth(st, ("cast", "trunc", 1, t, 8))    # a bool is looked at by its lowest bit
    return v if v in (0, 1) else None


def uncast(t):
    while isinstance(t, tuple) and t and t[0] == "cast":
        t = t[3]
    return t


def same(eng, st, a, b):
    return eng.cmp(st, "eq", 64, a, b) == 1


def differ(eng, st, a, b):
    return eng.cmp(st, "eq", 64, a, b) == 0


def seq(eng, st, *steps):
    """runs functions one after another; steps: functions of the state giving (fn, args); list of (state, [results])"""
    cur = [(st, [])]
    for s in steps:
        nxt = []
        for st, vals in cur:
            fn, args = s(st)
            for o in normal(eng.run(fn, args, st.copy())):
                nxt.append((o.st, vals + [o.val]))
        cur = nxt
    return cur


def obj(st, name):
    """a local object"""
    b = ("o", ("al", 0, name, 0), 0)
    st.mem.setdefault(b, {})
    return b
