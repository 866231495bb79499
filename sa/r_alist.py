"""The lock-free list of chunks."""
from lib import *
from r_access import ev, Unknown

AT = "redGrapes::memory::AtomicList<drv::AItem, drv::AAlloc>"
AL = "redGrapes::memory::AtomicList"
CAP = 65536
BASE = 1 << 20


def single(xs, what):
    if len(xs) != 1:
        raise Missing(what)
    return xs[0]


class Lay:
    """where things are, whatever they are called"""

    def __init__(self, c):
        def sps(t):
            return [m for m in c.P.layout(t) if m[2] == "m" and m[4].startswith("std::shared_ptr<")]
        h = single(sps(AT), "head of AtomicList")
        self.head = h[0]
        node = tmplarg(h[4])
        self.node = node
        self.prev = single(sps(node), "link of AtomicList")[0]
        self.deleted = single([m for m in c.P.layout(node) if m[2] == "m" and m[1] == 1], "deleted flag of AtomicList")[0]
        self.cap = c.off(AT, "chunk_capacity")
        self.it = {k: [m for m in c.P.layout(AT + "::BackwardIterator<%s>" % k) if m[2] == "m"] for k in ("false", "true")}
        self.dsz = 1


def tmplarg(t):
    from models import tmplarg as f
    return f(t)


def list_env(c):
    """models of the allocator and the element; plain accesses to links which other threads see are violations"""
    def al(eng, st, f, args, info):
        v = eng.fresh(st, info.cs, info.i["n"], 64)
        st.facts[v] = (1, MASK[64], NE)
        eng.event(st, "alloc", args[-1], v)
        return [Outcome("ret", st, ("agg", (v, args[-1])))]
    return [(lambda f: f.qual == "drv::AAlloc::allocate", al),
            (lambda f: f.qual == "drv::AAlloc::deallocate", cut_model(("dealloc", ["v", "v", "v"]))),
            (lambda f: f.qual == "drv::AItem::AItem", cut_model(("item", ["v", "v", "v"]))),
            (lambda f: f.qual == "drv::AItem::~AItem", cut_model(("~item", ["v"])))]


def mk(c, L):
    eng = c.engine(models=list_env(c))
    st0 = State()
    l = argp(eng, st0, "list", AT)
    setm(eng, st0, l, L.cap, CAP)
    return eng, st0, l


def plain(c, eng, w, shared, what):
    """accesses to shared links which are not atomic; shared(base, off)"""
    def on_access(eng_, st, b, o, size, iswrite):
        x = shared(st, b, o)
        if x and not (st.aux if isinstance(st.aux, dict) else {}).get("atomic"):
            c.need(False, "%s: the %s is %s without atomic access" % (what, x, "written" if iswrite else "read"), w, eng, st)
    eng.cfg.on_access = on_access


def published(st, b):
    return any(e[0] == "sp.cas" and e[5] == 1 and (e[4] == b or isinstance(e[4], tuple) and e[4][0] == "s" and False) for e in st.trace)


@rule("alist.append", "C18 C16 C17", minimum=8,
      text="allocate_item makes one chunk in one allocation which is big enough for its control block, the item and the bytes given to the item; the chunk "
           "becomes the head by compare-and-swap, with the head which was replaced as its predecessor; try_allocate_first_item does that only if "
           "there is no head")
def r_append(c):
    L = Lay(c)
    for name in ("allocate", "first"):
        f = c.drv("alist_" + name)
        w = where(c, c.fn(AL + ("::allocate_item" if name == "allocate" else "::try_allocate_first_item")))
        eng, st0, l = mk(c, L)
        hd = eng.ptr(l, L.head)
        outs = eng.run(f, [l], st0.copy())
        c.absorb(eng)
        c.need(any(o.kind == "ret" for o in outs), name + ": does not return", w)
        won = 0
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "AtomicList, %s: %s" % (f.base[6:], msg), w, eng, st)
            need(o.kind == "ret", "throws")
            al = [(i, e) for i, e in enumerate(st.trace) if e[0] == "alloc"]
            it = calls(st, "item")
            cas = [(i, e) for i, e in enumerate(st.trace) if e[0] == "sp.cas"]
            good = [(i, e) for i, e in cas if e[5] == 1]
            need(all(e[2] == hd for i, e in cas), "something else than the head is exchanged")
            need(not any(e[0] == "sp.store" and e[2] == hd for e in st.trace), "the head is overwritten, whoever changed it meanwhile")
            if name == "first" and not good:
                need(known(eng, st, o.val) == 0, "claims success although the head was not set")
                continue
            need(len(good) == 1 and len(al) == 1 and len(it) == 1, "not exactly one chunk is made and becomes the head")
            if not (len(good) == 1 and len(al) == 1 and len(it) == 1):
                continue
            won += 1
            i, e = good[0]
            node = e[4]
            p, size = al[0][1][2], al[0][1][1]
            env = {p: BASE}
            try:
                size = ev(size, env)
                at, bp, bl = [ev(x, env) for x in it[0][1][2:5]]
                nb, no = eng.split(node)
                nd = ev(nb, env) + ev(no, env)
                data = [ev(eng.conc(st, eng.load(st, eng.padd(node, m[0]), 8)), env) for m in c.P.layout(L.node)
                        if m[2] == "m" and m[1] == 8 and not m[4].startswith("std::shared_ptr")]
            except Unknown as x:
                raise Missing("layout of a chunk: %s" % x)
            isz, nsz = c.P.size("drv::AItem"), c.P.size(L.node)
            need(nd >= BASE and nd + nsz <= at, "the item overlaps the control block")
            need(at + isz <= bp and bp + bl <= BASE + size and bl <= CAP, "the item and the bytes given to it exceed the allocated block")
            need(at in data, "the chunk does not refer to its item")
            cb = BASE
            for t in c.P.types:
                if t.startswith("std::_Sp_counted_ptr_inplace<" + AL + "<") and t.count("Sp_counted") == 1 and not t.endswith("_Impl"):
                    need(cb + c.P.size(t) <= at, "the item overlaps the control block of %s" % t[len("std::_Sp_counted_ptr_inplace<"):90])
            need(it[0][0] < i, "the chunk becomes the head before its item is made")
            need(eng.conc(st, eng.load(st, eng.padd(node, L.deleted), 1)) == 0, "the new chunk is marked as deleted")
            # predecessor
            pv = eng.ptr(*eng.split(eng.padd(node, L.prev)))
            stores = [x for x in st.trace[:i] if x[0] == "sp.store" and x[2] == pv]
            link = stores[-1][3] if stores else eng.conc(st, eng.load(st, pv, 8))
            need(same(eng, st, link, e[3]), "the predecessor of the new chunk is not the head which is replaced")
            need(not any(x[0] == "sp.store" for x in st.trace[i:]), "links are changed after the chunk became the head")
            if name == "first":
                need(eng.conc(st, e[3]) == 0, "an existing head is replaced")
                need(known(eng, st, o.val) == 1, "claims failure although the head was set")
            # capacity as told to users
            f2 = c.drv("alist_item_capacity")
            eng2, st2, l2 = mk(c, L)
            for x in normal(eng2.run(f2, [l2], st2)):
                v = eng2.conc(x.st, x.val)
                need(isint(v) and v <= bl, "get_item_capacity() promises more bytes than an item gets")
            c.instance(name)
            c.instance(name + ", layout")
        c.need(won > 0, "AtomicList, %s: never succeeds" % name, w)
        if won:
            c.instance(name + " succeeds")
            c.instance(name + " returns")


@rule("alist.free", "C18 C16", minimum=3,
      text="the item of a chunk is destroyed once, with the control block; the memory of the chunk is deallocated with the address and the size with which "
           "it was allocated")
def r_free(c):
    L = Lay(c)
    # what is stored with the chunk
    f = c.drv("alist_first")
    eng, st0, l = mk(c, L)
    kept = None
    for o in normal(eng.run(f, [l], st0.copy())):
        al = [e for e in o.st.trace if e[0] == "alloc"]
        if len(al) != 1:
            continue
        kept = (al[0][2], al[0][1], o.st)
    if kept is None:
        raise Missing("allocation of a chunk")
    p, size, st = kept
    cells = {o: v for o, (z, v) in st.mem.get(p, {}).items()}
    cls = [t for t in c.P.types if t.startswith("std::_Sp_counted_ptr_inplace<" + AT) and not t.endswith("_Impl")]
    gs = [g for g in c.P.fns.values() if g.base == "_M_destroy" and g.d.startswith("std::_Sp_counted_ptr_inplace<" + AT)]
    g = single(gs, "_M_destroy of a chunk")
    w = where(c, c.fn(AL + "::allocate_item"))
    eng2 = c.engine(models=list_env(c))
    st2 = State()
    b = argp(eng2, st2, "block", cls[0] if cls else None)
    st2.mem[b] = {}
    for o, v in cells.items():
        v = subst(v, {p: b}, {})
        if isint(o):
            setm(eng2, st2, b, o, v, st.mem[p][o][0])
    outs = normal(eng2.run(g, [b], st2))
    c.absorb(eng2)
    c.need(len(outs) > 0, "a chunk can not be released", w)
    for o in outs:
        d = calls(o.st, "dealloc")
        c.need(len(d) == 1 and d[0][1][3] == b and same(eng2, o.st, d[0][1][4], size),
               "the memory of a chunk is not deallocated once, with the address and size with which it was allocated", w, eng2, o.st)
    c.instance("_M_destroy")
    g = single([g for g in c.P.fns.values() if g.base == "_M_dispose" and g.d.startswith("std::_Sp_counted_ptr_inplace<" + AT)], "_M_dispose of a chunk")
    eng3 = c.engine(models=list_env(c))
    st3 = State()
    b = argp(eng3, st3, "block", cls[0] if cls else None)
    st3.mem[b] = {}
    for o, v in cells.items():
        if isint(o):
            setm(eng3, st3, b, o, subst(v, {p: b}, {}), st.mem[p][o][0])
    items = [e for e in st.trace if e[0] == "call" and e[1] == "item"]
    want = subst(items[0][2], {p: b}, {}) if items else None
    outs = normal(eng3.run(g, [b], st3))
    c.absorb(eng3)
    c.need(len(outs) > 0, "a chunk can not be destroyed", w)
    for o in outs:
        d = calls(o.st, "~item")
        c.need(len(d) == 1 and same(eng3, o.st, d[0][1][2], want), "the item of a chunk is not destroyed exactly once", w, eng3, o.st)
        c.need(not calls(o.st, "dealloc"), "the memory of a chunk is freed while it is destroyed", w, eng3, o.st)
    c.instance("_M_dispose")
    for k in ("false", "true"):
        ms = L.it[k]
        c.need(any(m[4].startswith("std::shared_ptr<") for m in ms), "an iterator does not own the chunk at which it is",
               where(c, c.fn(AL + "::rbegin")))
    c.need(True, "links own their chunks")
    c.instance("iterators own")


@rule("alist.walk", "C18 C17 C16", minimum=8,
      text="iteration begins at the head and goes from a chunk to the first predecessor which is not deleted; a link is only ever changed to skip chunks "
           "which are deleted, and links are read and written atomically; erase marks the chunk as deleted and changes nothing else")
def r_walk(c):
    L = Lay(c)
    for name in ("rbegin", "crbegin", "rend", "crend"):
        f = c.drv("alist_" + name)
        w = where(c, c.fn(AL + "::" + name))
        eng, st0, l = mk(c, L)
        it = obj(st0, "it")
        outs = normal(eng.run(f, [it, l], st0))
        c.absorb(eng)
        c.need(len(outs) > 0, name + " does not return", w)
        for o in outs:
            st = o.st
            v = eng.conc(st, eng.load(st, it, 8))
            if name.endswith("rend"):
                c.need(v == 0, name + " is not the end", w, eng, st)
                continue
            ld = [e for e in st.trace if e[0] == "sp.load" and e[2] == eng.ptr(l, L.head)]
            c.need(bool(ld) and v == ld[-1][3], name + " is not the head, read atomically", w, eng, st)
            c.need(not any(e[0] in ("sp.store", "sp.cas") for e in st.trace), name + " changes the list", w, eng, st)
        c.instance(name)
    for name in ("inc", "cinc", "optimize"):
        f = c.drv("alist_" + name)
        w = where(c, c.fn(AL + "::BackwardIterator::" + ("optimize" if name == "optimize" else "operator++"), lambda g: "drv::" in g.d and ("<true>" in g.d) == (name == "cinc")))
        eng, st0, l = mk(c, L)
        it = argp(eng, st0, "it", AT + "::BackwardIterator<%s>" % ("true" if name == "cinc" else "false"))
        node = argp(eng, st0, "node", L.node, nonnull=False)
        setm(eng, st0, it, 0, node)
        what = "iteration" if name != "optimize" else "optimize"

        def dead(st, x):
            return known(eng, st, eng.cmp(st, "eq", 8, eng.load(st, eng.padd(x, L.deleted), 1), 0))

        def on_event(eng_, st, e):
            need = lambda cond, msg: c.need(cond, "AtomicList, %s: %s" % (what, msg), w, eng, st)
            if e[0] == "sp.load":
                b, o = eng.split(e[2])
                prevs = [x[3] for x in st.trace if x[0] == "sp.load"]
                if b == node:
                    need(o == L.prev, "something else than a link is followed")
                    return
                need(o == L.prev and b in prevs, "a chunk is not reached by following the links one by one")
                if not summary(b):
                    need(dead(st, b) == 0, "the link of a chunk is followed which is not deleted")
            if e[0] == "sp.store":
                prevs = [x[3] for x in st.trace if x[0] == "sp.load"]
                need(e[2] == eng.ptr(node, L.prev), "another link is changed")
                v = eng.conc(st, e[3])
                need(any(v == x or same(eng, st, v, x) for x in prevs), "the link is set to a chunk which was not reached by following links")
                if prevs:
                    need(v == 0 or same(eng, st, v, 0) or dead(st, v) == 1, "a link leads to a deleted chunk")
            if e[0] == "sp.cas":
                v = eng.conc(st, e[4])
                prevs = [x[3] for x in st.trace if x[0] == "sp.load"]
                need(e[2] == eng.ptr(node, L.prev) and any(v == x or same(eng, st, v, x) for x in prevs), "a link is set to something which was not reached by following links")

        eng.cfg.on_event = on_event

        def on_rename(eng_, st, a):
            if any(x[0] == "sp.load" and x[3] == a for x in st.trace):
                c.need(dead(st, a) == 0, "AtomicList, %s: the link of a chunk is followed which is not deleted" % what, w, eng, st)
        eng.cfg.on_rename = on_rename

        def on_access(eng_, st, b, o, size, iswrite):
            if o in (L.prev, L.prev + 8) and (b == node or eng.btypes.get(b, {}).get(0) == L.node):
                c.need(False, "AtomicList, %s: a link is %s without atomic access" % (what, "written" if iswrite else "read"), w, eng, st)
            if iswrite and o == L.deleted and (b == node or eng.btypes.get(b, {}).get(0) == L.node):
                c.need(False, "AtomicList, %s: a chunk is marked" % what, w, eng, st)
        eng.cfg.on_access = on_access
        outs = normal(eng.run(f, [it], st0.copy()))
        c.absorb(eng)
        c.need(len(outs) > 0, name + " does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "AtomicList, %s: %s" % (what, msg), w, eng, st)
            v = eng.conc(st, eng.load(st, it, 8))
            isnull = known(eng, st, eng.cmp(st, "eq", 64, node, 0))
            lds = [e for e in st.trace if e[0] == "sp.load"]
            if isnull == 1:
                need(eng.conc(st, v) == 0 and not lds, "the end is passed")
                continue
            if name == "optimize":
                need(v == node, "the iterator is moved")
                continue
            need(bool(lds), "the link is not followed")
            if not lds:
                continue
            last = lds[-1]
            b, off = eng.split(last[2])
            sts = [e for e in st.trace if e[0] in ("sp.store", "sp.cas")]
            need(same(eng, st, v, last[3]), "the next chunk is not the one to which the link leads")
            # not deleted when it was reached, or read anew from the link which was just made to lead to such a chunk
            fresh = same(eng, st, v, 0) or dead(st, v) == 1
            if not fresh and not sts:
                ok = lambda x: same(eng, st, x, 0) or dead(st, x) == 1
                fresh = b == node and any(
                    eng.split(e[2])[0] == node and any(ok(x[3]) and same(eng, st, e[3], x[3]) for x in lds[:-1]) for e in lds[:-1])
            need(fresh or (b == node and bool(sts) and st.trace.index(sts[-1]) < len(st.trace) - 1), "a deleted chunk is not skipped")
        c.instance(name)
    f = c.drv("alist_erase")
    w = where(c, c.fn(AL + "::erase"))
    eng, st0, l = mk(c, L)
    it = argp(eng, st0, "it", AT + "::BackwardIterator<false>")
    node = argp(eng, st0, "node", L.node)
    setm(eng, st0, it, 0, node)
    before = set(st0.mem)
    outs = normal(eng.run(f, [l, it], st0.copy()))
    c.absorb(eng)
    c.need(len(outs) > 0, "erase does not return", w)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "AtomicList::erase: " + msg, w, eng, st)
        need(eng.conc(st, eng.load(st, eng.padd(node, L.deleted), 1)) == 1, "the chunk is not marked as deleted")
        wr = [k for k in st.mem.get(node, {}) if k != L.deleted]
        need(not wr and not any(e[0] in ("sp.store", "sp.cas") for e in st.trace), "something else is changed")
        lm = {k: v for k, v in st.mem.get(l, {}).items()}
        need(lm == {k: v for k, v in st0.mem.get(l, {}).items()}, "the list is changed")
    c.instance("erase")
