"""The concurrent list of elements in chunks."""
from lib import *
from r_access import ev, Unknown
from r_alloc import alist_abs, AL, ALIT

CL = "redGrapes::ChunkedList"
N = 4
ELT = CL + "<drv::Elem, 4ul, redGrapes::memory::Allocator>"
ITEM = ELT + "::Item"
CHUNK = ELT + "::Chunk"
ACC = ELT + "::ItemAccess<%s>"
MSB = 1 << 63
B0, B1 = 0x100000, 0x200000


def elems():
    """what is done with values"""
    return [(lambda f: f.qual == "drv::Elem::Elem", cut_model(("copy", ["v", "v"]))),
            (lambda f: f.qual == "drv::Elem::~Elem", cut_model(("destroy", ["v"])))]


def raw(*quals):
    """the implementation of the list is analysed"""
    if quals:
        return [(lambda f: f.qual in quals, lambda *a: None)]
    return [(lambda f: f.ctx.startswith(CL), lambda *a: None)]


class Lay:
    def __init__(self, c):
        ms = lambda t: [m for m in c.P.layout(t) if m[2] == "m"]

        def one(xs, what):
            if len(xs) != 1:
                raise Missing(what)
            return xs[0]
        self.isz = c.P.size(ITEM)
        self.csz = c.P.size(CHUNK)
        self.value = c.off(ITEM, "storage")
        self.off = c.off(ITEM, "iter_offset")
        self.ref = c.off(ITEM, "refcount")
        self.first = c.off(CHUNK, "first_item")
        self.next = c.off(CHUNK, "next_item")
        self.freed = c.off(CHUNK, "freed_items")
        self.chunk = c.off(ACC % "false", "chunk")
        self.cur = one([m for m in ms(ACC % "false") if m[1] == 8], "position of an iterator")[0]
        self.offw = 8 * [m[1] for m in c.P.layout(ITEM) if m[3] == "iter_offset"][0]
        self.refw = 8 * [m[1] for m in c.P.layout(ITEM) if m[3] == "refcount"][0]


def values(eng, st, v, grid):
    """values of the grid which v may have"""
    if isint(v):
        return [v]
    r = []
    fs = [(t, f) for t, f in st.facts.items() if mentions(t, v)]
    for k in grid:
        ok = True
        for t, (lo, hi, ne) in fs:
            try:
                x = ev(t, {v: k})
            except Unknown:
                continue
            if not lo <= x <= hi or x in ne:
                ok = False
                break
        if ok:
            r.append(k)
    return r


def counts(w):
    m = MASK[w]
    return [0, 1, 2, 7, m >> 1, m, m - 1, (m >> 1) + 1]


def neg(w, x):
    return x > MASK[w] >> 1


def refops(eng, st, item, L):
    """operations on the reference count of an item: (index, +1 / -1 / None, possible old values, order)"""
    r = []
    for i, e in enumerate(st.trace):
        if e[0] == "rmw" and e[2] == eng.ptr(item, L.ref):
            r.append((i, rmw_add(e, L.refw), values(eng, st, e[5], counts(L.refw)), e[6]))
        elif e[0] == "cas" and e[2] == eng.ptr(item, L.ref) and e[5] == 1:
            d = eng.binop(st, "sub", L.refw, e[4], e[3])
            d = eng.conc(st, d)
            if not isint(d):
                # through the types
                ds = set()
                s = set()
                freshsyms(e[3], s)
                for x in s:
                    for k in values(eng, st, x, counts(L.refw)):
                        try:
                            ds.add((ev(e[4], {x: k}) - ev(e[3], {x: k})) & MASK[L.refw])
                        except Unknown:
                            pass
                d = ds.pop() if len(ds) == 1 else None
            vs = set()
            if isint(e[3]):
                vs.add(e[3])
            s = set()
            freshsyms(e[3], s)
            for x in s:
                for k in values(eng, st, x, counts(L.refw)):
                    try:
                        vs.add(ev(e[3], {x: k}) & MASK[L.refw])
                    except Unknown:
                        vs |= set(counts(L.refw))
            r.append((i, sgn(d, L.refw) if d is not None else None, sorted(vs), e[6]))
        elif e[0] == "astore" and e[2] == eng.ptr(item, L.ref):
            r.append((i, None, [], e[4]))
    return r


def releases(c, eng, st, item, L, what, w, ops):
    """the value is destroyed by, and only by, the operation which takes away the last reference"""
    need = lambda cond, msg: c.need(cond, what + ": " + msg, w, eng, st)
    d = calls(st, "destroy")
    need(all(x[1][2] == eng.ptr(item, L.value) for x in d), "something else than the value of the item is destroyed")
    for i, k, vs, order in ops:
        if k == -1:
            nxt = min([j for j, kk, v, oo in ops if j > i], default=len(st.trace))
            n = len([j for j, e in d if i < j < nxt])
            if vs == [0]:
                need(n == 1, "the value is not destroyed once when the last reference is gone")
                need(order in STRONG, "the end of other uses is not visible to the destruction")
            elif 0 in vs:
                need(False, "the destruction does not depend on the number of references")
            else:
                need(n == 0, "the value is destroyed while it is referenced")
            need(order in STRONG, "the use of the item is not over when the reference is given back")
    first = min([i for i, k, v, oo in ops if k == -1], default=len(st.trace))
    need(not [j for j, e in d if j < first], "the value is destroyed before the reference is given back")


@rule("list.item", "C17", minimum=20,
      text="an item of a ChunkedList begins empty; its value is made before the item becomes visible; acquire succeeds only with a new reference on an item "
           "which still has its value and is seen not to be removed afterwards, and otherwise leaves no reference; the value is destroyed once, by the operation "
           "which takes the last reference away")
def r_item(c):
    L = Lay(c)
    w = lambda n: where(c, c.fn(ITEM.replace("<drv::Elem, 4ul, redGrapes::memory::Allocator>", "") + "::" + n))
    # construction
    f = c.drv("item_ctor")
    eng = c.engine(models=raw() + elems())
    st0 = State()
    p = argp(eng, st0, "item", ITEM)
    outs = normal(eng.run(f, [p], st0.copy()))
    c.absorb(eng)
    c.need(len(outs) > 0, "Item() does not return", w("Item"))
    for o in outs:
        v = eng.conc(o.st, eng.load(o.st, eng.ptr(p, L.off), L.offw // 8))
        c.need(isint(v) and v == 1, "Item(): a new item is not marked as empty with its predecessor as next candidate", w("Item"), eng, o.st)
        c.need(eng.conc(o.st, eng.load(o.st, eng.ptr(p, L.ref), L.refw // 8)) == 0, "Item(): references are counted for a new item", w("Item"), eng, o.st)
        c.need(not calls(o.st, "copy") and not calls(o.st, "destroy"), "Item(): a value is made or destroyed", w("Item"), eng, o.st)
        c.instance("Item()")
    c.need(L.refw >= 32, "the number of iterators which can be at an element at the same time is limited to %d: beyond, the element is taken for removed" % (MASK[L.refw] >> 1),
           w("Item"))
    # assignment
    f = c.drv("item_assign")
    eng = c.engine(models=raw() + elems())
    st0 = State()
    p = argp(eng, st0, "item", ITEM)
    x = argp(eng, st0, "value", "drv::Elem")
    outs = eng.run(f, [p, x], st0.copy())
    c.absorb(eng)
    ww = w("operator=")
    c.need(any(o.kind == "ret" for o in outs), "Item::operator= does not return", ww)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "Item::operator=: " + msg, ww, eng, st)
        need(o.kind == "ret", "throws")
        cp = calls(st, "copy")
        need(len(cp) == 1 and cp[0][1][2] == eng.ptr(p, L.value) and cp[0][1][3] == x, "the value of the item is not made once from the argument")
        need(not calls(st, "destroy"), "something is destroyed")
        vis = [(i, e) for i, e in enumerate(st.trace) if e[0] in ("astore", "rmw", "cas") and e[2] == eng.ptr(p, L.off)]
        need(len(vis) == 1 and vis[0][1][0] == "astore" and vis[0][1][3] == 0, "the item is not marked as existing by one store")
        if cp and vis:
            need(cp[0][0] < vis[-1][0], "the item becomes visible before its value is made")
            need(vis[-1][1][4] in REL, "the value is not published with the item")
        need(not refops(eng, st, p, L), "references are changed")
        need(not [1 for e in st.trace if e[0] == "astore" and e[2] != eng.ptr(p, L.off)], "something else is changed")
        c.instance("operator=")
    # acquisition
    f = c.drv("item_acquire")
    eng = c.engine(models=raw() + elems())
    st0 = State()
    p = argp(eng, st0, "item", ITEM)
    outs = eng.run(f, [p], st0.copy())
    c.absorb(eng)
    ww = w("acquire")
    good = 0
    offs = counts(L.offw)
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "Item::acquire: " + msg, ww, eng, st)
        ops = refops(eng, st, p, L)
        need(all(k in (1, -1) for i, k, v, oo in ops), "the reference count is not changed by one")
        if any(k == -1 and v and all(neg(L.refw, y) for y in v) for i, k, v, oo in ops):
            # the reference which is given back here was counted
            if any(k == 1 for i, k, v, oo in ops):
                continue
        for i, k, v, oo in ops:
            if k == 1:
                need(st.trace[i][0] == "cas" and v and not any(neg(L.refw, y) for y in v),
                     "a reference is taken although the value may already be destroyed")
                need(oo in ACQ or oo in STRONG, "the value is not visible after the reference was taken")
        if o.kind != "ret":
            need(False, "throws")
            continue
        releases(c, eng, st, p, L, "Item::acquire", ww, ops)
        net = sum(k or 0 for i, k, v, oo in ops)
        r = o.val
        rv = r if isint(r) else None
        ld = [(i, e) for i, e in enumerate(st.trace) if e[0] == "aload" and e[2] == eng.ptr(p, L.off)]
        src = [(i, e) for i, e in ld if uncast(e[3]) == uncast(r)]
        vs = values(eng, st, uncast(r), offs)
        dead = []
        for i, e in enumerate(st.trace):
            x = e[3] if e[0] == "aload" and e[2] == eng.ptr(p, L.ref) else e[7] if e[0] == "cas" and e[5] == 0 and e[2] == eng.ptr(p, L.ref) else None
            if x is not None:
                y = values(eng, st, x, counts(L.refw))
                if y and all(neg(L.refw, z) for z in y):
                    dead.append(i)
        if 0 in vs and len(vs) > 1 and src and any(i < src[-1][0] for i in dead):
            # the position was marked before the value was destroyed (rules list.item, list.remove)
            vs = [z for z in vs if z]
        if vs == [0]:
            good += 1
            need(net == 1, "success without a reference")
            up = [i for i, k, v, oo in ops if k == 1]
            seen = [(i, e) for i, e in ld if up and i > up[-1] and eng.cmp(st, "eq", L.offw, e[3], 0) == 1]
            need(bool(seen), "success although the item may have been removed before the reference was taken")
            if seen:
                need(seen[-1][1][4] in ACQ, "the value is not visible after the item was seen")
        elif 0 not in vs:
            need(net == 0, "a reference is left on an item which is not used")
            need(rv == 1 or bool(src), "the distance to the next candidate is made up")
        else:
            need(False, "success is not distinguished from failure")
    c.need(good > 0, "Item::acquire never succeeds", ww)
    for o in outs:
        c.instance("acquire")
    # release and destruction
    for name in ("item_release", "item_dtor"):
        f = c.drv(name)
        eng = c.engine(models=raw() + elems())
        st0 = State()
        p = argp(eng, st0, "item", ITEM)
        outs = eng.run(f, [p], st0.copy())
        c.absorb(eng)
        ww = w("release" if name == "item_release" else "~Item")
        what = "Item::" + ("release" if name == "item_release" else "~Item")
        kinds = set()
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, what + ": " + msg, ww, eng, st)
            ops = refops(eng, st, p, L)
            if name == "item_dtor":
                need(o.kind == "ret", "throws")
                ld = [e for e in st.trace if e[0] == "aload" and e[2] == eng.ptr(p, L.off)]
                vs = values(eng, st, ld[-1][3], offs) if ld else []
                need(bool(ld) and (vs == [0] or 0 not in vs), "does not depend on whether there is a value")
                if 0 not in vs:
                    need(not calls(st, "destroy") and not ops, "an empty item is destroyed like one with a value")
                    kinds.add("empty")
                    continue
                if not ops:
                    need(len(calls(st, "destroy")) == 1, "the value of an item is not destroyed with it")
                    kinds.add("value")
                    continue
            need(len(ops) == 1 and ops[0][1] == -1, "not exactly one reference is given back")
            if not (len(ops) == 1 and ops[0][1] == -1):
                continue
            if o.kind != "ret":
                need(all(neg(L.refw, y) for y in ops[0][2]) and bool(ops[0][2]), "throws although there was a reference")
                continue
            releases(c, eng, st, p, L, what, ww, ops)
            kinds.add("value" if ops[0][2] == [0] else "more")
            c.instance(what)
        c.need("value" in kinds and (name == "item_release" or "empty" in kinds), what + ": a case is missing", ww)


# ------------------------------------------------------------------ chunks
@rule("list.chunk", "C17 C16", minimum=10,
      text="a chunk begins with its items empty, in its own memory, and with the first of them as the next one to be used; all of its items are destroyed once "
           "with it; the memory which is allocated for a chunk is big enough for its items; the last item is the one before the next one, within the chunk")
def r_chunk(c):
    L = Lay(c)
    w = lambda n: where(c, c.fn(CL + "::Chunk::" + n))
    ic = [(lambda f: f.qual == CL + "::Item::Item", cut_model(("item", ["v"]))), (lambda f: f.qual == CL + "::Item::~Item", cut_model(("~item", ["v"])))]
    f = c.drv("chunk_ctor")
    eng = c.engine(models=ic + raw() + elems(), pinned={"Chunk.first_item"})
    st0 = State()
    p = obj(st0, "chunk")
    eng.settype(p, 0, CHUNK)
    blk = B0
    ln = argi(eng, st0, "len", 64)
    outs = normal(eng.run(f, [p, blk, ln], st0.copy()))
    c.absorb(eng)
    c.need(len(outs) > 0, "Chunk() does not return", w("Chunk"))
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "Chunk(): " + msg, w("Chunk"), eng, st)
        made = [e[2] for i, e in calls(st, "item")]
        at = [eng.conc(st, eng.binop(st, "sub", 64, x, blk)) for x in made]
        need(len(at) == N and set(at) == {k * L.isz for k in range(N)}, "not all items of the chunk are initialised once")
        g = lambda o_: eng.conc(st, eng.load(st, eng.ptr(p, o_), 8))
        need(g(L.first) == blk, "the items are not where the memory for them is")
        need(g(L.next) == blk, "the first item of a new chunk is not the next one to be used")
        need(g(L.freed) == 0, "removed items are counted in a new chunk")
        c.instance("Chunk()")
    f = c.drv("chunk_dtor")
    eng = c.engine(models=ic + raw() + elems(), pinned={"Chunk.first_item"})
    st0 = State()
    p = argp(eng, st0, "chunk", CHUNK)
    setm(eng, st0, p, L.first, B0)
    outs = normal(eng.run(f, [p], st0.copy()))
    c.absorb(eng)
    c.need(len(outs) > 0, "~Chunk() does not return", w("~Chunk"))
    for o in outs:
        made = [e[2] for i, e in calls(o.st, "~item")]
        c.need(sorted(map(repr, made)) == sorted(repr(B0 + k * L.isz) for k in range(N)), "~Chunk(): not all items of the chunk are destroyed once", w("~Chunk"), eng, o.st)
        c.instance("~Chunk()")
    # the last item
    f = c.drv("chunk_last")
    for k in range(N + 3):
        eng = c.engine(models=raw() + elems())
        st0 = State()
        p = argp(eng, st0, "chunk", CHUNK)
        eng.cfg.on_aload = lambda e_, st, q, i: [(st, B0)] if q == eng.ptr(p, L.first) else [(st, B0 + k * L.isz)] if q == eng.ptr(p, L.next) else None
        outs = normal(eng.run(f, [p], st0.copy()))
        c.absorb(eng)
        c.need(len(outs) > 0, "get_last_item() does not return", w("get_last_item"))
        for o in outs:
            v = eng.conc(o.st, o.val)
            c.need(v == B0 + (min(k, N) - 1) * L.isz, "get_last_item(): with %d items in use, item %s is the last one" % (k, (v - B0) // L.isz if isint(v) else "?"), w("get_last_item"), eng, o.st)
        c.instance("get_last_item, %d used" % k)
    # allocation
    f = c.fn(CL + "::ChunkedList", lambda g: len(g.args) == 2 and g.cls.startswith(ELT) and "ChunkedList" not in g.types[2])
    eng = c.engine(models=raw())
    st0 = State()
    p = argp(eng, st0, "list", ELT)
    a = argp(eng, st0, "alloc", "redGrapes::memory::Allocator")
    caps = {eng.conc(o.st, eng.load(o.st, eng.ptr(p, c.off(ELT, "chunks", "chunk_capacity")), 8)) for o in normal(eng.run(f, [p, a], st0.copy()))}
    if len(caps) != 1 or not isint(list(caps)[0]):
        raise Missing("capacity of the chunks of a ChunkedList")
    cap = caps.pop()
    for name in ("allocate_item", "try_allocate_first_item"):
        f = c.fn(AL + "::" + name, lambda g: g.cls.startswith(AL + "<" + CHUNK))

        def al(eng, st, g, args, info):
            v = eng.fresh(st, info.cs, info.i["n"], 64)
            st.facts[v] = (1, MASK[64], NE)
            eng.event(st, "alloc", args[-1], v)
            return [Outcome("ret", st, ("agg", (v, args[-1])))]
        m = [(lambda g: g.qual == "redGrapes::memory::Allocator::allocate", al),
             (lambda g: g.qual == "redGrapes::memory::Allocator::deallocate", cut_model(("dealloc", ["v", "v", "v"]))),
             (lambda g: g.qual == CL + "::Chunk::Chunk", cut_model(("chunk", ["v", "v", "v"]))),
             (lambda g: g.qual == CL + "::Chunk::~Chunk", cut_model(("~chunk", ["v"])))]
        eng = c.engine(models=m)
        st0 = State()
        p = argp(eng, st0, "chunks", c.P.layout(ELT)[0][4])
        setm(eng, st0, p, c.off(ELT, "chunks", "chunk_capacity") - c.off(ELT, "chunks"), cap)
        args = [p]
        if f.args and f.args[0].get("sret"):
            args = [obj(st0, "ret"), p]
        outs = [o for o in normal(eng.run(f, args, st0.copy()))]
        c.absorb(eng)
        n = 0
        ww = where(c, f)
        for o in outs:
            x = calls(o.st, "chunk")
            y = [e for e in o.st.trace if e[0] == "alloc"]
            c.need(len(x) == 1 and len(y) == 1, name + ": not one chunk in one allocation", ww, eng, o.st)
            if len(x) != 1 or len(y) != 1:
                continue
            n += 1
            try:
                env = {y[0][2]: B0}
                at, bp = ev(x[0][1][2], env), ev(x[0][1][3], env)
                size = ev(y[0][1], env)
            except Unknown as e:
                raise Missing("layout of a chunk: %s" % e)
            c.need(at + L.csz <= bp, name + ": the items of a chunk overlap the chunk itself", ww, eng, o.st)
            c.need(bp + N * L.isz <= B0 + size, name + ": the items of a chunk exceed the memory which is allocated for it", ww, eng, o.st)
        c.need(n > 0, name + ": no chunk is made", ww)
        c.instance(name)


# ------------------------------------------------------------------ positions
class Pos:
    """abstract execution of operations on positions: the items of the chunk at which the operation begins and of the following ones have addresses from
    which the index can be told; the number of used items, the results of acquisition and the lengths of jumps take all possible values"""

    def __init__(self, c, L, what, w):
        self.c, self.L, self.what, self.w = c, L, what, w
        e = self.eng = c.engine()
        e.cfg.models = alist_abs() + [(lambda f: f.qual == CL + "::Item::acquire", self.acquire), (lambda f: f.qual == CL + "::Item::release", self.release)] \
            + raw() + elems() + assertion(c, w) + e.cfg.models
        e.cfg.on_aload = self.aload
        e.cfg.on_armw = self.armw
        e.cfg.on_event = self.event
        e.cfg.widen_vals = 60
        e.cfg.max_states = 600000
        self.start = None      # chunk at which the operation begins
        self.claims = 0

    def need(self, st, cond, msg):
        self.c.need(cond, self.what + ": " + msg, self.w, self.eng, st)

    def base(self, pos):
        return B0 if pos == self.start else B1

    def chunkof(self, st, b):
        """position of the chunk whose object is at b"""
        if isinstance(b, tuple) and b[0] == "s" and isinstance(b[1], tuple) and b[1][0] == "elem":
            return b[1][1]
        return None

    def idx(self, st, a):
        """(chunk base, index) of an item address"""
        if not isint(a):
            return None
        for b in (B0, B1):
            if abs(a - b) <= 64 * self.L.isz and (a - b) % self.L.isz == 0:
                return b, (a - b) // self.L.isz
        return None

    def aload(self, eng, st, p, i):
        b, o = eng.split(p)
        pos = self.chunkof(st, b)
        L = self.L
        if pos is None:
            return None
        if o == L.first:
            return [(st, self.base(pos))]
        if o == L.next:
            # what was used stays used
            lo = st.aux.get(("used", pos), 0)
            r = []
            for k in range(N + 3):
                if k < lo:
                    continue
                s2 = st.copy()
                s2.aux = dict(st.aux)
                if s2.aux.get("at") in (("?", pos), ("last", pos)) or s2.aux.get("lastof") == pos:
                    s2.aux["at"] = (self.base(pos), min(k, N) - 1)
                    s2.aux["lastof"] = pos
                r.append((s2, self.base(pos) + k * L.isz))
            return r
        return None

    def armw(self, eng, st, p, i, x):
        b, o = eng.split(p)
        pos = self.chunkof(st, b)
        if pos is None or o != self.L.next:
            return None
        r = []
        for k in range(N + 3):
            s2 = st.copy()
            s2.aux = dict(st.aux)
            old = self.base(pos) + k * self.L.isz
            eng.event(s2, "slot", pos, k, i["rmw"], eng.conc(s2, x))
            r.append((s2, old))
        return r

    def event(self, eng, st, e):
        if e[0] in ("it.begin", "it.none"):
            self.begin(st, e)
        elif e[0] == "it.next":
            self.leave(st)
            st.aux = dict(st.aux)
            st.aux["at"] = ("?", e[2])
            st.aux.pop("lastof", None)
        elif e[0] == "it.end":
            self.leave(st)
            st.aux = dict(st.aux)
            st.aux["at"] = "end"
            st.aux.pop("lastof", None)

    def begin(self, st, e):
        st.aux = dict(st.aux)
        st.aux["at"] = ("?", e[2]) if e[0] == "it.begin" else "end"
        st.aux.pop("lastof", None)

    def leave(self, st):
        at = st.aux.get("at")
        self.need(st, not st.aux.get("held"), "the chunk of an item which is referenced is left")
        self.need(st, isinstance(at, tuple) and isint(at[0]) and at[1] < 0, "a chunk is left although there are items before")

    def acquire(self, eng, st, f, args, info):
        self.claims += 1
        a = self.idx(st, eng.conc(st, args[0]))
        at = st.aux.get("at")
        self.need(st, a is not None and 0 <= a[1] < N, "something is acquired which is no item of a chunk")
        self.need(st, not st.aux.get("held"), "another item is acquired while there is a reference on one")
        if a is None:
            return []
        self.need(st, a == at, "item %s is acquired where item %s is the next candidate" % (a[1], at[1] if isinstance(at, tuple) else at))
        r = []
        for k in range(0, a[1] + 2):
            s2 = st.copy()
            s2.aux = dict(st.aux)
            s2.aux.pop("lastof", None)
            if k == 0:
                s2.aux["held"] = a
            s2.aux["at"] = (a[0], a[1] - k)
            r.append(Outcome("ret", s2, k))
        return r

    def release(self, eng, st, f, args, info):
        a = self.idx(st, eng.conc(st, args[0]))
        st.aux = dict(st.aux)
        if not st.aux.pop("armed", None):
            self.need(st, a is not None and a == st.aux.get("held"), "a reference is given back which was not taken")
            st.aux.pop("held", None)
        return [Outcome("ret", st, None)]

    def finish(self, st, it):
        """an iterator refers to the item on which it holds a reference, or is at the end"""
        L, eng = self.L, self.eng
        ch = eng.conc(st, eng.load(st, eng.padd(it, L.chunk), 8))
        cur = eng.conc(st, eng.load(st, eng.padd(it, L.cur), 8))
        h = st.aux.get("held")
        if h:
            self.need(st, cur == (h[0] + h[1] * L.isz) | MSB, "the iterator does not refer to the item on which it holds a reference")
            self.need(st, ch != 0 and self.base(ch) == h[0], "the iterator does not keep the chunk of its item")
            return True
        self.need(st, cur == 0 or isint(cur) and not cur & MSB, "the iterator claims a reference which it does not hold")
        return False


def itobj(P, st, name, chunk, cur):
    it = argp(P.eng, st, name, ELT + "::BackwardIterator<false>")
    setm(P.eng, st, it, P.L.chunk, chunk)
    P.eng.store(st, P.eng.ptr(it, P.L.chunk + 8), ("s", ("pi", chunk), 64), 8)
    setm(P.eng, st, it, P.L.cur, cur)
    return it


def startchunk(P, st):
    p = sym(("arg", "chunk0"))
    st.facts[p] = (1, MASK[64], NE)
    P.start = p
    return p


@rule("list.iterate", "C17 C01 C14 C03", minimum=20,
      text="iteration goes from the item which was added last, over all items which can be acquired, to the end: the next candidate is the one which the last "
           "attempt told, or the one before the current item, or the last of the next chunk, and a chunk is left only when there is no candidate in it; an "
           "iterator holds one reference on the item to which it refers and none when it is at the end")
def r_iterate(c):
    L = Lay(c)
    for name in ("rbegin", "crbegin", "rend", "crend"):
        f = c.drv("list_" + name)
        w = where(c, c.fn(CL + "::" + name))
        P = Pos(c, L, name, w)
        st0 = State()
        l = argp(P.eng, st0, "list", ELT)
        it = obj(st0, "it")
        outs = P.eng.run(f, [it, l], st0)
        c.absorb(P.eng)
        c.need(any(o.kind == "ret" for o in outs), name + " does not return", w)
        n = 0
        for o in outs:
            st = o.st
            P.need(st, o.kind == "ret", "throws")
            x = P.finish(st, it)
            n += x
            if not x:
                P.need(st, name.endswith("rend") or st.aux.get("at") == "end", "iteration ends before all items were tried")
                P.need(st, P.eng.conc(st, P.eng.load(st, P.eng.padd(it, L.cur), 8)) == 0, "the end of the iteration differs from rend()")
        c.need(name.endswith("rend") == (n == 0), name + ": no item is found" if n == 0 else name + " is not the end", w)
        c.instance(name)
        for k in range(min(n, N)):
            c.instance("%s, item %d" % (name, k))
    for name in ("list_it_inc", "list_cit_inc"):
        f = c.drv(name)
        w = where(c, c.fn(CL + "::BackwardIterator::operator++"))
        for k in range(N):
            for has in (1, 0):
                P = Pos(c, L, "operator++ at item %d%s" % (k, "" if has else ", which is gone"), w)
                st0 = State()
                ch = startchunk(P, st0)
                it = itobj(P, st0, "it", ch, B0 + k * L.isz | (MSB if has else 0))
                st0.aux = {"held": (B0, k)} if has else {}
                st0.aux["at"] = (B0, k - 1)
                outs = P.eng.run(f, [it], st0)
                c.absorb(P.eng)
                c.need(any(o.kind == "ret" for o in outs), "operator++ does not return", w)
                n = 0
                for o in outs:
                    P.need(o.st, o.kind == "ret", "throws")
                    x = P.finish(o.st, it)
                    n += x
                    if not x:
                        P.need(o.st, o.st.aux.get("at") == "end", "iteration ends before all items were tried")
                        P.need(o.st, P.eng.conc(o.st, P.eng.load(o.st, P.eng.padd(it, L.cur), 8)) == 0, "the end of the iteration differs from rend()")
                c.need(n > 0 and P.claims > 0, "operator++: no item is found", w)
                c.instance("%s, item %d" % (name, k))
    # as returned by push
    f = c.fn(CL + "::BackwardIterator::BackwardIterator", lambda g: len(g.args) == 3 and g.cls.startswith(ELT) and "<false>" in g.d)
    w = where(c, f)
    for k in range(N):
        P = Pos(c, L, "iterator at item %d" % k, w)
        st0 = State()
        ch = startchunk(P, st0)
        ci = obj(st0, "ci")
        P.eng.store(st0, ci, ch, 8)
        P.eng.store(st0, P.eng.padd(ci, 8), ("s", ("pi", ch), 64), 8)
        it = obj(st0, "it")
        st0.aux = {"at": (B0, k)}
        outs = P.eng.run(f, [it, ci, B0 + k * L.isz], st0)
        c.absorb(P.eng)
        n = 0
        for o in outs:
            P.need(o.st, o.kind == "ret", "throws")
            x = P.finish(o.st, it)
            n += o.st.aux.get("held") == (B0, k)
            if not x:
                P.need(o.st, o.st.aux.get("at") == "end", "iteration ends before all items were tried")
        c.need(n > 0, "iterator at item %d: does not refer to it" % k, w)
        c.instance("iterator at item %d" % k)
    for name in ("list_it_ne", "list_cit_ne"):
        f = c.drv(name)
        w = where(c, c.fn(CL + "::BackwardIterator::operator!="))
        for x, y in ((B0 | MSB, B0 | MSB), (B0 | MSB, B0 + L.isz | MSB), (0, 0), (B0 | MSB, 0), (B0 | MSB, B1 | MSB)):
            P = Pos(c, L, "operator!=", w)
            st0 = State()
            ch = startchunk(P, st0)
            a = itobj(P, st0, "a", ch if x else 0, x)
            b = itobj(P, st0, "b", ch if y else 0, y)
            outs = normal(P.eng.run(f, [a, b], st0))
            c.absorb(P.eng)
            c.need(len(outs) > 0, "operator!= does not return", w)
            for o in outs:
                P.need(o.st, known(P.eng, o.st, o.val) == int(x != y), "two iterators at %s compare wrong" % ("different items" if x != y else "the same item"))
            c.instance(name)


@rule("list.reference", "C17", minimum=10,
      text="copies of an iterator take a reference of their own on the item, an iterator which is assigned gives back its reference, takes one on the new "
           "item, and one which is destroyed gives it back; dereferencing gives the value of the item")
def r_reference(c):
    L = Lay(c)
    acc = CL + "::ItemAccess"
    for k in range(N):
        # copy
        f = c.drv("list_it_copy")
        w = where(c, c.fn(acc + "::ItemAccess"))
        P = Pos(c, L, "copy of an iterator", w)
        st0 = State()
        ch = startchunk(P, st0)
        it = itobj(P, st0, "it", ch, B0 + k * L.isz | MSB)
        st0.aux = {"at": (B0, k)}
        cp = obj(st0, "copy")
        outs = P.eng.run(f, [cp, it], st0)
        c.absorb(P.eng)
        hit = 0
        for o in outs:
            P.need(o.st, o.kind == "ret", "throws")
            P.finish(o.st, cp)
            P.need(o.st, P.eng.load(o.st, P.eng.padd(it, L.cur), 8) == B0 + k * L.isz | MSB, "the original is changed")
            hit += o.st.aux.get("held") == (B0, k)
        c.need(hit > 0, "copy of an iterator: does not refer to the item", w)
        c.instance("copy, item %d" % k)
        # destruction
        f = c.drv("list_it_dtor")
        w = where(c, c.fn(acc + "::~ItemAccess"))
        for has in (1, 0):
            P = Pos(c, L, "destruction of an iterator", w)
            st0 = State()
            ch = startchunk(P, st0)
            it = itobj(P, st0, "it", ch, B0 + k * L.isz | (MSB if has else 0))
            st0.aux = {"at": (B0, k)}
            if has:
                st0.aux["held"] = (B0, k)
            outs = P.eng.run(f, [it], st0)
            c.absorb(P.eng)
            c.need(len(outs) > 0, "destruction of an iterator does not return", w)
            for o in outs:
                P.need(o.st, o.kind == "ret", "throws")
                P.need(o.st, not o.st.aux.get("held"), "the reference on the item is not given back")
            c.need(P.claims == 0, "destruction of an iterator: takes a reference", w)
        c.instance("destruction, item %d" % k)
        # assignment
        f = c.drv("list_it_assign")
        w = where(c, c.fn(CL + "::BackwardIterator::operator="))
        for has in (1, 0):
            for src in (0, 1):
                P = Pos(c, L, "assignment of an iterator", w)
                st0 = State()
                ch = startchunk(P, st0)
                c1 = sym(("arg", "chunk1"))
                st0.facts[c1] = (1, MASK[64], NE)
                it = itobj(P, st0, "it", ch, B0 + k * L.isz | MSB if has else 0)
                ot = itobj(P, st0, "other", c1 if src else 0, (B1 + (N - 1 - k) * L.isz | MSB) if src else 0)
                st0.aux = {"at": (B1, N - 1 - k) if src else "end"}
                if has:
                    st0.aux["held"] = (B0, k)
                outs = P.eng.run(f, [it, ot], st0)
                c.absorb(P.eng)
                hit = 0
                for o in outs:
                    P.need(o.st, o.kind == "ret", "throws")
                    P.finish(o.st, it)
                    P.need(o.st, o.st.aux.get("held") != (B0, k), "the former reference is not given back")
                    hit += o.st.aux.get("held") == (B1, N - 1 - k) if src else P.eng.conc(o.st, P.eng.load(o.st, P.eng.padd(it, L.cur), 8)) == 0
                    P.need(o.st, o.st.aux.get("held") in (None, (B1, N - 1 - k)), "refers to something else than what was assigned")
                c.need(hit > 0, "assignment of an iterator: does not refer to the item which was assigned", w)
                c.instance("assignment, item %d" % k)
        # access
        f = c.drv("list_it_deref")
        w = where(c, c.fn(acc + "::operator*"))
        P = Pos(c, L, "access", w)
        st0 = State()
        ch = startchunk(P, st0)
        it = itobj(P, st0, "it", ch, B0 + k * L.isz | MSB)
        outs = normal(P.eng.run(f, [it], st0))
        c.absorb(P.eng)
        c.need(len(outs) > 0, "access does not return", w)
        for o in outs:
            want = B0 + k * L.isz + L.value
            P.need(o.st, P.eng.conc(o.st, o.val) == want, "the value is not the one of the item")
        c.instance("access, item %d" % k)


@rule("list.push", "C17 C01 C03", minimum=4,
      text="push takes a slot of the newest chunk in one atomic step, which no other push gets, makes the element there and returns an iterator for it; it uses "
           "every slot it took; the one which finds the chunk just exhausted, or no chunk, appends a new one")
def r_push(c):
    L = Lay(c)
    f = c.drv("list_push")
    w = where(c, c.fn(CL + "::push"))

    class Push(Pos):
        def aload(self, eng, st, p, i):
            r = super().aload(eng, st, p, i)
            if r and eng.split(p)[1] == L.next:
                for s2, v in r:
                    s2.aux = dict(s2.aux)
                    s2.aux["full"] = (v - B1) // L.isz
            return r

        def attempt(self, st, last):
            eng = self.eng
            tr = st.trace
            sl = [(i, e) for i, e in enumerate(tr) if e[0] == "slot"]
            mk = [(i, e) for i, e in enumerate(tr) if e[0] == "made"]
            nw = [i for i, e in enumerate(tr) if e[0] == "chunk.new"]
            for i, e in sl:
                self.need(st, e[3] == "add" and e[4] == L.isz or e[3] == "sub" and e[4] == (-L.isz) & MASK[64], "the next free slot is not advanced by one item")
                heads = [x for x in tr[:i] if x[0] == "it.begin"]
                self.need(st, bool(heads) and heads[-1][2] == e[1], "a slot is taken in a chunk which is not the newest one")
            won = [(i, e) for i, e in sl if e[2] < N]
            if last:
                self.need(st, len(won) == 1, "not exactly one slot is taken")
            else:
                self.need(st, not won, "a slot which was taken is not used")
                self.need(st, not mk, "the element is added again")
                if [1 for i, e in sl if e[2] == N]:
                    self.need(st, len(nw) >= 1, "the chunk is exhausted and nobody appends a new one")
                if not sl and not nw:
                    self.need(st, st.aux.get("full", 0) > N, "waits for a new chunk although nobody knows yet that the chunk is exhausted")
                if [1 for e in tr if e[0] == "it.none"]:
                    self.need(st, len(nw) >= 1, "there is no chunk and nobody makes one")
            if won:
                i, e = won[0]
                if last:
                    self.need(st, [x[1] for j, x in mk] == [B1 + e[2] * L.isz], "the element is not made once in the slot which was taken")
                    self.need(st, all(j > i for j, x in mk), "the element is made before the slot was taken")
            self.attempts = getattr(self, "attempts", 0) + 1

        def begin(self, st, e):
            # a new attempt
            if any(x[0] in ("it.begin", "it.none", "slot", "chunk.new") for x in st.trace):
                self.attempt(st, False)
                drop_before(st, len(st.trace))
                st.aux = dict(st.aux)
                st.aux.pop("full", None)
            super().begin(st, e)

        def assign(self, eng, st, g, args, info):
            a = eng.conc(st, args[0])
            eng.event(st, "made", a, args[1])
            self.need(st, args[1] == self.value, "something else than the argument is added")
            i = self.idx(st, a)
            st.aux = dict(st.aux)
            if i:
                st.aux["at"] = i
            return [Outcome("ret", st, eng.padd(args[0], L.value))]

    def made(eng, st, g, args, info):
        a = [x for x in args[1:] if isint(eng.conc(st, x))]
        ch = [eng.load(st, x, 8) for x in args[1:] if not isint(eng.conc(st, x))]
        eng.event(st, "iter", eng.conc(st, a[-1]) if a else None, ch[0] if ch else None)
        return [Outcome("ret", st, None)]
    P = Push(c, L, "push", w)
    P.eng.cfg.models = [(lambda g: g.qual == CL + "::Item::operator=", P.assign),
                        (lambda g: g.qual == CL + "::BackwardIterator::BackwardIterator" and len(g.args) == 3, made)] + P.eng.cfg.models
    st0 = State()
    l = argp(P.eng, st0, "list", ELT)
    P.value = argp(P.eng, st0, "value", "drv::Elem")
    g = c.fn(CL + "::push", lambda g: g.cls.startswith(ELT))
    it = obj(st0, "it")
    outs = P.eng.run(g, [it, l, P.value], st0)
    c.absorb(P.eng)
    n = set()
    for o in outs:
        P.need(o.st, o.kind == "ret", "throws")
        P.attempt(o.st, True)
        mk = [(i, e) for i, e in enumerate(o.st.trace) if e[0] == "made"]
        its = [(i, e) for i, e in enumerate(o.st.trace) if e[0] == "iter"]
        sl = [e for e in o.st.trace if e[0] == "slot" and e[2] < N]
        if mk and sl:
            P.need(o.st, len(its) == 1 and its[0][1][1] == mk[0][1][1] and its[0][1][2] == sl[0][1], "does not return an iterator for the new element")
            P.need(o.st, all(i > mk[0][0] for i, e in its), "the iterator is made before the element")
            i = P.idx(o.st, mk[0][1][1])
            if i:
                n.add(i[1])
    c.need(n == set(range(N)), "push: a slot is never used", w)
    for k in n:
        c.instance("slot %d" % k)
    for k in range(min(P.attempts, 4)):
        c.instance("attempt")
    del f


@rule("list.remove", "C17 C16 C14", minimum=6,
      text="remove marks the item, with a distance over no more than items which are already destroyed, before it gives back the reference of the list on it; "
           "the item is counted once in its chunk, which is erased exactly when that was its last item; a position which is no item of the list is refused")
def r_remove(c):
    L = Lay(c)
    f = c.drv("list_remove")
    w = where(c, c.fn(CL + "::remove"))
    spots = [(k, "item %d" % k) for k in range(N)] + [(-1, "before the first item"), (N, "behind the last item"), (None, "the end")]
    for k, what in spots:
        P = Pos(c, L, "remove, " + what, w)
        eng = P.eng
        st0 = State()
        l = argp(eng, st0, "list", ELT)
        ch = startchunk(P, st0)
        it = itobj(P, st0, "it", 0 if k is None else ch, 0 if k is None else (B0 + k * L.isz | (MSB if 0 <= k < N else 0)))
        # the release of the list's own reference is what is looked at
        def rel(e_, st, g, args, info):
            eng.event(st, "give", eng.conc(st, args[0]))
            return [Outcome("ret", st, None)]
        eng.cfg.models = [(lambda g: g.qual == CL + "::Item::release", rel)] + eng.cfg.models
        eng.cfg.on_event = None
        eng.cfg.models = [(lambda g: g.ctx == CL + "::ItemAccess" and g.base == "~ItemAccess", lambda e_, st, g, args, info: [Outcome("ret", st, None)])] + eng.cfg.models
        outs = eng.run(f, [l, it], st0.copy())
        c.absorb(eng)
        c.need(len(outs) > 0, "remove: no outcome", w)
        direct = 0
        for o in outs:
            st = o.st
            tr = st.trace
            give = [(i, e) for i, e in enumerate(tr) if e[0] == "give"]
            mark = [(i, e) for i, e in enumerate(tr) if e[0] == "astore"]
            erase = [(i, e) for i, e in enumerate(tr) if e[0] == "chunk.erase"]
            rm = [(i, e) for i, e in enumerate(tr) if e[0] == "rmw"]
            if k is None or not 0 <= k < N:
                P.need(st, o.kind != "ret" and not give and not mark and not erase and not rm, "is accepted")
                continue
            P.need(st, o.kind == "ret", "is refused")
            if o.kind != "ret":
                continue
            x = B0 + k * L.isz
            P.need(st, [e[1] for i, e in give] == [x], "the reference of the list is not given back once")
            P.need(st, len(mark) == 1 and mark[0][1][2] == x + L.off, "the item is not marked by one store")
            if len(mark) != 1 or len(give) != 1:
                continue
            P.need(st, mark[0][0] < give[0][0], "the reference is given back before the item is marked as removed")
            P.need(st, mark[0][1][4] in REL, "the mark is not visible to those who see that the reference is gone")
            v = eng.conc(st, mark[0][1][3])
            if v == 1:
                direct += 1
            else:
                p = x - L.isz
                lds = [(i, e) for i, e in enumerate(tr) if e[0] == "aload" and e[2] == p + L.off]
                ok = False
                for i, e in lds:
                    for z in (0, 1, 2, 3, 500):
                        s = set()
                        freshsyms(v, s)
                        try:
                            ok = s == {e[3]} and ev(v, {e[3]: z}) & MASK[L.offw] == z + 1
                        except Unknown:
                            ok = False
                        if not ok:
                            break
                    if ok:
                        rl = [(j, y) for j, y in enumerate(tr[:i]) if y[0] == "aload" and y[2] == p + L.ref]
                        gone = any(vs and all(neg(L.refw, q) for q in vs) for vs in [values(eng, st, y[3], counts(L.refw)) for j, y in rl])
                        P.need(st, k > 0 and gone, "the candidate before the item is skipped although it may still become or be an element")
                        break
                P.need(st, ok, "the distance to the next candidate is neither one nor one more than the distance of a destroyed predecessor")
            cnt = [(i, e) for i, e in rm if e[2] == eng.ptr(elem(ch), L.freed)]
            P.need(st, len(cnt) == 1 and rmw_add(cnt[0][1], 64) == 1 and len(rm) == 1, "the item is not counted once as removed from its chunk")
            if len(cnt) != 1:
                continue
            vs = values(eng, st, cnt[0][1][5], range(0, N + 2))
            if vs == [N - 1]:
                P.need(st, len(erase) == 1 and erase[0][1][2] == ch, "the chunk is not erased after its last item was removed")
            else:
                P.need(st, not erase and N - 1 not in vs, "the chunk is erased although it still has items, or it does not depend on that")
            for i, e in erase:
                P.need(st, i > give[0][0] and i > mark[0][0], "the chunk is erased before the item is removed")
        if k is not None and 0 <= k < N:
            c.need(direct > 0, "remove, %s: there is always more than one item skipped" % what, w)
        c.instance(what)
    # no item of a list is ever made to exist by anything else
    n = 0
    for g in c.P.fns.values():
        if g.ctx in (CL, CL + "::Item", CL + "::ItemAccess", CL + "::BackwardIterator", CL + "::Chunk"):
            n += 1
    c.need(n > 0, "no code of ChunkedList", w)


@rule("list.erase", "C17 C13 C14", minimum=2,
      text="erase removes every element of the list which equals the value, and no other one")
def r_erase(c):
    f = c.drv("list_erase")
    g = c.fn(CL + "::erase", lambda g: g.cls.startswith(ELT))
    w = where(c, g)

    def eq(eng, st, h, args, info):
        v = eng.fresh(st, info.cs, info.i["n"], 1)
        eng.event(st, "equal", args[0], args[1], v)
        return [Outcome("ret", st, v)]
    eng = c.engine(models=raw(CL + "::erase") + [(lambda h: h.qual == "drv::Elem::operator==", eq)] + elems())
    st0 = State()
    l = argp(eng, st0, "list", ELT)
    x = argp(eng, st0, "value", "drv::Elem")
    seen = [0]

    def check(st, pos):
        e = elem(pos)
        tr = since(st, pos)
        q = [y for y in tr if y[0] == "equal" and e in (y[1], y[2])]
        rm = [y for y in tr if y[0] == "remove"]
        seen[0] += 1
        need = lambda cond, msg: c.need(cond, "erase: " + msg, w, eng, st)
        need(bool(q), "an element is not compared")
        if not q:
            return
        v = known(eng, st, q[-1][3])
        need(v is not None, "does not depend on the comparison")
        if v == 1:
            need(len(rm) == 1 and rm[0][2] == pos, "an element which equals the value is not removed once")
        else:
            need(not rm, "an element is removed which differs from the value")
        other = [z for y in q for z in (y[1], y[2]) if z != e]
        cps = [y for y in st.trace if y[0] == "call" and y[1] == "copy"]
        need(all(z == x or any(z == y[2] and y[3] == x for y in cps) for z in other), "elements are compared with something else")

    def on_next(eng_, st, pos):
        check(st, pos)
        forget(st, pos, keep=("call",))
    eng.cfg.on_next = on_next
    outs = normal(eng.run(f, [l, x], st0.copy()))
    c.absorb(eng)
    c.need(len(outs) > 0, "erase does not return", w)
    for o in outs:
        loops_complete(c, eng, o.st, l, "erase", w)
        for i, e in evs(o.st, "remove"):
            c.need(e[1] == l, "erase: something is removed from another list", w, eng, o.st)
    c.need(seen[0] > 0, "erase: elements are not iterated", w)
    c.instance("elements")
    c.instance("end")


VEND = ("k", "vend")


def vectors():
    """a local vector: its elements are visited in a direction"""
    def put(eng, st, f, args, v):
        if f.args and f.args[0].get("sret"):
            eng.store(st, args[0], v, 8)
            return [Outcome("ret", st, None)]
        return [Outcome("ret", st, v)]

    def vec(eng, st, f, args, info):
        b = f.base
        this = args[1] if f.args and f.args[0].get("sret") else args[0]
        if b in ("begin", "cbegin", "rbegin", "crbegin"):
            pos = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
            eng.event(st, "vec.begin", this, "back" if "rb" in b else "forth", pos)
            return put(eng, st, f, args, pos)
        if b in ("end", "cend", "rend", "crend"):
            return put(eng, st, f, args, VEND)
        return None

    def it(eng, st, f, args, info):
        b = f.base
        if b == "operator++" and len(args) == 1:
            old = eng.load(st, args[0], 8)
            if eng.cfg.on_next:
                eng.cfg.on_next(eng, st, old)
            saved = st.ren
            pos = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
            new = st.ren - saved
            if new:
                old = subst(old, dict(new), {})
            eng.event(st, "vec.next", old, pos)
            eng.store(st, args[0], pos, 8)
            return [Outcome("ret", st, args[0])]
        if b in ("operator*", "operator->") and len(args) == 1:
            return [Outcome("ret", st, ("s", ("velem", eng.load(st, args[0], 8)), 64))]
        return None

    def eq(eng, st, f, args, info):
        t = eng.cmp(st, "eq", 64, eng.load(st, args[0], 8), eng.load(st, args[1], 8))
        return [Outcome("ret", st, t if f.base == "operator==" else eng.lnot(t))]
    its = ("std::reverse_iterator", "__gnu_cxx::__normal_iterator")
    return [(lambda f: f.ctx == "std::vector" and f.base in ("begin", "cbegin", "rbegin", "crbegin", "end", "cend", "rend", "crend"), vec),
            (lambda f: f.ctx in its and f.base in ("operator++", "operator*", "operator->"), it),
            (lambda f: f.qual in ("std::operator==", "std::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator!=")
             and any("_iterator" in t for t in f.types), eq)]


def small_copy(c, f, w, CT, n, need):
    """the copy of a list with n elements, step by step; need(cond, msg)"""
    size = c.P.size("drv::Elem") or 4

    def it(eng, st, g, args, info):
        b = g.base
        if b in ("rbegin", "crbegin", "rend", "crend"):
            setpos(eng, st, args[0], n if "begin" in b else 0)
            return [Outcome("ret", st, None)]
        if b == "operator++":
            p = eng.conc(st, itpos(eng, st, args[0]))
            setpos(eng, st, args[0], p - 1)
            return [Outcome("ret", st, args[0])]
        if b in ("operator*", "operator->"):
            return [Outcome("ret", st, elem(eng.conc(st, itpos(eng, st, args[0]))))]
        if b in ("operator!=", "operator=="):
            same_ = eng.conc(st, itpos(eng, st, args[0])) == eng.conc(st, itpos(eng, st, args[1]))
            return [Outcome("ret", st, int(same_ == (b == "operator==")))]
        return None

    def lpush(eng, st, g, args, info):
        eng.event(st, "add%d" % len(st.trace), args[1], eng.load(st, args[2], size))
        setpos(eng, st, args[0], eng.fresh(st, info.cs, info.i["n"], 64, tag="c"))
        return [Outcome("ret", st, None)]

    def copy(eng, st, g, args, info):
        if len(args) == 2:
            eng.store(st, args[0], eng.load(st, args[1], size), size)
        return [Outcome("ret", st, None)]

    def new(eng, st, g, args, info):
        k = st.aux["n"] = st.aux.get("n", 0) + 1
        return [Outcome("ret", st, argp(eng, st, "block%d" % k))] if k < 64 else None
    nop = lambda eng, st, g, args, info: [Outcome("ret", st, None)]
    lib = ("std::vector", "std::_Vector", "std::reverse_iterator", "__gnu_cxx", "std::allocator", "std::__", "std::_")
    m = [(lambda g: g.qual == CT and len(g.args) == 3, lambda *a: None), (lambda g: g.qual == CL + "::push", lpush),
         (lambda g: g.ctx == CL and g.base in ("rbegin", "crbegin", "rend", "crend"), it),
         (lambda g: g.ctx.startswith(CL) and g.base in ("operator++", "operator*", "operator->", "operator!=", "operator=="), it),
         (lambda g: g.qual == "drv::Elem::Elem", copy), (lambda g: g.qual == "drv::Elem::~Elem", nop),
         (lambda g: g.name == "_Znwm", new), (lambda g: g.name.startswith("_ZdlPv"), nop),
         (lambda g: g.blocks is not None and g.qual.startswith(lib), lambda *a: None)]
    eng = c.engine(models=m)
    st0 = State()
    p = obj(st0, "new")
    l = argp(eng, st0, "other", ELT)
    outs = normal(eng.run(f, [p, l], st0))
    c.absorb(eng)
    need(len(outs) > 0, "does not return", None, None)
    for o in outs:
        st = o.st
        ad = [e for e in st.trace if e[0].startswith("add")]
        want = [eng.load(st, elem(k), size) for k in range(1, n + 1)]
        need(all(e[1] == p for e in ad), "something else is added", eng, st)
        need([e[2] for e in ad] == want, "the copy of %d elements has others, or in another order" % n, eng, st)


def copy_shape(c, f, w, CT):
    """the copy of a list with any number of elements; gives what is not as expected"""
    bad = []

    def need_(cond, msg):
        c.obl += 1
        c.cur["obligations"] += 1
        if not cond:
            bad.append(msg)
        return cond


    def push(eng, st, f, args, info):
        v = args[1]
        # a copy which was made on the way
        for e in st.trace:
            if e[0] == "call" and e[1] == "copy" and e[2] == v:
                v = e[3]
        eng.event(st, "vec.push", args[0], v)
        return [Outcome("ret", st, None)]

    def lpush(eng, st, f, args, info):
        pos = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
        eng.event(st, "add", args[1], args[2])
        eng.store(st, args[0], pos, 24)
        return [Outcome("ret", st, None)]
    m = [(lambda g: g.qual == CT and len(g.args) == 3, lambda *a: None),
         (lambda g: g.qual == CL + "::push", lpush),
         (lambda g: g.ctx == "std::vector" and g.base in ("push_back", "emplace_back"), push)] + vectors() + elems()
    eng = c.engine(models=m)
    st0 = State()
    p = obj(st0, "new")
    l = argp(eng, st0, "other", ELT)
    seen = set()

    def check(st, pos):
        need = need_
        tr = st.trace
        lp = [e for e in tr if e[0] in ("it.begin", "it.next") and e[2] == pos]
        vp = [e for e in tr if e[0] in ("vec.begin", "vec.next") and (e[3] if e[0] == "vec.begin" else e[2]) == pos]
        if lp:
            seen.add("list")
            k = max(i for i, e in enumerate(tr) if e in lp)
            x = [e for e in tr[k:] if e[0] == "vec.push"]
            need(len(x) == 1 and x[0][2] == elem(pos), "an element of the original is not collected once")
            need(not [e for e in tr[k:] if e[0] == "add"], "the elements are added in reverse order")
        if vp:
            seen.add("vector")
            k = max(i for i, e in enumerate(tr) if e in vp)
            x = [e for e in tr[k:] if e[0] == "add"]
            need(len(x) == 1 and x[0][1] == p and x[0][2] == ("s", ("velem", pos), 64), "an element is not added once to the copy")
            need(not [e for e in tr[k:] if e[0] == "vec.push"], "the collected elements change while they are added")

    def on_next(eng_, st, pos):
        check(st, pos)
    eng.cfg.on_next = on_next
    outs = normal(eng.run(f, [p, l], st0))
    c.absorb(eng)
    need_(len(outs) > 0, "does not return")
    for o in outs:
        st = o.st
        need = need_
        loops_complete(c, eng, st, l, "copy of a list", w)
        vb = [(i, e) for i, e in enumerate(st.trace) if e[0] == "vec.begin"]
        need(len(vb) == 1, "the collected elements are not traversed once")
        if len(vb) != 1:
            continue
        i, e = vb[0]
        need(e[2] == "back", "the elements are added in reverse order")
        need(all(x[1] == e[1] for x in st.trace if x[0] == "vec.push"), "another vector is traversed")
        need(not [x for x in st.trace[i:] if x[0] in ("it.next", "it.begin", "vec.push")], "the elements are added before all were collected")
        need(not [x for x in st.trace[:i] if x[0] == "add"], "something else is added")
        cur = {e[3]}
        for x in st.trace[i:]:
            if x[0] == "vec.next" and x[1] in cur:
                cur.add(x[2])
        need(any(eng.cmp(st, "eq", 64, q, VEND) == 1 for q in cur), "not all elements are added")
        need([x[1] for x in st.trace if x[0] == "list.init"] == [p], "the copy does not begin as an empty list")
    need_(seen == {"list", "vector"}, "no element is copied")
    return bad


@rule("list.copy", "C17 C13", minimum=3,
      text="the copy of a list has the elements of the original, each once and in the same order")
def r_copy(c):
    f = c.drv("list_copy")
    CT = CL + "::ChunkedList"
    w = where(c, c.fn(CT, lambda g: len(g.args) == 3))
    before = len(c.viol)
    try:
        general = copy_shape(c, f, w, CT)
    except (Missing, Unsupported):
        general = None
    if general == [] and len(c.viol) == before:
        for x in ("any number of elements", "collecting", "adding"):
            c.instance(x)
        return
    del c.viol[before:]
    # not written as two loops over a collection: step by step for small lists
    for n in range(5):
        small_copy(c, f, w, CT, n, lambda cond, msg, eng, st: c.need(cond, "copy of a list: " + msg, w, eng, st))
        c.instance("%d elements" % n)
