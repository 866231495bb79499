"""Memory: bump allocation, chunked allocation, arenas."""
from lib import *
from r_access import ev, consistent, paths, Unknown
from r_guard import parse

BA = "redGrapes::memory::BumpAllocator"
CBA = "redGrapes::memory::ChunkedBumpAlloc"
AL = "redGrapes::memory::AtomicList"
ALIT = AL + "::BackwardIterator"
MEM = "redGrapes::memory::"
LOWER, UPPER = 1 << 20, (1 << 20) + 65536


class Sim:
    """values which the accesses of one path to the counter and to the position read, if other threads interfere between them"""

    def __init__(self, c, env, this, old, cnt, step):
        self.env, self.old, self.cnt, self.step = env, old, cnt, step
        self.next_addr = c.off(BA, "next_addr")
        self.count = c.off(BA, "count")
        self.cw = 8 * c.P.types[BA]["size"]
        self.this = this

    def run(self, eng, st):
        """list of (what, before, after, kind)"""
        cur = {self.next_addr: self.old, self.count: self.cnt}
        log = []
        first = True
        for e in st.trace:
            if e[0] not in ("aload", "rmw", "cas", "astore"):
                continue
            b, o = eng.split(e[2])
            if b != self.this or o not in cur:
                continue
            if not first and o == self.next_addr and self.step:
                cur[o] -= self.step
            if o == self.next_addr:
                first = False
            old = cur[o]
            if e[0] == "aload":
                self.env[e[3]] = old
            elif e[0] == "astore":
                cur[o] = ev(e[3], self.env)
                log.append((o, None, cur[o], "store"))
            elif e[0] == "rmw":
                self.env[e[5]] = old & MASK[64 if o == self.next_addr else 16]
                x = ev(e[4], self.env)
                if e[3] not in ("add", "sub"):
                    log.append((o, None, None, "rmw"))
                    continue
                w = 64 if o == self.next_addr else 16
                x = sgn(x & MASK[w], w) if o == self.count else x
                cur[o] = (old + x if e[3] == "add" else old - x)
                if o == self.next_addr:
                    cur[o] = old + sgn(x & MASK[64], 64) * (1 if e[3] == "add" else -1)
                log.append((o, old, cur[o], "rmw"))
            elif e[0] == "cas":
                if e[5] == 1:
                    if ev(e[3], self.env) != old:
                        return None
                    cur[o] = ev(e[4], self.env)
                    log.append((o, old, cur[o], "rmw"))
                elif len(e) > 7 and isinstance(e[7], tuple):
                    self.env[e[7]] = old
        return log


def benv(c, lower=LOWER, upper=UPPER, **kw):
    env = {("this", c.off(BA, "lower_limit")): lower, ("this", c.off(BA, "upper_limit")): upper, ("s", ("arg", "this"), 64): 1 << 16}
    for k, v in kw.items():
        env[("s", ("arg", k), 64)] = v
    return env


def holds(cond, env):
    try:
        return consistent(cond, env)
    except Unknown:
        return None


@rule("alloc.bump", "C16", minimum=60,
      text="BumpAllocator::allocate counts the allocation and then takes its bytes from the free part of the chunk in one atomic step; it returns null, "
           "counting nothing and giving nothing back, only if the remaining bytes do not suffice")
def r_bump(c):
    f = c.fn(BA + "::allocate")
    w = where(c, f)
    eng = c.engine()
    st0 = State()
    this = argp(eng, st0, "this", BA)
    n = argi(eng, st0, "n", 64)
    ps = paths(c, f, [this, n], st0, eng)
    NA, CN = c.off(BA, "next_addr"), c.off(BA, "count")
    for free in (0, 1, 8, 63, 64, 65, 4096, 65536):
        for size in (1, 8, 64, 128, 4096, 65536):
            for step in (0, 256):
                env0 = benv(c, n=size)
                hit = 0
                for cond, o in ps:
                    env = dict(env0)
                    log = Sim(c, env, this, LOWER + free, 3, step).run(eng, o.st)
                    if log is None or not holds(cond, env):
                        continue
                    hit += 1
                    need = lambda cond, msg: c.need(cond, "allocating %d of %d free bytes: %s" % (size, free, msg), w, eng, o.st)
                    p, l = [ev(eng.conc(o.st, x), env) for x in agg(eng, o, 2)]
                    pos = [x for x in log if x[0] == NA]
                    cnt = [x for x in log if x[0] == CN]
                    need(all(x[3] == "rmw" and x[1] is not None for x in log), "the position or the counter is changed by something else than an atomic addition")
                    if any(x[1] is None for x in log):
                        continue
                    need(all(x[2] <= x[1] for x in pos), "bytes are given back, which may belong to another thread by now")
                    net = sum(x[2] - x[1] for x in cnt)
                    if p == 0:
                        if not step:
                            need(free < size, "refused although the bytes suffice")
                        need(net == 0, "a refused allocation stays counted")
                        continue
                    taken = [x for x in pos if x[2] <= p and p + size <= x[1] and x[2] < x[1]]
                    need(len(taken) == 1, "the block is not made of the bytes which were taken in one atomic step")
                    need(p >= LOWER, "the block begins before the chunk")
                    need(l >= size and (not taken or p + l <= taken[0][1]), "wrong length of the block")
                    need(net == 1, "the allocation is not counted once")
                    i = [k for k, x in enumerate(log) if x[0] == CN and x[2] > x[1]]
                    need(bool(i) and bool(taken) and i[0] < log.index(taken[0]), "the bytes are taken before the allocation is counted")
                c.need(hit > 0 or step, "allocating %d of %d free bytes: no result" % (size, free), w)
                c.instance("%d of %d bytes%s" % (size, free, ", interference" if step else ""))


def agg(eng, o, n):
    v = o.val
    if isinstance(v, tuple) and v[0] == "agg":
        return [eng.conc(o.st, v[1][k]) for k in range(n)]
    raise Unknown(v)


@rule("alloc.free", "C16", minimum=7,
      text="BumpAllocator::deallocate counts one allocation less in one atomic step, tells how many there were, and changes nothing else; owns, full and "
           "empty tell whether the block begins in the chunk, nothing is left, and no allocation is counted")
def r_free(c):
    NA, CN = c.off(BA, "next_addr"), c.off(BA, "count")
    f = c.fn(BA + "::deallocate")
    w = where(c, f)
    eng = c.engine()
    st0 = State()
    this = argp(eng, st0, "this", BA)
    a = [argi(eng, st0, "p", 64), argi(eng, st0, "l", 64)]
    ps = paths(c, f, [this] + a, st0, eng)
    for cnt in (1, 2, 3, 65535):
        hit = 0
        for cond, o in ps:
            env = benv(c, p=LOWER + 128, l=64)
            log = Sim(c, env, this, LOWER, cnt, 0).run(eng, o.st)
            if log is None or not holds(cond, env):
                continue
            hit += 1
            need = lambda cond, msg: c.need(cond, "BumpAllocator::deallocate with %d allocations: %s" % (cnt, msg), w, eng, o.st)
            need(len(log) == 1 and log[0][0] == CN and log[0][3] == "rmw" and log[0][1] is not None and log[0][2] == log[0][1] - 1,
                 "the counter is not decremented once by an atomic step")
            need(ev(eng.conc(o.st, o.val), env) & MASK[16] == cnt, "does not return the number of allocations before")
        c.need(hit > 0, "BumpAllocator::deallocate does not return", w)
        c.instance("%d allocations" % cnt)

    f = c.fn(BA + "::owns")
    w = where(c, f)
    eng = c.engine()
    st0 = State()
    this = argp(eng, st0, "this", BA)
    b = argp(eng, st0, "blk", MEM + "Block")
    ps = paths(c, f, [this, b], st0, eng)
    for p in (0, 1, LOWER - 64, LOWER - 1, LOWER, LOWER + 1, UPPER - 64, UPPER - 1, UPPER, UPPER + 1, MASK[64]):
        for l in (1, 64):
            hit = 0
            for cond, o in ps:
                env = benv(c)
                env[("blk", c.off(MEM + "Block", "ptr"))] = p
                env[("blk", c.off(MEM + "Block", "len"))] = l
                env[b] = 4096
                if not holds(cond, env):
                    continue
                hit += 1
                want = LOWER <= p < UPPER
                c.need((ev(eng.conc(o.st, o.val), env) & 1) == want, "owns: a block %+d bytes from the beginning, %+d from the end of the chunk is %s" % (
                    p - LOWER, p - UPPER, "not recognised" if want else "taken for one of this chunk"), w, eng, o.st)
            c.need(hit > 0, "owns does not return", w)
    c.instance("owns")

    for meth, grid in (("full", [(LOWER + d, 0, int(d <= 0)) for d in (-65536, -64, -1, 0, 1, 64, 65536)]), ("empty", [(LOWER, k, int(k == 0)) for k in (0, 1, 2, 65535)])):
        f = c.fn(BA + "::" + meth)
        w = where(c, f)
        eng = c.engine()
        st0 = State()
        this = argp(eng, st0, "this", BA)
        ps = paths(c, f, [this], st0, eng)
        for pos, cnt, want in grid:
            hit = 0
            for cond, o in ps:
                env = benv(c)
                log = Sim(c, env, this, pos, cnt, 0).run(eng, o.st)
                if log is None or not holds(cond, env):
                    continue
                hit += 1
                c.need(not log, meth + " modifies the chunk", w, eng, o.st)
                c.need(ev(eng.conc(o.st, o.val), env) & 1 == want, "%s() is wrong with %d bytes left and %d allocations" % (meth, pos - LOWER, cnt), w, eng, o.st)
            c.need(hit > 0, meth + " does not return", w)
        c.instance(meth)


@rule("alloc.chunk", "C16", minimum=2, text="a chunk for bump allocation begins with no allocations, all of the block it was given free, and limits which are those of the block")
def r_chunk(c):
    for f in c.fns(BA + "::BumpAllocator", lambda g: len(g.args) == 3):
        w = where(c, f)
        eng = c.engine()
        st0 = State()
        this = ("o", ("al", 0, "chunk", 0), 0)
        st0.mem[this] = {}
        eng.settype(this, 0, BA)
        a = argi(eng, st0, "a", 64)
        b = argi(eng, st0, "b", 64)
        blk = "Block" in " ".join(f.types)
        outs = normal(eng.run(f, [this, a, b], st0.copy()))
        c.absorb(eng)
        c.need(len(outs) > 0, "BumpAllocator() does not return", w)
        for o in outs:
            st = o.st
            env = {a: LOWER, b: 65536 if blk else UPPER}
            size = [m[1] for m in c.P.layout(BA) if m[3] == "count"][0]
            g = lambda m, s: ev(eng.conc(st, eng.load(st, eng.ptr(this, c.off(BA, m)), s)), env)
            c.need(g("lower_limit", 8) == LOWER and g("upper_limit", 8) == UPPER, "wrong limits of the chunk", w, eng, st)
            c.need(g("next_addr", 8) == UPPER, "allocation does not begin at the end of the chunk", w, eng, st)
            c.need(g("count", size) == 0, "allocations are counted in a new chunk", w, eng, st)
        c.instance("BumpAllocator(%s)" % ("Block" if blk else "limits"))
    # the counter has to count all allocations which fit into a chunk
    rc, err = parse(c, '#include <redGrapes/redGrapes.hpp>\n#include <redGrapes/memory/chunked_bump_alloc.hpp>\n'
                       'using B = redGrapes::memory::BumpAllocator;\n'
                       'using N = decltype(std::declval<B&>().count.load());\n'
                       'static_assert(std::is_unsigned<N>::value && (sizeof(N) >= 8 || (1ull << (8 * sizeof(N) % 64)) + sizeof(B) > REDGRAPES_ALLOC_CHUNKSIZE), "W:width");\n',
                    ("-fno-access-control",))
    w = where(c, c.fn(BA + "::allocate"))
    if rc and "W:width" not in err:
        raise Missing("counter of BumpAllocator: " + err[:200])
    c.need("W:width" not in err, "the counter can not count all allocations which fit into a chunk", w)
    c.instance("width of the counter")


# ------------------------------------------------------------------ chunked
def alist_abs(extra=()):
    """the list of chunks is abstract: positions"""
    def h(eng, st, f, args, info):
        b = f.base
        if f.ctx == AL and b in ("rbegin", "crbegin"):
            s2 = st.copy()
            pos = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
            eng.event(st, "it.begin", args[1], pos)
            setp(eng, st, args[0], pos)
            st.facts[pos] = (1, MASK[64], NE)
            # the head of a list never becomes null again
            if any(e[0] in ("it.begin", "chunk.new") for e in s2.trace):
                return ret(st)
            eng.event(s2, "it.none", args[1])
            setp(eng, s2, args[0], 0)
            return [Outcome("ret", st, None), Outcome("ret", s2, None)]
        if f.ctx == ALIT and b == "operator++":
            old = eng.load(st, args[0], 8)
            if eng.cfg.on_next:
                eng.cfg.on_next(eng, st, old)
            saved = st.ren
            pos = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
            new = st.ren - saved
            if new:
                old = subst(old, dict(new), {})
            s2 = st.copy()
            eng.event(st, "it.next", old, pos)
            setp(eng, st, args[0], pos)
            st.facts[pos] = (1, MASK[64], NE)
            eng.event(s2, "it.end", old)
            setp(eng, s2, args[0], 0)
            return [Outcome("ret", st, args[0]), Outcome("ret", s2, args[0])]
        if f.ctx == ALIT and b in ("operator*", "operator->"):
            pos = eng.load(st, args[0], 8)
            return ret(st, elem(pos))
        if f.ctx == ALIT and b == "optimize":
            eng.event(st, "it.optimize", eng.load(st, args[0], 8))
            return ret(st)
        if f.ctx == AL and b == "erase":
            eng.event(st, "chunk.erase", args[0], eng.load(st, args[1], 8))
            return ret(st)
        if f.ctx == AL and b in ("allocate_item", "try_allocate_first_item"):
            v = eng.fresh(st, info.cs, info.i["n"], 64 if b == "allocate_item" else 1, tag="c")
            eng.event(st, "chunk.new", b, v)
            if b == "allocate_item":
                setp(eng, st, args[0], v)
                return ret(st)
            return ret(st, v)
        return None
    h.names = [AL + "::" + n for n in ("rbegin", "erase", "allocate_item", "try_allocate_first_item")] + [ALIT + "::" + n for n in ("operator++", "optimize")]
    return [(lambda f: f.ctx in (AL, ALIT), h)]


def setp(eng, st, p, v):
    eng.store(st, p, v, 8)
    eng.store(st, eng.padd(p, 8), v if v == 0 else ("s", ("pi", v), 64), 8)


def ret(st, v=None):
    return [Outcome("ret", st, v)]


def item(c, pos):
    return elem(pos)


def bump_abs(check):
    """allocation from one chunk: gives a block or null"""
    def h(eng, st, f, args, info):
        n = [i for i, e in enumerate(st.trace) if e[0] == "it.begin"]
        if any(e[0] == "bump" for e in st.trace):
            check(eng, st, None)
            drop_before(st, n[-1] if n else len(st.trace))
        s2 = st.copy()
        v = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
        st.facts[v] = (1, MASK[64], NE)
        eng.event(st, "bump", args[0], eng.conc(st, args[1]), v)
        eng.event(s2, "bump", args[0], eng.conc(s2, args[1]), 0)
        return [Outcome("ret", st, ("agg", (v, args[1]))), Outcome("ret", s2, ("agg", (0, 0)))]
    return [(lambda f: f.qual == BA + "::allocate", h)]


CBAT = "redGrapes::memory::ChunkedBumpAlloc<redGrapes::memory::HwlocAlloc>"


def capacity(c):
    """bytes which a chunk can give, for a chunk capacity of 64 KiB"""
    f = c.fn(AL + "::get_item_capacity", typ="BumpAllocator")
    eng = c.engine()
    st0 = State()
    this = argp(eng, st0, "this")
    o = c.off(CBAT, "bump_allocators", "chunk_capacity") - c.off(CBAT, "bump_allocators")
    setm(eng, st0, this, o, 65536)
    outs = normal(eng.run(f, [this], st0))
    v = [eng.conc(x.st, x.val) for x in outs]
    if len(v) != 1 or not isint(v[0]):
        raise Missing("capacity of a chunk")
    return v[0]


@rule("alloc.allocate", "C16", minimum=30,
      text="ChunkedBumpAlloc::allocate returns the block, not smaller than requested and a multiple of a cache line, which a chunk of its list gave it, and loses none; it makes a new chunk "
           "when the current one is exhausted and erases the old one only if it is exhausted and then has no allocations; it refuses only "
           "what does not fit into a chunk, and tries nothing else")
def r_allocate(c):
    f = c.drv("cba_allocate")
    w = where(c, c.fn(CBA + "::allocate"))
    cap = capacity(c)
    c.need(cap > 32768 and cap < 65536, "chunks of 64 KiB can give %d bytes" % cap, w)
    eng = c.engine()
    eng.cfg.widen_after = 70      # rounding may be a loop over the bits
    st0 = State()
    this = argp(eng, st0, "this", CBAT)
    n = argi(eng, st0, "n", 64)
    setm(eng, st0, this, c.off(CBAT, "bump_allocators", "chunk_capacity"), 65536)
    grid = sorted({1, 2, 3, 31, 32, 33, 64, 65, 1000, 4096, 4097, 30000, 32768, 32769, 40000, cap - 1, cap, cap + 1, 65535, 65536, 65537, 100000, 1 << 32, 1 << 40})
    lst = eng.ptr(this, c.off(CBAT, "bump_allocators"))
    seen = [0]

    def envs(st):
        cond = [(t, x) for t, x in st.facts.items() if mentions(t, n) and not any(True for g in fs(t))]
        for k in grid:
            try:
                if consistent(cond, {n: k}):
                    yield k
            except Unknown:
                raise

    def fs(t):
        acc = set()
        freshsyms(t, acc)
        return acc

    def check(eng, st, val):
        """one attempt; val: (ptr, len) if allocate returns with it"""
        need = lambda cond, msg: c.need(cond, "ChunkedBumpAlloc::allocate: " + msg, w, eng, st)
        tr = st.trace
        bs = [(i, e) for i, e in enumerate(tr) if e[0] == "bump"]
        seen[0] += 1
        for k in envs(st):
            for i, e in bs:
                z = ev(e[2], {n: k})
                need(z >= k, "%d bytes are taken for a request of %d" % (z, k))
                need(z % 64 == 0, "%d bytes are taken for a request of %d: the blocks below are not aligned to a cache line" % (z, k))
                need(z <= cap, "a request of %d bytes, %d with rounding, does not fit into a chunk and can never succeed" % (k, z))
        for i, e in bs:
            heads = [x for x in tr[:i] if x[0] == "it.begin" and item(c, x[2]) == e[1]]
            need(bool(heads) and heads[-1][1] == lst, "memory is not taken from the head of the list of chunks")
            later = [x[0] for x in tr[i + 1:]]
            if e[3] == 0:
                need(val is not None or later.count("chunk.new") == 1, "no new chunk is made when the current one is exhausted")
            else:
                need(val is not None, "a block which was allocated is dropped, another one is allocated")
        er = [(i, e) for i, e in enumerate(tr) if e[0] == "chunk.erase"]
        for i, e in er:
            it = item(c, e[2])
            ex = [j for j, x in bs if x[1] == it and x[3] == 0 and j < i]
            need(bool(ex), "a chunk is erased which is not exhausted")
            if ex:
                z = [j for j, x in enumerate(tr) if x[0] == "aload" and j > ex[-1] and x[2] == eng.ptr(it, c.off(BA, "count"))]
                need(any(eng.cmp(st, "eq", 16, tr[j][3], 0) == 1 for j in z), "a chunk is erased although there may be allocations in it")
        if not bs and val is None:
            need("chunk.new" in [x[0] for x in tr], "no chunk is made although there is none")

    eng.cfg.models = alist_abs() + bump_abs(check) + eng.cfg.models
    outs = eng.run(f, [this, n], st0.copy())
    c.absorb(eng)
    c.need(any(o.kind == "ret" for o in outs), "ChunkedBumpAlloc::allocate does not return", w)
    for o in outs:
        if o.kind != "ret":
            c.need(False, "ChunkedBumpAlloc::allocate throws", w, eng, o.st)
            continue
        p, l = agg(eng, o, 2)
        need = lambda cond, msg: c.need(cond, "ChunkedBumpAlloc::allocate: " + msg, w, eng, o.st)
        check(eng, o.st, (p, l))
        bs = [e for e in o.st.trace if e[0] == "bump" and e[3] != 0]
        if p == 0:
            need(not bs, "a block which was allocated is dropped")
            for k in envs(o.st):
                need(2 * k > cap, "a request of %d bytes is refused although it fits into a chunk of %d bytes" % (k, cap))
        else:
            need(len(bs) == 1 and bs[0][3] == p, "the result is not the block which the chunk gave")
            for k in envs(o.st):
                need(ev(l, {n: k}) >= k, "the result is smaller than requested")
        c.instance("outcome")
    for k in grid:
        c.instance("%d bytes" % k)
    c.instance("attempts", ) if seen[0] > 2 else None


@rule("alloc.deallocate", "C16", minimum=3,
      text="ChunkedBumpAlloc::deallocate goes through all chunks until it finds the one which owns the block, counts one allocation less there and nowhere "
           "else, and erases this chunk only if that was the last allocation and the chunk is exhausted")
def r_deallocate(c):
    f = c.drv("cba_deallocate")
    w = where(c, c.fn(CBA + "::deallocate"))
    CN, NA = c.off(BA, "count"), c.off(BA, "next_addr")
    eng = c.engine(models=alist_abs() + assertion(c, w))
    st0 = State()
    this = argp(eng, st0, "this", CBAT)
    p, l = argi(eng, st0, "p", 64), argi(eng, st0, "l", 64)
    lst = eng.ptr(this, c.off(CBAT, "bump_allocators"))
    lo, up = c.off(BA, "lower_limit"), c.off(BA, "upper_limit")

    def owned(st, pos):
        """1: the block is known to begin in this chunk, 0: known not to"""
        it = item(c, pos)
        a = eng.cmp(st, "ult", 64, p, eng.load(st, eng.ptr(it, lo), 8))
        b = eng.cmp(st, "ult", 64, p, eng.load(st, eng.ptr(it, up), 8))
        a, b = known(eng, st, a), known(eng, st, b)
        if a == 1 or b == 0:
            return 0
        if a == 0 and b == 1:
            return 1
        return None

    def on_next(eng_, st, pos):
        c.need(owned(st, pos) == 0, "ChunkedBumpAlloc::deallocate: passes a chunk which may own the block", w, eng, st)
        c.need(not any(e[0] == "rmw" for e in st.trace), "ChunkedBumpAlloc::deallocate: goes on after the block was deallocated", w, eng, st)

    eng.cfg.on_next = on_next
    outs = eng.run(f, [this, p, l], st0.copy())
    c.absorb(eng)
    done = 0
    for o in outs:
        st = o.st
        need = lambda cond, msg: c.need(cond, "ChunkedBumpAlloc::deallocate: " + msg, w, eng, st)
        need(o.kind == "ret", "throws")
        mods = [(i, e) for i, e in enumerate(st.trace) if e[0] in ("rmw", "cas", "astore")]
        er = [(i, e) for i, e in enumerate(st.trace) if e[0] == "chunk.erase"]
        begun = [e for e in st.trace if e[0] == "it.begin"]
        need(all(e[1] == lst for e in begun), "goes through another list")
        if not mods:
            need(not er, "a chunk is erased which may have allocations")
            need(any(e[0] in ("it.end", "it.none") for e in st.trace), "the block is not deallocated")
            continue
        done += 1
        need(len(mods) == 1, "not exactly one allocation is counted as freed")
        i, e = mods[0]
        poss = [x[2] for x in st.trace if x[0] in ("it.begin", "it.next") and eng.ptr(item(c, x[2]), CN) == e[2]]
        need(bool(poss) and rmw_add(e, 16) == -1, "something else than the counter of a chunk is decremented")
        if not poss:
            continue
        need(owned(st, poss[-1]) == 1, "the allocation is counted as freed in a chunk which does not own it")
        cond = [(t, x) for t, x in st.facts.items() if mentions(t, e[5])]
        try:
            left = [k - 1 for k in (1, 2, 3, 100, 65535) if consistent(cond, {e[5]: k})]
        except Unknown:
            raise Broken("deallocate: the number of allocations is used in an unknown way")
        full = [x for x in st.trace[i:] if x[0] == "aload" and x[2] == eng.ptr(item(c, poss[-1]), NA)]
        lim = eng.load(st, eng.ptr(item(c, poss[-1]), lo), 8)
        isfull = any(known(eng, st, eng.cmp(st, "ult", 64, lim, x[3])) == 0 for x in full)
        if er:
            need(len(er) == 1 and er[0][1][1] == lst and er[0][1][2] == poss[-1], "another chunk is erased")
            need(left == [0], "the chunk is erased although it may have allocations left")
            need(isfull, "the chunk is erased although memory may still be taken from it")
        else:
            need(0 not in left or not isfull, "a chunk without allocations which is exhausted is not erased")
            need(0 not in left or bool(full), "it is not checked whether the chunk can be erased")
    c.need(done > 0, "ChunkedBumpAlloc::deallocate: no block is deallocated", w)
    for k in range(min(done, 6)):
        c.instance("outcome")


# ------------------------------------------------------------------ arenas
def arena_cuts():
    return [(lambda f, m=m: f.qual == CBA + "::" + m, cut_model((m, ["v", "v", "v"]))) for m in ("allocate", "deallocate")]


@rule("alloc.arena", "C16", minimum=4,
      text="an Allocator names an existing arena, the one which was asked for if it exists; it allocates and deallocates in that arena, each block once and "
           "with the requested size")
def r_arena(c):
    A = MEM + "Allocator"
    wid = c.off(A, "worker_id")
    where_ = {}
    for m in ("allocate", "deallocate"):
        f = c.fn(A + "::" + m)
        w = where(c, f)
        got = {}
        for k in (0, 1, 3):
            eng = c.engine(models=arena_cuts())
            st0 = State()
            this = argp(eng, st0, "this", A)
            setm(eng, st0, this, wid, k, 4)
            xs = [argi(eng, st0, "x%d" % i, 64) for i in range(len(f.args) - 1)]
            outs = normal(eng.run(f, [this] + xs, st0))
            c.absorb(eng)
            c.need(len(outs) > 0, "Allocator::%s does not return" % m, w)
            for o in outs:
                cl = calls(o.st, m)
                need = lambda cond, msg: c.need(cond, "Allocator::%s: %s" % (m, msg), w, eng, o.st)
                need(len(cl) == 1 and len(calls(o.st, "allocate")) + len(calls(o.st, "deallocate")) == 1, "not one block of one arena")
                if len(cl) != 1:
                    continue
                e = cl[0][1]
                need(list(e[3:3 + len(xs)]) == xs, "another size or block is passed on")
                if m == "allocate":
                    need(o.val == e[-1], "another block is returned")
                got.setdefault(k, set()).add(e[2])
        c.need(all(len(v) == 1 for v in got.values()) and len({x for v in got.values() for x in v}) == len(got),
               "Allocator::%s: the arena does not depend on the number of the allocator" % m, w)
        where_[m] = got
        c.instance(m)
    c.need(where_["allocate"] == where_["deallocate"], "blocks are not deallocated in the arena in which they were allocated", where(c, c.fn(A + "::deallocate")))
    for f in c.fns(A + "::Allocator", lambda g: len(g.args) in (1, 2) and not any("Allocator" in t for t in g.types[2:])):
        w = where(c, f)
        eng = c.engine()
        st0 = State()
        this = ("o", ("al", 0, "alloc", 0), 0)
        st0.mem[this] = {}
        xs = [argi(eng, st0, "x", 32) for i in range(len(f.args) - 1)]
        outs = normal(eng.run(f, [this] + xs, st0))
        c.absorb(eng)
        c.need(len(outs) > 0, "Allocator() does not return", w)
        for o in outs:
            v = eng.conc(o.st, eng.load(o.st, eng.ptr(this, wid), 4))
            ls = set()
            loads(v, ls)
            ls = [l for l in ls if not xs or l != xs[0]]
            nw = [l for l in ls if fieldname(eng, l) == "n_workers"]
            ca = [l for l in ls if fieldname(eng, l) == "current_arena" or l not in nw]
            c.need(len(nw) == 1, "the number of the arena is not limited to the number of arenas", w, eng, o.st)
            if len(nw) != 1:
                continue
            for n in (1, 2, 3, 8):
                for k in (0, 1, 2, 7, 8, 100):
                    env = {nw[0]: n}
                    for x in xs + ca:
                        env[x] = k
                    try:
                        r = ev(v, env)
                    except Unknown:
                        c.need(False, "the number of the arena is not understood", w, eng, o.st)
                        break
                    c.need(r < n, "arena %d of %d is used for number %d" % (r, n, k), w, eng, o.st)
                    if k < n:
                        c.need(r == k, "arena %d is used instead of %d" % (r, k), w, eng, o.st)
        c.instance("Allocator(%s)" % ("number" if xs else ""))


def loads(t, acc):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "s" and isinstance(t[1], tuple) and t[1][0] in ("L", "arg"):
            acc.add(t)
            return
        if len(t) == 3 and t[0] == "s":
            acc.add(t)
            return
        for x in t:
            loads(x, acc)


def fieldname(eng, l):
    return eng.show(l).split("->")[-1].split(".")[-1]


@rule("alloc.new", "C16", minimum=3,
      text="a new arena has no chunk, the given chunk size, and the given source of memory; moving an arena keeps its chunks, sizes and source of memory; "
           "resetting a chunk makes all of it free")
def r_new(c):
    for name in ("cba_new", "cba_move"):
        f = c.drv(name)
        r = [g for g in c.P.find(CBA + "::ChunkedBumpAlloc") if len(g.args) == (3 if name == "cba_new" else 2)]
        if not r:
            raise Missing("constructor of ChunkedBumpAlloc")
        w, cls = where(c, r[0]), r[0].cls
        off = lambda *m: c.off(cls, *m)
        eng = c.engine()
        st0 = State()
        p = obj(st0, "new")
        n = argi(eng, st0, "n", 64)
        hd, ctl = argp(eng, st0, "head"), argp(eng, st0, "ctl")
        src, hc, ho = argp(eng, st0, "src"), argp(eng, st0, "ctx"), argp(eng, st0, "pu")
        HA = MEM + "HwlocAlloc"
        base = 0 if name == "cba_new" else off("bump_allocators", "alloc")
        setm(eng, st0, src, base + c.off(HA, "ctx"), hc)
        setm(eng, st0, src, base + c.off(HA, "obj"), ho)
        head, cap = off("bump_allocators", "head", "_M_ptr"), off("bump_allocators", "chunk_capacity")
        args = [p, src, n]
        if name == "cba_move":
            setm(eng, st0, src, off("chunk_size"), n)
            setm(eng, st0, src, cap, n)
            setm(eng, st0, src, head, hd)
            setm(eng, st0, src, off("bump_allocators", "head", "_M_refcount", "_M_pi"), ctl)
            args = [p, src]
        outs = normal(eng.run(f, args, st0))
        c.absorb(eng)
        c.instance(name)
        c.need(len(outs) > 0, name + " does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s arena: %s" % (name[4:], msg), w, eng, st)
            get = lambda k: eng.conc(st, eng.load(st, eng.ptr(p, k), 8))
            need(get(off("chunk_size")) == n and get(cap) == n, "the size of the chunks is not that requested")
            need(get(off("bump_allocators", "alloc") + c.off(HA, "ctx")) == hc and get(off("bump_allocators", "alloc") + c.off(HA, "obj")) == ho, "memory comes from elsewhere")
            need(get(head) == (0 if name == "cba_new" else hd), "the arena does not have the chunks it should")
    for f in c.P.find(BA + "::reset"):
        w = where(c, f)
        eng = c.engine()
        st0 = State()
        this = argp(eng, st0, "this", BA)
        lo, up = argi(eng, st0, "lower", 64), argi(eng, st0, "upper", 64)
        size = [m[1] for m in c.P.layout(BA) if m[3] == "count"][0]
        setm(eng, st0, this, c.off(BA, "lower_limit"), lo)
        setm(eng, st0, this, c.off(BA, "upper_limit"), up)
        eng.cfg.pin_bases.add(this)
        outs = normal(eng.run(f, [this], st0))
        c.absorb(eng)
        c.need(len(outs) > 0, "reset does not return", w)
        for o in outs:
            st = o.st
            get = lambda m, s=8: eng.conc(st, eng.load(st, eng.ptr(this, c.off(BA, m)), s))
            c.need(get("next_addr") == up and get("count", size) == 0 and get("lower_limit") == lo and get("upper_limit") == up,
                   "BumpAllocator::reset does not make exactly the whole chunk free", w, eng, st)
    c.instance("reset")


@rule("alloc.std", "C16", minimum=4,
      text="StdAllocator allocates as many bytes as the objects need, throws bad_alloc instead of returning null, frees what it is given, and a copy for "
           "another type uses the same arena")
def r_std(c):
    A, S = MEM + "Allocator", MEM + "StdAllocator"
    n_alloc = 0
    for f in c.fns(S + "::allocate"):
        T = list_elem(f.cls)
        size = tsize(c, T)
        if size is None:
            continue
        w = where(c, f)
        eng = c.engine(models=cuts("alloc", "dealloc"))
        st0 = State()
        this = argp(eng, st0, "this")
        n = argi(eng, st0, "n", 64, 0, 1 << 20)
        outs = eng.run(f, [this, n][:len(f.args)], st0.copy())
        c.absorb(eng)
        n_alloc += 1
        c.need(any(o.kind == "ret" for o in outs), "StdAllocator::allocate does not return", w)
        for o in outs:
            cl = calls(o.st, "alloc")
            need = lambda cond, msg: c.need(cond, "StdAllocator<%s>::allocate: %s" % (T[:60], msg), w, eng, o.st)
            need(len(cl) == 1, "memory is not allocated once")
            if len(cl) != 1:
                continue
            e = cl[0][1]
            bytes_ = e[3]
            for k in (1, 2, 7, 1000):
                need(ev(eng.conc(o.st, bytes_), {n: k}) >= k * size, "too few bytes for %d objects" % k)
            blk = e[-1]
            p = agg0(eng, o.st, blk)
            nul = known(eng, o.st, eng.cmp(o.st, "eq", 64, p, 0))
            if o.kind == "ret":
                need(eng.conc(o.st, o.val) == p, "another pointer is returned")
                need(nul == 0, "null is returned when there is no memory")
            else:
                need(nul == 1, "throws although memory was allocated")
    c.instance("%d allocate" % n_alloc)
    c.instance("allocate") if n_alloc else None
    for f in c.fns(S + "::deallocate")[:6]:
        w = where(c, f)
        eng = c.engine(models=cuts("alloc", "dealloc"))
        st0 = State()
        this = argp(eng, st0, "this")
        p = argp(eng, st0, "p")
        n = argi(eng, st0, "n", 64)
        outs = eng.run(f, [this, p, n][:len(f.args)], st0)
        c.absorb(eng)
        for o in outs:
            cl = calls(o.st, "dealloc")
            c.need(o.kind == "ret" and len(cl) == 1 and cl[0][1][3] == p and not calls(o.st, "alloc"), "StdAllocator::deallocate does not free the block it is given, once", w, eng, o.st)
        c.need(len(outs) > 0, "StdAllocator::deallocate does not return", w)
    c.instance("deallocate")
    k = 0
    for f in c.fns(S + "::StdAllocator", lambda g: len(g.args) == 2 and "StdAllocator<" in g.types[2])[:6]:
        w = where(c, f)
        eng = c.engine()
        st0 = State()
        this = ("o", ("al", 0, "copy", 0), 0)
        st0.mem[this] = {}
        other = argp(eng, st0, "other")
        a = c.off(A, "worker_id")
        setm(eng, st0, other, a, 5, 4)
        for o in normal(eng.run(f, [this, other], st0)):
            c.need(eng.conc(o.st, eng.load(o.st, eng.ptr(this, a), 4)) == 5, "the copy of a StdAllocator uses another arena", w, eng, o.st)
            k += 1
        c.absorb(eng)
    c.need(k > 0, "StdAllocator can not be copied", "")
    c.instance("copy")


def list_elem(cls):
    return tmplarg(cls)


def tsize(c, T):
    t = c.P.types.get(T) or c.P.types.get(T.replace(" >", ">"))
    if t:
        return t["size"]
    return {"int": 4, "char": 1, "unsigned long": 8, "double": 8, "unsigned int": 4}.get(T)


def agg0(eng, st, v):
    v = eng.conc(st, v)
    if isinstance(v, tuple) and v[0] == "agg":
        return eng.conc(st, v[1][0])
    return v


@rule("alloc.hwloc", "C16", minimum=2,
      text="HwlocAlloc returns a block of the requested size which hwloc gave it, or null if there is none; a block is given back to hwloc with the address and the size it had")
def r_hwloc(c):
    M = [(lambda f: f.name == "hwloc_alloc_membind" or f.qual == "hwloc_alloc_membind", cut_model(("get", ["v"] * 5))),
         (lambda f: f.name == "hwloc_alloc" or f.qual == "hwloc_alloc", cut_model(("get", ["v"] * 5))),
         (lambda f: f.name == "hwloc_free" or f.qual == "hwloc_free", cut_model(("give", ["v"] * 3)))]
    H = MEM + "HwlocAlloc"
    f = c.fn(H + "::allocate")
    w = where(c, f)
    eng = c.engine(models=M)
    st0 = State()
    this = argp(eng, st0, "this", H)
    n = argi(eng, st0, "n", 64, 1)
    outs = normal(eng.run(f, [this, n], st0))
    c.absorb(eng)
    c.need(len(outs) > 0, "HwlocAlloc::allocate does not return", w)
    for o in outs:
        need = lambda cond, msg: c.need(cond, "HwlocAlloc::allocate: " + msg, w, eng, o.st)
        p, l = agg(eng, o, 2)
        g = calls(o.st, "get")
        need(not calls(o.st, "give"), "memory is given back")
        need(len(g) >= 1, "no memory is requested")
        good = [e for i, e in g if known(eng, o.st, eng.cmp(o.st, "eq", 64, e[-1], 0)) == 0]
        need(len(good) <= 1, "memory is dropped")
        if p == 0:
            need(not good, "memory is dropped")
        else:
            need(len(good) == 1 and good[0][-1] == p and good[0][3] == n and same(eng, o.st, l, n), "the block is not the memory which was requested")
    c.instance("allocate")
    f = c.fn(H + "::deallocate")
    w = where(c, f)
    eng = c.engine(models=M)
    st0 = State()
    this = argp(eng, st0, "this", H)
    p, l = argi(eng, st0, "p", 64), argi(eng, st0, "l", 64)
    outs = normal(eng.run(f, [this, p, l], st0))
    c.absorb(eng)
    c.need(len(outs) > 0, "HwlocAlloc::deallocate does not return", w)
    for o in outs:
        g = calls(o.st, "give")
        c.need(len(g) == 1 and not calls(o.st, "get") and g[0][1][3] == p and g[0][1][4] == l, "HwlocAlloc::deallocate: the block is not given back once, with its size", w, eng, o.st)
    c.instance("deallocate")
