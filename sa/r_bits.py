"""The bit field which records the states of workers."""
from lib import *
from r_access import ev, Unknown

BF = "redGrapes::AtomicBitfield"
WORD = 64


def words(n):
    return (n + WORD - 1) // WORD


def mk_bits(c, eng, st, n):
    this = argp(eng, st, "this", BF)
    V = argp(eng, st, "words")
    setm(eng, st, this, c.off(BF, "m_size"), n)
    o = c.off(BF, "state", "_M_impl", "_M_start")
    for k, v in ((0, V), (8, eng.ptr(V, 8 * words(n))), (16, eng.ptr(V, 8 * words(n)))):
        setm(eng, st, this, o + k, v)
    return this, V


def isfirst(f):
    return f.qual == BF + "::first_one_idx" or f.name.startswith("llvm.cttz.i64")


@rule("bits.new", "C20", minimum=1, text="a bit field for n bits has a word for each of them, and knows n")
def r_new(c):
    f = c.drv("bits_new")
    w = where(c, c.fn(BF + "::AtomicBitfield"))
    for n in (1, 63, 64, 65, 128, 129, 256):
        eng = c.engine()
        st0 = State()
        p = obj(st0, "bits")
        eng.settype(p, 0, BF)
        got = []

        def alloc(eng_, st, g, args, info):
            if g.qual.startswith("operator new"):
                v = eng_.fresh(st, info.cs, info.i["n"])
                st.facts[v] = (1, MASK[64], NE)
                eng_.event(st, "new", args[0], v)
                return [Outcome("ret", st, v)]
            return None
        eng.cfg.models = [(lambda g: g.qual == "operator new", alloc)] + eng.cfg.models
        outs = normal(eng.run(f, [p, n], st0))
        c.absorb(eng)
        c.need(len(outs) > 0, "AtomicBitfield(%d) does not return" % n, w)
        for o in outs:
            st = o.st
            b = eng.load(st, eng.ptr(p, c.off(BF, "state", "_M_impl", "_M_start")), 8)
            e = eng.load(st, eng.ptr(p, c.off(BF, "state", "_M_impl", "_M_start") + 8), 8)
            (bb, bo), (eb, eo) = eng.split(b), eng.split(e)
            c.need(bb == eb and isint(bo) and isint(eo) and (eo - bo) // 8 >= words(n), "AtomicBitfield(%d): not a word for each bit" % n, w, eng, st)
            c.need(eng.conc(st, eng.load(st, eng.ptr(p, c.off(BF, "m_size")), 8)) == n, "AtomicBitfield(%d): wrong size" % n, w, eng, st)
    c.instance("7 sizes")


def told(eng, st, seen, res, m, need):
    """the result is 1 exactly if the seen word has the bit m"""
    msg = "the result does not tell the value of this bit"
    samples = [0, m, MASK[64], MASK[64] ^ m, m >> 1, m << 1 & MASK[64], m | m >> 1, MASK[64] ^ m ^ (m >> 1), 0x5555555555555555, 0xaaaaaaaaaaaaaaaa]
    used = False
    try:
        for x in samples:
            env = {seen: x}
            if isint(seen):
                if seen != x:
                    continue
                env = {}
            ok = True
            for t, (lo, hi, ne) in st.facts.items():
                try:
                    v = ev(t, env)
                except Unknown:
                    continue
                ok &= lo <= v <= hi and v not in ne
            if ok:
                used = True
                need(ev(res, env) == int(x & m != 0), msg)
        if used:
            return
    except Unknown:
        pass
    t = eng.binop(st, "and", 64, seen, m)
    for k in (0, 1):
        s2 = st.copy()
        if isint(res):
            a = s2 if eng.assume(s2, eng.cmp(s2, "ne", 64, t, 0), 1 - res) else None
            need(a is None or k == res, msg)
            continue
        if not eng.assume(s2, eng.cmp(s2, "ne", 64, t, 0), k):
            continue
        need(known(eng, s2, res) == k, msg)


@rule("bits.set", "C20 C09 C10", minimum=2,
      text="set changes exactly the bit of the given index in one atomic step and tells what it was before; get tells what it is")
def r_set(c):
    n = 0
    for name in ("set", "get"):
        f = c.drv("bits_" + name)
        w = where(c, c.fn(BF + "::" + name))
        for idx in list(range(0, 130)) + [191, 192, 639]:
            for val in (0, 1) if name == "set" else (None,):
                eng = c.engine()
                st0 = State()
                this, V = mk_bits(c, eng, st0, 640)
                outs = normal(eng.run(f, [this, idx] + ([val] if val is not None else []), st0))
                c.absorb(eng)
                n += 1
                cell = "%s(%d%s)" % (name, idx, "" if val is None else ", %d" % val)
                m = 1 << idx % WORD
                ad = eng.ptr(V, 8 * (idx // WORD))
                c.need(len(outs) > 0, cell + " does not return", w)
                for o in outs:
                    st = o.st
                    need = lambda cond, msg: c.need(cond, "%s: %s" % (cell, msg), w, eng, st)
                    ac = [e for e in st.trace if e[0] in ("aload", "astore", "rmw", "cas")]
                    need(all(e[2] == ad for e in ac), "the wrong word is accessed")
                    wr = [e for e in ac if e[0] in ("astore", "rmw") or (e[0] == "cas" and e[5] == 1)]
                    seen = None
                    if val is None:
                        need(not wr, "the bits are modified")
                        ld = [e for e in ac if e[0] == "aload"]
                        need(len(ld) == 1, "the word is not read once")
                        seen = ld[0][3] if ld else None
                    else:
                        good = len(wr) == 1
                        if good and wr[0][0] == "rmw":
                            op, x = wr[0][3], eng.conc(st, wr[0][4])
                            good = (op, x) == (("or", m) if val else ("and", MASK[64] ^ m))
                            seen = wr[0][5]
                            need(wr[0][6] in (REL if val else ACQ), "with order " + str(wr[0][6]))
                        elif good and wr[0][0] == "cas":
                            seen = wr[0][3]
                            new = eng.conc(st, wr[0][4])
                            want = eng.binop(st, "or" if val else "and", 64, seen, m if val else MASK[64] ^ m)
                            good = new == want
                        else:
                            good = False
                        need(good, "does not change exactly this bit in one atomic step")
                    if seen is None:
                        continue
                    # the result tells about the bit in the value which was seen
                    res = eng.conc(st, o.val)
                    if uncast(res) != res and eng.isbool(uncast(res)):
                        res = uncast(res)
                    told(eng, st, seen, res, m, need)
    c.instance("%d cases" % n)
    c.instance("set, get")


@rule("bits.first", "C20", minimum=1, text="first_one_idx gives the index of a set bit of its argument")
def r_first(c):
    f = c.fn(BF + "::first_one_idx")
    w = where(c, f)
    for k in range(64):
        eng = c.engine()
        st0 = State()
        outs = normal(eng.run(f, [1 << k], st0))
        c.absorb(eng)
        c.need(len(outs) == 1 and eng.conc(outs[0].st, outs[0].val) == k, "first_one_idx(1 << %d) is wrong" % k, w)
        # above that bit nothing matters
        eng = c.engine()
        v = 1 << k | (MASK[64] << (k + 1) & MASK[64])
        outs = normal(eng.run(f, [v], State()))
        r = eng.conc(outs[0].st, outs[0].val) if outs else None
        c.need(isint(r) and r < 64 and v >> r & 1, "first_one_idx of a word with %d trailing zeros is wrong" % k, w)
    c.instance("first_one_idx")


@rule("bits.probe", "C20 C09 C10", minimum=1,
      text="for an arbitrary bit of the field: it is offered only if it belongs to the field and was seen in the requested state; if it belongs to the "
           "field (and is not the excluded start) none is reported only after it was offered or seen in another state; an accepted offer is returned")
def r_probe(c):
    f = c.drv("bits_probe")
    w = where(c, c.fn(BF + "::probe_by_value"))
    combos = 0
    used = [0]
    for n in (3, 64, 65, 129):
        for start in sorted({0, n // 2 - 1, n - 1}):
            for excl, exp in ((1, 1), (0, 0), (0, 1), (1, 0)):
                if not (n > 3 and excl != exp):
                    bits = {0, start - 1, start, start + 1, start // 64 * 64, start // 64 * 64 + 63, n - 1, n, words(n) * 64 - 1} & set(range(words(n) * 64))
                    for x in sorted(bits):
                        probe1(c, f, w, n, start, excl, exp, x, used)
                        combos += 1
    if not used[0]:
        raise Missing("how the position of a set bit is computed is not recognised")
    c.instance("%d combinations of size, start and bit" % combos)


FOUND = 0x5EED


def optval(eng, st, v):
    """(has a value, value) of a returned std::optional<unsigned>"""
    if isint(v):
        return v >> 32 & 1, v & MASK[32]
    if isinstance(v, tuple) and v[0] == "cat":
        cells = {o: x for o, sz, x in v[2]}
        return eng.conc(st, cells.get(4)), eng.conc(st, cells.get(0))
    return None, None


def probe1(c, f, w, n, start, excl, exp, x, used):
    j0, B = x // 64, x % 64
    eng = c.engine()
    st0 = State()
    this, V = mk_bits(c, eng, st0, n)
    eng.cfg.bit = B
    mine = eng.ptr(V, 8 * j0)

    def first(eng_, st, g, args, info):
        used[0] += 1
        v = args[0]
        outs = []
        b = eng_.bitof(v) if isint(v) or (isinstance(v, tuple) and v[0] == "bv") else None
        if b != 0:
            outs.append(Outcome("ret", st.copy(), B))
        if not (isint(v) and v == 1 << B):
            st = st.copy()
            k = eng_.fresh(st, info.cs, info.i["n"], 32 if g.qual.startswith(BF) else 64)
            st.facts[k] = (0, 63, NE)
            if eng_.setfact(st, k, 0, 63, (B,)):
                outs.append(Outcome("ret", st, k))
        return outs

    def load(eng_, st, p, i):
        b, o = eng_.split(p)
        if b != V:
            return None
        c.need(isint(o) and 0 <= o < 8 * words(n) and o % 8 == 0, "probe: reads outside of the field (size %d, start %d)" % (n, start), w, eng_, st)
        if p != mine:
            return [(st, ("bv", None))]
        r = []
        for v in (0, 1):
            s2 = st.copy()
            s2.aux["last"] = v
            if v != exp:
                s2.aux["other"] = 1
            r.append((s2, ("bv", v)))
        return r
    eng.cfg.on_aload = load
    eng.cfg.keep = lambda eng_, e: False
    eng.cfg.models = [(isfirst, first)] + eng.cfg.models
    cell = "probe(%d bits, start %d%s, looking for %d)" % (n, start, ", excluded" if excl else "", exp)

    def cb(eng_, st, g, args, info):
        i = args[-1]
        hit = eng_.cmp(st, "eq", 32, i, x)
        if hit == 1:
            c.need(x < n, "%s: bit %d is offered" % (cell, x), w, eng_, st)
            c.need(st.aux.get("last") == exp, "%s: bit %d is offered although it was not seen in this state" % (cell, x), w, eng_, st)
            st.aux["offered"] = 1
        elif hit != 0:
            c.need(False, "%s: something unknown is offered %s %s" % (cell,i,x), w, eng_, st)
        s2 = st.copy()
        s2.aux["res"] = 1
        return [Outcome("ret", st, ("cat", 8, ((4, 1, 0),))), Outcome("ret", s2, ("cat", 8, ((0, 4, FOUND), (4, 1, 1))))]

    def run():
        eng.cfg.models = [(lambda g: g.qual == "drv::probe_cb", cb)] + eng.cfg.models
        return normal(eng.run(f, [this, exp, start, excl], st0))
    outs = run()
    c.absorb(eng)
    c.need(len(outs) > 0, cell + " does not return", w)
    for o in outs:
        st = o.st
        has, val = optval(eng, st, o.val)
        if st.aux.get("res"):
            c.need(has == 1 and val == FOUND, "%s: something else than what was found is returned" % cell, w, eng, st)
            continue
        c.need(has == 0, "%s: something is returned although nothing was found" % cell, w, eng, st)
        if x < n and not (excl and x == start):
            c.need(st.aux.get("offered") or st.aux.get("other"),
                   "%s: reports none although bit %d was neither offered nor seen in another state" % (cell, x), w, eng, st)
