"""Access policies: conflict, superset, equality.  A policy function is analysed once with unknown contents; the result
and the branch conditions of each path are terms over the contents.  These are compared with the specification for every
combination of modes and every relative order of the bounds."""
import itertools
from lib import *

MAX = MASK[64]
NS = "redGrapes::access::"
RACC = "redGrapes::ResourceAccess"


class Unknown(Exception):
    pass


def ev(t, env):
    """value of a term under an assignment of the contents of the arguments"""
    if isint(t):
        return t
    if t in env:
        return env[t]
    k = t[0]
    if k == "s" and t[1][0] == "L":
        b, o = t[1][1], t[1][2]
        if b[0] == "s" and b[1][0] == "arg":
            v = env.get((b[1][1], o))
            if v is None:
                raise Unknown(t)
            return v
    if k == "cmp":
        op, w, a, b = t[1], t[2], ev(t[3], env), ev(t[4], env)
        return int(a == b if op == "eq" else a < b if op == "ult" else sgn(a, w) < sgn(b, w))
    if k == "not":
        return 1 - ev(t[1], env)
    if k == "add":
        return (ev(t[2], env) + ev(t[3], env)) & MASK[t[1]]
    if k == "cast":
        x = ev(t[3], env)
        return sgn(x, t[4]) & MASK[t[2]] if t[1] == "sext" else x & MASK[t[2]]
    if k == "bin":
        op, w, a, b = t[1], t[2], ev(t[3], env), ev(t[4], env)
        if op in ("and", "or", "xor", "add", "sub", "mul"):
            return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b, "mul": a * b}[op] & MASK[w]
        if op in ("shl", "lshr") and b < w:
            return (a << b) & MASK[w] if op == "shl" else a >> b
        if op in ("udiv", "urem") and b:
            return a // b if op == "udiv" else a % b
    raise Unknown(t)


def paths(c, f, args, st0, eng):
    base = dict(st0.facts)
    outs = normal(eng.run(f, args, st0.copy()))
    c.absorb(eng)
    r = []
    for o in outs:
        cond = [(t, x) for t, x in o.st.facts.items() if t not in base or base[t] != x]
        # a symbol which is only known to be an argument or a pointer is no condition
        cond.sort(key=lambda k: depth(k[0]))
        r.append((cond, o))
    return r


def consistent(cond, env):
    for t, (lo, hi, ne) in cond:
        v = ev(t, env)
        if not lo <= v <= hi or v in ne:
            return False
    return True


def decide(c, what, w, ps, envs, oracle):
    """every path which an assignment can take gives the specified result (None: not specified)"""
    bad, mixed = {}, None
    for name, env in envs:
        want = oracle(env)
        if want is None:
            continue
        got = {}
        try:
            for cond, o in ps:
                if not consistent(cond, env):
                    continue
                got.setdefault(ev(o.val, env) & 1, o)
                c.obl += 1
                c.cur["obligations"] += 1
        except Unknown as e:
            raise Missing("%s: depends on something unknown: %s" % (what, e))
        if not got:
            bad.setdefault(("nothing", want), (name, None))
        elif len(got) > 1:
            mixed = name
        elif want not in got:
            bad.setdefault((1 - want, want), (name, got[1 - want]))
    for (got, want), (name, o) in bad.items():
        c.need(False, "%s: %s gives %s, expected %s" % (what, name, got, want), w)
    if mixed and not bad:
        raise Missing("%s: depends on something unknown for %s" % (what, mixed))


# ------------------------------------------------------------------ specification
MODES = ("write", "read", "aadd", "amul")


class Io:
    size = 4

    def __init__(self, c):
        e = c.P.types.get(NS + "IOAccess::Mode")
        if not e or "enum" not in e:
            raise Missing("IOAccess::Mode")
        self.m = dict(e["enum"])

    def values(self, few):
        return [(n, {0: self.m[n]}) for n in MODES]

    def pairs(self, few):
        return [(a[0] + "/" + b[0], a[1], b[1]) for a in self.values(few) for b in self.values(few)]

    def mode(self, x):
        return [n for n in MODES if self.m[n] == x[0]][0]

    def serial(self, a, b):
        a, b = self.mode(a), self.mode(b)
        return not (a == b and a != "write")

    def superset(self, a, b):
        a, b = self.mode(a), self.mode(b)
        return a == "write" or a == b

    def valid(self, a):
        return True


class Area:
    size = 16

    def pairs(self, few):
        if few:
            ps = [((2, 6), b) for b in ((7, 9), (6, 9), (4, 9), (2, 6), (3, 5), (0, MAX), (0, 2), (0, 3), (2, 9), (0, 6))]
            ps += [((10, 14), b) for b in ((2, 6), (12, 20))]
            return [("[%d,%d)/[%d,%d)" % (a + b), {0: a[0], 8: a[1]}, {0: b[0], 8: b[1]}) for a, b in ps]
        r = []
        for pts in ((0, 4, 9, MAX), (1, 4, 9, 12), (0, 1, MAX - 1, MAX)):
            iv = [(x, y) for x in pts for y in pts if x < y]
            r += [("[%d,%d)/[%d,%d)" % (a + b), {0: a[0], 8: a[1]}, {0: b[0], 8: b[1]}) for a in iv for b in iv]
        return r

    def serial(self, a, b):
        return a[0] < b[8] and b[0] < a[8]

    def superset(self, a, b):
        return a[0] <= b[0] and b[8] <= a[8]

    def valid(self, a):
        return a[0] < a[8]


class Comb:
    """parts at offsets, combined by and / or"""

    def __init__(self, parts, op, size):
        self.parts, self.op, self.size = parts, op, size

    def pairs(self, few):
        r = []
        for combo in itertools.product(*[p.pairs(True) for o, p in self.parts]):
            a, b = {}, {}
            for (o, p), (n, x, y) in zip(self.parts, combo):
                a.update({o + k: v for k, v in x.items()})
                b.update({o + k: v for k, v in y.items()})
            r.append((" ".join(n for n, x, y in combo), a, b))
        return r

    def sub(self, a, o, p):
        return {k - o: v for k, v in a.items() if o <= k < o + p.size}

    def serial(self, a, b):
        x = [p.serial(self.sub(a, o, p), self.sub(b, o, p)) for o, p in self.parts]
        return all(x) if self.op == "and" else any(x)

    def superset(self, a, b):
        return all(p.superset(self.sub(a, o, p), self.sub(b, o, p)) for o, p in self.parts)


def policies(c):
    io, ar = Io(c), Area()
    dims = lambda n, op: Comb([(16 * i, ar) for i in range(n)], op, 16 * n)
    return {
        "io": (io, NS + "IOAccess"),
        "area": (ar, NS + "AreaAccess"),
        "or2": (dims(2, "or"), NS + "ArrayAccess"),
        "and2": (dims(2, "and"), NS + "ArrayAccess"),
        "cand": (Comb([(0, io), (8, ar)], "and", 24), NS + "CombineAccess"),
        "cor": (Comb([(0, io), (8, ar)], "or", 24), NS + "CombineAccess"),
        "field1": (Comb([(0, io), (8, dims(1, "and"))], "and", 24), NS + "CombineAccess"),
        "field2": (Comb([(0, io), (8, dims(2, "and"))], "and", 40), NS + "CombineAccess"),
    }


def envs(pol):
    r = []
    for n, a, b in pol.pairs(False):
        e = {("a", k): v for k, v in a.items()}
        e.update({("b", k): v for k, v in b.items()})
        r.append((n, e))
    return r


def part(env, x):
    return {k[1]: v for k, v in env.items() if k[0] == x}


def run2(c, name, n=2):
    f = c.drv(name)
    eng = c.engine()
    st0 = State()
    args = [argp(eng, st0, x) for x in "ab"[:n]]
    return paths(c, f, args, st0, eng)


def wpol(c, cls, meth):
    r = c.P.find(cls + "::" + meth)
    return c.P.where(r[0]) if r else cls


@rule("access.serial", "C11 C01 C14 C28", minimum=8,
      text="is_serial of every access policy tells exactly whether the accesses conflict, for all modes and all positions of areas")
def r_serial(c):
    for n, (pol, cls) in policies(c).items():
        ps = run2(c, "serial_" + n)
        decide(c, "%s is_serial" % n, wpol(c, cls, "is_serial"), ps, envs(pol), lambda e: int(pol.serial(part(e, "a"), part(e, "b"))))
        c.instance(n)


@rule("access.superset", "C12 C13 C30", minimum=8,
      text="is_superset_of of every access policy tells exactly whether all conflicts of the other access are conflicts of this one")
def r_super(c):
    for n, (pol, cls) in policies(c).items():
        ps = run2(c, "super_" + n)
        decide(c, "%s is_superset_of" % n, wpol(c, cls, "is_superset_of"), ps, envs(pol), lambda e: int(pol.superset(part(e, "a"), part(e, "b"))))
        c.instance(n)


@rule("access.equal", "C28 C14 C13", minimum=8, text="accesses of one policy are equal exactly if all their modes and bounds are")
def r_equal(c):
    for n, (pol, cls) in policies(c).items():
        ps = run2(c, "eq_" + n)
        decide(c, "%s ==" % n, wpol(c, cls, "operator=="), ps, envs(pol), lambda e: int(part(e, "a") == part(e, "b")))
        c.instance(n)


@rule("access.sync", "C12 C11 C03 C01", minimum=8,
      text="an access is synchronizing only if it conflicts with every access; an access created without arguments conflicts with, and covers, every access")
def r_sync(c):
    for n, (pol, cls) in policies(c).items():
        ps = run2(c, "sync_" + n, 1)
        w = wpol(c, cls, "is_synchronizing")
        all_ = {}
        for nm, e in envs(pol):
            all_[tuple(sorted(part(e, "a").items()))] = nm
            all_[tuple(sorted(part(e, "b").items()))] = nm
        vals = [dict(k) for k in all_]

        def oracle(env):
            a = part(env, "a")
            return None if all(pol.serial(a, b) for b in vals) else 0
        decide(c, "%s is_synchronizing" % n, w, ps, [("%s" % sorted(a.values()), {("a", k): v for k, v in a.items()}) for a in vals], oracle)
        # default
        eng = c.engine()
        st0 = State()
        p = obj(st0, "new")
        outs = normal(eng.run(c.drv("dflt_" + n), [p], st0))
        c.absorb(eng)
        c.need(len(outs) > 0, "%s can not be created" % n, w)
        keys = list(vals[0])
        for o in outs:
            d = {k: eng.conc(o.st, eng.load(o.st, eng.ptr(p, k), 4 if width(pol, k) == 4 else 8)) for k in keys}
            if c.need(all(isint(v) for v in d.values()), "%s: created without defined contents" % n, w, eng, o.st):
                c.need(all(pol.serial(d, b) for b in vals), "%s: the default access does not conflict with everything" % n, w, eng, o.st)
                c.need(all(pol.superset(d, b) for b in vals), "%s: the default access does not cover everything" % n, w, eng, o.st)
        c.instance(n)


def width(pol, k):
    if isinstance(pol, Io):
        return 4
    if isinstance(pol, Area):
        return 8
    for o, p in pol.parts:
        if o <= k < o + p.size:
            return width(p, k - o)


@rule("access.make", "C11 C15", minimum=4, text="accesses are created with exactly the given mode, area and parts; the second part defaults to everything")
def r_make(c):
    io, ar = Io(c), Area()
    for name, inits in (("mk_io", None), ("mk_area", (16,)), ("mk_cand", (4, 16)), ("mk_cand1", (4,))):
        f = c.drv(name)
        eng = c.engine()
        st0 = State()
        p = obj(st0, "new")
        if name == "mk_io":
            m = argi(eng, st0, "mode", 32, 0, 3)
            args, want = [p, m], {0: (4, m)}
        else:
            a = [argp(eng, st0, "x%d" % i) for i in range(len(inits))]
            args = [p] + a
            want = {}
            off = 0
            for i, s in enumerate(inits):
                for o in range(0, s, 8 if s > 4 else 4):
                    sz = min(8, s)
                    v = sym(("arg", "v%d.%d" % (i, o)), 8 * sz)
                    setm(eng, st0, a[i], o, v, sz)
                    want[off + o] = (sz, v)
                off += 8 if s == 4 else s
            if name == "mk_cand1":
                want[8], want[16] = (8, 0), (8, MAX)
        outs = normal(eng.run(f, args, st0))
        c.absorb(eng)
        c.instance(name)
        cls = {"mk_io": "IOAccess", "mk_area": "AreaAccess"}.get(name, "CombineAccess")
        w = wpol(c, NS + cls, cls)
        c.need(len(outs) > 0, name + " does not return", w)
        for o in outs:
            for k, (sz, v) in want.items():
                c.need(same(eng, o.st, eng.load(o.st, eng.ptr(p, k), sz), v), "%s is created with other contents than given" % cls, w, eng, o.st)


@rule("access.handle", "C13 C21 C28", minimum=6,
      text="copying, moving or assigning an access gives an access to the same resource with the same type and policy; the source keeps it unless it is moved from")
def r_handle(c):
    AB = RACC + "::AccessBase"
    op, oc = c.off(RACC, "obj", "_M_ptr"), c.off(RACC, "obj", "_M_refcount", "_M_pi")
    for name, fn in (("acc_copy", "ResourceAccess"), ("acc_move", "ResourceAccess"), ("acc_assign", "operator="), ("acc_assign_move", "operator=")):
        f = c.drv(name)
        r = c.P.find(RACC + "::" + fn)
        w = c.P.where(r[0]) if r else RACC
        for had in ((0, 1) if "assign" in name else (0,)):
            eng = c.engine()
            st0 = State()
            a = argp(eng, st0, "a", RACC) if "assign" in name else obj(st0, "new")
            b = argp(eng, st0, "b", RACC)
            oa, pa = argp(eng, st0, "a.obj", AB), argp(eng, st0, "a.ctl")
            ob, pb = argp(eng, st0, "b.obj", AB), argp(eng, st0, "b.ctl")
            if "assign" in name:
                setm(eng, st0, a, op, oa if had else 0)
                setm(eng, st0, a, oc, pa if had else 0)
            setm(eng, st0, b, op, ob)
            setm(eng, st0, b, oc, pb)
            outs = normal(eng.run(f, [a, b], st0))
            c.absorb(eng)
            c.instance("%s, %s" % (name, had))
            c.need(len(outs) > 0, name + " does not return", w)
            for o in outs:
                st = o.st
                need = lambda cond, msg: c.need(cond, "%s of an access: %s" % (name[4:], msg), w, eng, st)
                need(same(eng, st, eng.load(st, eng.ptr(a, op), 8), ob) and same(eng, st, eng.load(st, eng.ptr(a, oc), 8), pb), "does not give the same access")
                x, y = eng.load(st, eng.ptr(b, op), 8), eng.load(st, eng.ptr(b, oc), 8)
                need((same(eng, st, x, ob) and same(eng, st, y, pb)) or ("move" in name and eng.conc(st, x) == 0), "changes the source")
    for name in ("acc_obj_make", "acc_obj_move"):
        f = c.drv(name)
        r = [g for g in c.P.find("redGrapes::Resource::Access::Access") if "IOAccess" in g.d]
        w = c.P.where(r[0]) if r else "Access"
        if not r:
            raise Missing("class Resource::Access")
        cls = r[0].cls

        def tid(eng, st, g, args, info):
            v = eng.fresh(st, info.cs, info.i["n"], 64)
            eng.event(st, "typeid", g.d, v)
            return ret(st, v)
        eng = c.engine(models=[(lambda g: g.base == "type_id" and not g.args, tid)])
        st0 = State()
        p = obj(st0, "new")
        R = argp(eng, st0, "resource", "redGrapes::ResourceBase")
        T = argp(eng, st0, "type")
        m = argi(eng, st0, "mode", 32, 0, 3)
        ro, to, po = c.off(AB, "resource", "_M_ptr"), c.off(AB, "access_type"), c.off(cls, "policy")
        if name == "acc_obj_make":
            sp = argp(eng, st0, "sp")
            setm(eng, st0, sp, 0, R)
            args = [p, sp, m]
        else:
            q = argp(eng, st0, "src", cls)
            setm(eng, st0, q, ro, R)
            setm(eng, st0, q, to, T)
            setm(eng, st0, q, po, m, 4)
            args = [p, q]
        outs = normal(eng.run(f, args, st0))
        c.absorb(eng)
        c.instance(name)
        c.need(len(outs) > 0, name + " does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s of an access object: %s" % (name[8:], msg), w, eng, st)
            need(same(eng, st, eng.load(st, eng.ptr(p, ro), 8), R), "has another resource")
            need(same(eng, st, eng.load(st, eng.ptr(p, po), 4, w=32), m), "has another policy")
            t = eng.load(st, eng.ptr(p, to), 8)
            if name == "acc_obj_make":
                ti = [e for e in st.trace if e[0] == "typeid" and e[2] == t]
                need(ti and "IOAccess" in ti[-1][1], "the type is not that of its policy")
            else:
                need(same(eng, st, t, T), "has another type")


# ------------------------------------------------------------------ type erased accesses
@rule("access.types", "C28 C11 C12", minimum=4,
      text="accesses are compared as a concrete type only after their types were found to be the same; accesses of different types neither conflict "
           "nor cover each other nor are equal; the result is that of the policy")
def r_types(c):
    TI = "boost::typeindex::stl_type_index"
    for name, meth in (("acc_serial", "is_serial"), ("acc_super", "is_superset_of"), ("acc_eq", "operator=="), ("acc_same", None)):
        f = c.drv(name)
        r = c.P.find(RACC + "::" + (meth or "is_same_resource"))
        w = c.P.where(r[0]) if r else RACC
        eng = c.engine()
        st0 = State()
        a, b = argp(eng, st0, "a", RACC), argp(eng, st0, "b", RACC)
        oa = argp(eng, st0, "a.obj", RACC + "::AccessBase")
        ob = argp(eng, st0, "b.obj", RACC + "::AccessBase")
        setm(eng, st0, a, c.off(RACC, "obj", "_M_ptr"), oa)
        setm(eng, st0, b, c.off(RACC, "obj", "_M_ptr"), ob)
        ra, rb = argp(eng, st0, "a.res", "redGrapes::ResourceBase"), argp(eng, st0, "b.res", "redGrapes::ResourceBase")
        ro = c.off(RACC + "::AccessBase", "resource", "_M_ptr")
        setm(eng, st0, oa, ro, ra)
        setm(eng, st0, ob, ro, rb)
        to = c.off(RACC + "::AccessBase", "access_type")
        mine = {eng.ptr(oa, to), eng.ptr(ob, to)}

        def teq(eng_, st, g, args, info):
            x = {args[0], args[1]}
            if x != mine:
                vx = set()
                for q in args[:2]:
                    for o_ in (oa, ob):
                        if eng_.load(st, q, 8) == eng_.load(st, eng_.ptr(o_, to), 8):
                            vx.add(o_)
                if len(vx) != 2:
                    return None
            neg = g.base == "operator!="
            s2 = st.copy()
            st.aux["teq"], s2.aux["teq"] = 1, 0
            return [Outcome("ret", st, 0 if neg else 1), Outcome("ret", s2, 1 if neg else 0)]
        eng.cfg.models = [(lambda g: g.base in ("operator==", "operator!=", "equal") and "typeindex" in g.qual, teq)] + eng.cfg.models
        outs = normal(eng.run(f, [a, b], st0))
        c.absorb(eng)
        c.instance(name)
        c.need(len(outs) > 0, name + " does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s: %s" % (meth or "is_same_resource", msg), w, eng, st)
            t = st.aux.get("teq")
            vc = [e for e in st.trace if e[0] == "vcall"]
            sep = known(eng, st, eng.cmp(st, "eq", 64, ra, rb)) == 0
            if t != 1:
                need(not vc, "accesses are compared without knowing that their types are the same")
                need(eng.conc(st, o.val) == 0 and (t == 0 or sep), "accesses of different types are not told apart")
            elif meth is None:
                x = eng.cmp(st, "eq", 64, ra, rb)
                need(eng.conc(st, o.val) == x if isint(x) else o.val == x, "does not tell whether the resource is the same")
            elif not vc:
                need(eng.conc(st, o.val) == 0 and sep, "the policy is not asked")
            else:
                good = [e for e in vc if e[1].split("::")[-1] == meth]
                need(len(good) == 1 and len(vc) == 1, "the policy is not asked once")
                if good:
                    xs = good[0][2]
                    need(tuple(xs[:2]) == (oa, ob) or (meth != "is_superset_of" and tuple(xs[:2]) == (ob, oa)), "the policy is asked about something else")
                    need(eng.conc(st, o.val) == eng.conc(st, good[0][3]), "the result of the policy is changed")


@rule("access.typed", "C28 C11 C12 C14", minimum=3,
      text="two accesses of one type conflict, cover each other or are equal exactly if they belong to the same resource and the policy says so")
def r_typed(c):
    pols = policies(c)
    kinds = {"IOAccess": "io", "1ul": "field1", "2ul": "field2"}
    for meth, spec in (("is_serial", "serial"), ("is_superset_of", "superset"), ("operator==", None)):
        for f in c.fns("redGrapes::Resource::Access::" + meth):
            A = f.cls
            m = re.match(r"redGrapes::Resource<(.*)>::Access", A)
            if not m or f.blocks is None:
                continue
            P = m.group(1)
            k = "io" if P == NS + "IOAccess" else "field1" if "1ul" in P else "field2" if "2ul" in P else None
            if not k:
                continue
            pol = pols[k][0]
            eng = c.engine()
            st0 = State()
            a, b = argp(eng, st0, "a"), argp(eng, st0, "b")
            ro = c.off(RACC + "::AccessBase", "resource", "_M_ptr")
            po = c.off(A, "policy")
            ps = paths(c, f, [a, b], st0, eng)
            es = []
            for n, e in envs(pol):
                for r in (1, 2):
                    x = {(q[0], q[1] + po): v for q, v in e.items()}
                    x[("a", ro)], x[("b", ro)] = 1, r
                    es.append((n + (" on the same resource" if r == 1 else " on different resources"), x))

            def oracle(env):
                if env[("a", ro)] != env[("b", ro)]:
                    return 0
                x = {q[1] - po: v for q, v in env.items() if q[0] == "a" and q[1] >= po}
                y = {q[1] - po: v for q, v in env.items() if q[0] == "b" and q[1] >= po}
                return int(getattr(pol, spec)(x, y)) if spec else int(x == y)
            decide(c, "%s of %s accesses" % (meth, k), where(c, f), ps, es, oracle)
            c.instance("%s %s" % (meth, k))
