"""Path-sensitive abstract interpreter over LLVM IR.

Domain: constants, pointers (object, offset), symbolic names for unknown values, interval / disequality facts about
them, and an event trace which records every distinct observable event at most twice (a finite abstraction of the
event history).  Partitions are kept apart by their trace and facts; loops are iterated until no new abstract state
appears at the loop head (values which keep changing are widened to summary names).  Calls are analysed in the context
of their call string.
"""
import re, sys
sys.setrecursionlimit(20000)

PTR = 64
UNDEF = ("undef",)
MASK = {w: (1 << w) - 1 for w in range(1, 257)}


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


def sym(name, w=64):
    return ("s", name, w)


def isint(v):
    return isinstance(v, int)


def depth(t):
    if not isinstance(t, tuple):
        return 0
    d = 0
    for x in t:
        if isinstance(x, tuple):
            k = depth(x)
            if k > d:
                d = k
    return d + 1


def subst(t, m, memo):
    """replace sub-terms; m: dict from term to term"""
    if not isinstance(t, tuple):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        ch = False
        out = []
        for x in t:
            y = subst(x, m, memo) if isinstance(x, tuple) else x
            if y is not x:
                ch = True
            out.append(y)
        r = tuple(out) if ch else t
    memo[t] = r
    return r


def mentions(t, s):
    if t == s:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and mentions(x, s):
                return True
    return False


class State:
    __slots__ = ("mem", "facts", "trace", "gens", "aux", "ren")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = ()
        self.gens = {}
        self.aux = {}
        self.ren = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.gens = dict(self.gens)
        s.aux = dict(self.aux)
        s.ren = self.ren
        return s

    def key(self):
        return (
            frozenset((b, frozenset(c.items())) for b, c in self.mem.items() if c),
            frozenset(self.facts.items()),
            self.trace,
            frozenset(self.aux.items()),
            self.ren,
        )


class Config:
    """what is observed and how calls are treated"""

    def __init__(self):
        self.fields = set()          # 'Class.member' whose plain accesses are events
        self.all_atomics = True      # atomic accesses are events
        self.models = []             # [(predicate(fn)->bool, handler(eng, st, fn, args, info))]
        self.calls = {}              # qual name -> recorded call, not inlined: handler or None
        self.watch = set()           # qual names recorded as event and still inlined
        self.pinned = set()          # 'Class.member' atomics treated as not shared (sequential)
        self.pin_bases = set()
        self.max_states = 60000
        self.max_depth = 60
        self.opaque_default = True
        self.record_throw = True
        self.keep = None             # trace filter
        self.fork_exc = set()        # qual names which may throw
        self.vdispatch = {}          # 'Class::method' -> qual of implementation to inline
        self.lock_events = True
        self.on_next = None          # called before an iterator leaves an element
        self.on_event = None
        self.on_rename = None        # called before a name of an older loop iteration is forgotten
        self.on_access = None
        self.volatile = set()        # fields each read of which gives a new name
        self.split = set()           # objects for which accesses at an unknown index are split into one case per element
        self.bit = None              # 64 bit words of the kind ("bv", x): only this bit (x: 0, 1, None) is known
        self.on_aload = None         # atomic loads: list of (state, value) instead of a new name
        self.widen_after = 6         # so many iterations at a loop head are followed as they are
        self.widen_vals = 4          # so many different values of a variable at a loop head are kept apart
        self.on_armw = None          # atomic read-modify-write operations: list of (state, old value)
        self.identities = {"ResourceBase.id", "IDProperty.task_id"}   # unique ids (rules id.*): equal exactly if the objects are the same
        self.initial = None          # invariants about values which were written elsewhere


class Outcome:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val


class Engine:
    def __init__(self, prog, cfg):
        self.P = prog
        self.cfg = cfg
        self.btypes = {}
        self.cs = {}
        self.csparent = {}
        self.csinfo = {0: None}
        self.nstates = 0
        self.stats = {"functions": set(), "calls": 0, "blocks": 0, "paths": 0, "opaque": {}}
        self._fname = {}
        self._anc = {}
        self.stack = []
        self.alsize = {}
        self._modelcache = {}
        self.warnings = set()

    # ------------------------------------------------------------------ names
    def csid(self, parent, fn, n):
        k = (parent, fn, n)
        r = self.cs.get(k)
        if r is None:
            r = len(self.cs) + 1
            self.cs[k] = r
            self.csparent[r] = parent
            self.csinfo[r] = (fn, n)
        return r

    def within(self, c, root):
        """call string c is root or below it"""
        while c:
            if c == root:
                return True
            c = self.csparent[c]
        return c == root

    def fresh(self, st, cs, n, w=64, tag="c", typ=None, kind="s"):
        nm = (tag, cs, n)
        s = (kind, (tag, cs, n, 0), w)
        if st.gens.get(nm):
            # executed again: the former instance is merged into the summary of all older ones
            self.rename(st, s, (kind, (tag, cs, n, 1), w))
        st.gens[nm] = 1
        if typ:
            self.settype(s, 0, typ)
        return s

    def rename(self, st, a, b):
        """a (recent instance) becomes b (summary of all older instances); facts on the summary are dropped"""
        if self.cfg.on_rename:
            self.cfg.on_rename(self, st, a)
        m, memo = {a: b}, {}
        nm = {}
        for base, cells in st.mem.items():
            nb = subst(base, m, memo)
            nc = {}
            for o, (sz, v) in cells.items():
                nc[subst(o, m, memo)] = (sz, subst(v, m, memo))
            if nb in nm:
                mm = dict(nm[nb])
                for o, c in nc.items():
                    if o in mm and mm[o] != c:
                        del mm[o]      # forget
                    else:
                        mm[o] = c
                nm[nb] = mm
            else:
                nm[nb] = nc
        st.mem = nm
        nf = {}
        for t, f in st.facts.items():
            if mentions(t, a) or mentions(t, b):
                continue
            nf[t] = f
        st.facts = nf
        tr = []
        for e in st.trace:
            e2 = subst(e, m, memo)
            if e2 is e or tr.count(e2) < 1:
                tr.append(e2)
        st.trace = tuple(tr)
        for k, v in list(st.aux.items()):
            st.aux[k] = subst(v, m, memo)
        st.ren = st.ren | frozenset([(a, b)])
        t = self.btypes.get(a)
        if t:
            self.btypes.setdefault(b, {}).update(t)

    # ------------------------------------------------------------------ types
    def settype(self, base, off, typ):
        if isint(base) or not typ:
            return
        d = self.btypes.setdefault(base, {})
        old = d.get(off)
        if old is None or (self.P.size(typ) > self.P.size(old)):
            d[off] = typ

    def typeat(self, base, off):
        """(type, offset in it) of outermost known type covering base+off"""
        d = self.btypes.get(base)
        if not d:
            return None
        if not isint(off):
            off = self.constpart(off)
            if off is None:
                return None
        best = None
        for o, t in d.items():
            if not isint(o):
                continue
            sz = self.P.size(t)
            if o <= off:
                inner = off - o
                if sz and inner >= sz:
                    if best is None:
                        best = (t, inner % sz, -1)
                    continue
                if best is None or best[2] < 0 or sz > best[2]:
                    best = (t, inner, sz)
        return best[:2] if best else None

    def constpart(self, off):
        if isint(off):
            return off
        if off and off[0] == "add" and isint(off[3]):
            c = off[3]
            if c >= 1 << 63:
                c -= 1 << 64
            return c if c >= 0 else None
        return 0

    def fieldpath(self, base, off):
        t = self.typeat(base, off)
        if not t:
            return []
        return self.P.path(t[0], t[1])

    def field(self, base, off):
        """'Class.member' of the innermost non-library member at this address ('' if unknown)"""
        k = (base, off)
        p = self.fieldpath(base, off)
        r = ""
        for c, n, mt, o in p:
            if c.startswith("std::") or c.startswith("__gnu_cxx::"):
                break
            r = "%s.%s" % (shortcls(c), n)
        return r

    def fieldtype(self, base, off):
        p = self.fieldpath(base, off)
        return p[-1][2] if p else ""

    # ------------------------------------------------------------------ memory
    def split(self, p):
        """pointer value -> (base, off)"""
        if isinstance(p, tuple) and p[0] == "p":
            return p[1], p[2]
        return p, 0

    def ptr(self, base, off):
        if off == 0:
            return base
        if isint(base):
            return (base + off) & MASK[64] if isint(off) else ("p", base, off)
        if isinstance(base, tuple) and base[0] == "p":
            return self.ptr(base[1], self.offadd(base[2], off))
        return ("p", base, off)

    def padd(self, p, k):
        b, o = self.split(p)
        if isint(b):
            if isint(k) and isint(o):
                return (b + o + k) & MASK[64]
            return self.add(64, p, k)
        return self.ptr(b, self.offadd(o, k))

    def offadd(self, o, k):
        if isint(o) and isint(k):
            r = o + k
            if r >= 1 << 63:
                r -= 1 << 64
            if r < -(1 << 63):
                r += 1 << 64
            return r
        r = self.add(64, o & MASK[64] if isint(o) else o, k & MASK[64] if isint(k) else k)
        if isint(r) and r >= 1 << 63:
            r -= 1 << 64
        return r

    def load(self, st, p, size, cs=None, n=None, w=None, isptr=False):
        b, o = self.split(p)
        if b == UNDEF:
            return UNDEF
        if isinstance(b, tuple) and b[0] == "g" and isint(o):
            v = self.globload(b, o, size)
            if v is not None:
                return v
        cells = st.mem.get(b)
        if cells:
            c = cells.get(o)
            if c is not None:
                if c[0] == size:
                    v = c[1]
                    if isinstance(v, tuple) and v and v[0] == "blk":
                        return self.initial(st, v[1], v[2], size, w, isptr)
                    return v
                if c[0] > size:
                    return self.piece(st, c[1], 0, size, c[0], w, isptr)
                # several small cells
            if isint(o):
                parts = []
                for oo, (sz, v) in cells.items():
                    if isint(oo) and oo < o + size and o < oo + sz:
                        parts.append((oo, sz, v))
                if parts:
                    parts.sort(key=lambda x: x[0])
                    if len(parts) == 1 and parts[0][0] <= o and parts[0][0] + parts[0][1] >= o + size:
                        oo, sz, v = parts[0]
                        return self.piece(st, v, o - oo, size, sz, w, isptr)
                    return ("cat", size, tuple((oo - o, sz, v) for oo, sz, v in parts))
        if b[0] == "o" if isinstance(b, tuple) else False:
            # own object: never written here
            if b[1][0] in ("al",):
                return UNDEF
        v = self.initial(st, b, o, size, w, isptr)
        return v

    def initial(self, st, b, o, size, w=None, isptr=False):
        """value a cell had before the analysed code wrote it"""
        h = self.cfg.initial
        if h:
            r = h(self, st, b, o, size)
            if r is not None:
                return r
        s = ("s", ("L", b, o, size), w or size * 8)
        if s not in self.btypes:
            t = self.fieldtype(b, o)
            if t and t[-1] in "*&":
                self.btypes[s] = {0: t[:-1]}
            else:
                self.btypes[s] = {}
            if t == "bool":
                self.bools.add(s)
        return s

    bools = set()

    def piece(self, st, v, off, size, total, w, isptr):
        if isinstance(v, tuple) and v:
            if v[0] == "blk":
                return self.initial(st, v[1], self.offadd(v[2], off), size, w, isptr)
            if v[0] == "cat":
                for oo, sz, x in v[2]:
                    if oo == off and sz == size:
                        return x
                    if oo <= off and off + size <= oo + sz:
                        return self.piece(st, x, off - oo, size, sz, w, isptr)
                sub = tuple((oo - off, sz, x) for oo, sz, x in v[2] if oo < off + size and off < oo + sz)
                return ("cat", size, sub)
            if v == UNDEF:
                return UNDEF
            return ("bits", w or size * 8, off, v)
        if isint(v):
            return (v >> (8 * off)) & MASK[size * 8] if size * 8 <= 256 else v
        return v

    def store(self, st, p, v, size):
        b, o = self.split(p)
        if isint(b) or b == UNDEF:
            return
        if isinstance(v, tuple) and v and v[0] == "cat" and isint(o):
            self.clear(st, b, o, size)
            for oo, sz, x in v[2]:
                self.store(st, self.ptr(b, o + oo), x, sz)
            return
        cells = st.mem.get(b)
        cells = dict(cells) if cells else {}
        if isint(o):
            for oo in list(cells):
                if isint(oo) and oo != o:
                    sz, x = cells[oo]
                    if oo < o + size and o < oo + sz:
                        del cells[oo]
                        # keep the remaining pieces
                        if oo < o:
                            cells[oo] = (o - oo, self.piece(st, x, 0, o - oo, sz, None, False))
                        if oo + sz > o + size:
                            k = o + size
                            cells[k] = (oo + sz - k, self.piece(st, x, k - oo, oo + sz - k, sz, None, False))
        cells[o] = (size, v)
        st.mem[b] = cells

    def clear(self, st, b, o, size):
        cells = st.mem.get(b)
        if cells and isint(o):
            cells = {oo: c for oo, c in cells.items() if not (isint(oo) and o <= oo and oo + c[0] <= o + size)}
            st.mem[b] = cells

    def memcpy(self, st, dst, src, n):
        db, do = self.split(dst)
        sb, so = self.split(src)
        if not (isint(do) and isint(so)) or isint(db):
            return
        if isinstance(sb, tuple) and sb[0] == "g":
            g = self.P.globals.get(sb[1])
            if g is not None and g.get("const") and "init" in g and so == 0:
                cells = {}
                self.initcells(g["t"], g["init"], do, cells)
                old = dict(st.mem.get(db) or {})
                old.update({o: c for o, c in cells.items() if o < do + n})
                st.mem[db] = old
                return
        cells = st.mem.get(sb) or {}
        new = {}
        pos = so
        parts = sorted((oo, c) for oo, c in cells.items() if isint(oo) and oo >= so and oo + c[0] <= so + n)
        unk = not (isinstance(sb, tuple) and sb[0] == "o" and sb[1][0] == "al")
        for oo, c in parts:
            if oo > pos and unk:
                new[do + pos - so] = (oo - pos, ("blk", sb, pos, oo - pos))
            new[do + oo - so] = c
            pos = oo + c[0]
        if pos < so + n and unk:
            new[do + pos - so] = (so + n - pos, ("blk", sb, pos, so + n - pos))
        self.clear(st, db, do, n)
        old = dict(st.mem.get(db) or {})
        old.update(new)
        st.mem[db] = old
        t = self.btypes.get(sb, {}).get(so)
        if t and self.P.size(t) == n:
            self.settype(db, do, t)

    def initcells(self, t, init, off, cells):
        k = t[0]
        if k == "s":
            if init[0] == "agg":
                for (fo, ft), x in zip(t[2], init[1]):
                    self.initcells(ft, x, off + fo, cells)
            elif init[0] == "z":
                for fo, ft in t[2]:
                    self.initcells(ft, init, off + fo, cells)
        elif k == "a":
            n, es, et = t[1], t[2], t[3]
            if init[0] == "agg":
                for i, x in enumerate(init[1]):
                    self.initcells(et, x, off + i * es, cells)
            elif init[0] == "z" and n <= 64:
                for i in range(n):
                    self.initcells(et, init, off + i * es, cells)
        elif k == "i":
            cells[off] = ((t[1] + 7) // 8, 0 if init[0] == "z" else self.const(init))
        elif k == "p":
            cells[off] = (8, 0 if init[0] == "z" else self.const(init))

    def globload(self, b, o, size):
        g = self.P.globals.get(b[1])
        if g is None or not g.get("const") or "init" not in g:
            return None
        c = getattr(self, "_gc", None)
        if c is None:
            c = self._gc = {}
        cells = c.get(b[1])
        if cells is None:
            cells = c[b[1]] = {}
            self.initcells(g["t"], g["init"], 0, cells)
        x = cells.get(o)
        if x and x[0] == size:
            return x[1]
        return None

    # ------------------------------------------------------------------ values
    def const(self, a):
        k = a[0]
        if k == "c":
            return a[1]
        if k == "C":
            return int(a[1])
        if k == "f":
            return ("f", a[1])
        if k == "g":
            return self.ptr(self.gbase(a[1]), a[2])
        if k == "u":
            return UNDEF
        if k == "z":
            return ("zero",)
        if k == "agg":
            return ("agg", tuple(self.const(x) for x in a[1]))
        return ("k", str(a[1]))

    def gbase(self, name):
        b = ("g", name)
        if b not in self.btypes:
            g = self.P.globals.get(name)
            self.btypes[b] = {0: g["ty"]} if g and g.get("ty") else {}
        return b

    def val(self, env, a):
        if a[0] == "v":
            return env.get(a[1], UNDEF)
        return self.const(a)

    def width(self, v):
        if isinstance(v, tuple) and v[0] == "bv":
            return 64
        if isinstance(v, tuple):
            if v[0] == "s":
                return v[2]
            if v[0] in ("add", "cast", "bits"):
                return v[1] if v[0] != "cast" else v[2]
            if v[0] == "bin":
                return v[2]
            if v[0] in ("cmp", "not"):
                return 1
        return 64

    def add(self, w, a, b):
        if isint(a) and isint(b):
            return (a + b) & MASK[w]
        if isint(a):
            a, b = b, a
        if b == 0:
            return a
        if isint(b):
            if isinstance(a, tuple) and a[0] == "add" and a[1] == w and isint(a[3]):
                return self.add(w, a[2], (a[3] + b) & MASK[w])
            if isinstance(a, tuple) and a[0] == "p" and w == 64:
                return self.padd(a, b)
            if isinstance(a, tuple) and a[0] in ("o", "g"):
                return self.padd(a, b if b < 1 << 63 else b - (1 << 64))
            return self.trim(("add", w, a, b & MASK[w]))
        # a + b with symbolic parts: sort
        if isinstance(a, tuple) and a[0] == "add" and isint(a[3]):
            return self.add(w, self.add(w, a[2], b), a[3])
        if isinstance(b, tuple) and b[0] == "add" and isint(b[3]):
            return self.add(w, self.add(w, a, b[2]), b[3])
        x, y = sorted((a, b), key=repr)
        return self.trim(("bin", "add", w, x, y))

    def trim(self, t):
        if depth(t) > 24:
            return ("deep",) if False else ("s", ("T", hash_depth(t)), self.width(t))
        return t

    def neg(self, w, a):
        if isint(a):
            return (-a) & MASK[w]
        return ("bin", "sub", w, 0, a)

    def binop(self, st, op, w, a, b):
        if a == UNDEF or b == UNDEF:
            return UNDEF
        a = self.conc(st, a)
        b = self.conc(st, b)
        if self.cfg.bit is not None:
            r = self.bitop(st, op, w, a, b)
            if r is not None:
                return r
        if isint(a) and isint(b):
            m = MASK[w]
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else UNDEF
            if op == "lshr":
                return a >> b if b < w else UNDEF
            if op == "ashr":
                return (sgn(a, w) >> b) & m if b < w else UNDEF
            if op == "udiv" and b:
                return a // b
            if op == "urem" and b:
                return a % b
            if op == "sdiv" and b:
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                return (q if (x < 0) == (y < 0) else -q) & m
            if op == "srem" and b:
                x, y = sgn(a, w), sgn(b, w)
                r = abs(x) % abs(y)
                return (-r if x < 0 else r) & m
            return UNDEF
        if op == "add":
            return self.add(w, a, b)
        if op == "sub":
            if isint(b):
                return self.add(w, a, (-b) & MASK[w])
            if a == b:
                return 0
            ba, oa = self.split(a)
            bb, ob = self.split(b)
            if ba == bb and not isint(ba) and isint(oa) and isint(ob):
                return (oa - ob) & MASK[w]
            if ba == bb and not isint(ba):
                return self.binop(st, "sub", w, oa if not isint(oa) else oa & MASK[w], ob if not isint(ob) else ob & MASK[w])
            # (x + c) - x
            xa, ca = (a[2], a[3]) if isinstance(a, tuple) and a[0] == "add" and isint(a[3]) else (a, 0)
            xb, cb = (b[2], b[3]) if isinstance(b, tuple) and b[0] == "add" and isint(b[3]) else (b, 0)
            if xa == xb:
                return (ca - cb) & MASK[w]
            if isinstance(xa, tuple) and xa[0] == "bin" and xa[1] == "add" and xa[2] == w:
                if xa[3] == xb:
                    return self.add(w, xa[4], (ca - cb) & MASK[w])
                if xa[4] == xb:
                    return self.add(w, xa[3], (ca - cb) & MASK[w])
        if op == "and":
            if a == 0 or b == 0:
                return 0
            if w == 1:
                if a == 1:
                    return b
                if b == 1:
                    return a
            if b == MASK[w]:
                return a
            if a == MASK[w]:
                return b
            if a == b:
                return a
        if op == "or":
            if a == 0:
                return b
            if b == 0:
                return a
            if a == b:
                return a
            if w == 1 and (a == 1 or b == 1):
                return 1
        if op == "xor":
            if a == b:
                return 0
            if b == 0:
                return a
            if a == 0:
                return b
            if w == 1 or (self.isbool(a) and b == 1) or (self.isbool(b) and a == 1):
                if b == 1:
                    return self.lnot(a)
                if a == 1:
                    return self.lnot(b)
        if op == "mul":
            if a == 0 or b == 0:
                return 0
            if a == 1:
                return b
            if b == 1:
                return a
        if op in ("shl", "lshr", "ashr") and b == 0:
            return a
        if op in ("udiv", "sdiv") and b == 1:
            return a
        if op == "urem" and b == 1:
            return 0
        if op in ("and", "or", "xor", "mul", "add"):
            if isint(a) or (not isint(b) and repr(b) < repr(a)):
                a, b = b, a
        return self.trim(("bin", op, w, a, b))

    def bitof(self, v):
        return v >> self.cfg.bit & 1 if isint(v) else v[1] if isinstance(v, tuple) and v[0] == "bv" else None

    def bitop(self, st, op, w, a, b):
        """words of which one bit is tracked"""
        isbv = lambda v: isinstance(v, tuple) and v[0] == "bv"
        if op == "shl" and a == 1 and w == 64 and not isint(b):
            return ("bv", 0) if self.cmp(st, "eq", w, b, self.cfg.bit) == 0 else None
        if w != 64 or not (isbv(a) or isbv(b)):
            return None
        x, y = self.bitof(a), self.bitof(b)
        if op == "and":
            m = a if isint(a) else b if isint(b) else None
            if m == 0 or (m == 1 << self.cfg.bit and 0 in (x, y)):
                return 0
            if m == 1 << self.cfg.bit and x == y == 1:
                return m
            return ("bv", 0 if 0 in (x, y) else 1 if x == y == 1 else None)
        if op == "or":
            return ("bv", 1 if 1 in (x, y) else 0 if x == y == 0 else None)
        if op == "xor":
            return ("bv", None if None in (x, y) else x ^ y)
        return ("bv", None)

    def isbool(self, v):
        if isint(v):
            return v in (0, 1)
        if not isinstance(v, tuple):
            return False
        if v[0] in ("cmp", "not", "nondet"):
            return True
        if v[0] == "s" and (v[2] == 1 or v in self.bools):
            return True
        if v[0] == "bin" and v[1] in ("and", "or", "xor"):
            return self.isbool(v[3]) and self.isbool(v[4])
        return False

    def lnot(self, v):
        if isint(v):
            return 1 - v
        if v[0] == "not":
            return v[1]
        return ("not", v)

    # ------------------------------------------------------------------ facts
    def conc(self, st, v):
        """constant value if the facts determine it"""
        if isint(v) or not isinstance(v, tuple):
            return v
        f = st.facts.get(v)
        if f is not None and f[0] == f[1]:
            return f[0]
        if v[0] == "add" and isint(v[3]):
            x = self.conc(st, v[2])
            if isint(x):
                return (x + v[3]) & MASK[v[1]]
        if v[0] == "cast":
            x = self.conc(st, v[3])
            if isint(x):
                return self.cast(st, v[1], x, v[4], v[2])
        return v

    def rng(self, st, v, w):
        if isint(v):
            return v, v
        f = st.facts.get(v)
        lo, hi = (0, MASK[w])
        if f is not None:
            lo, hi = f[0], f[1]
        elif self.isbool(v):
            lo, hi = 0, 1
        elif isinstance(v, tuple):
            if v[0] == "s" and v[2] < w:
                lo, hi = 0, MASK[v[2]]
            elif v[0] == "add" and isint(v[3]):
                a, b = self.rng(st, v[2], v[1])
                c = v[3]
                if b + c <= MASK[v[1]]:
                    lo, hi = a + c, b + c
                elif a + c > MASK[v[1]]:
                    lo, hi = a + c - MASK[v[1]] - 1, b + c - MASK[v[1]] - 1
            elif v[0] == "bin":
                op = v[1]
                if op == "and" and isint(v[4]):
                    hi = min(hi, v[4])
                elif op == "urem" and isint(v[4]) and v[4]:
                    hi = min(hi, v[4] - 1)
                    a = self.rng(st, v[3], v[2])
                    if a[1] < v[4]:
                        lo, hi = a
                elif op == "lshr" and isint(v[4]):
                    a = self.rng(st, v[3], v[2])
                    lo, hi = a[0] >> v[4], a[1] >> v[4]
                elif op == "udiv" and isint(v[4]) and v[4]:
                    a = self.rng(st, v[3], v[2])
                    lo, hi = a[0] // v[4], a[1] // v[4]
            elif v[0] == "cast" and v[1] in ("trunc",):
                hi = min(hi, MASK[v[2]])
        return lo, hi

    def nonnull(self, st, v):
        """True / False / None"""
        if isint(v):
            return v != 0
        b, o = self.split(v)
        if isinstance(b, tuple) and b[0] in ("o", "g"):
            return True
        if isinstance(b, tuple) and b[0] == "f":
            return True
        if v[0] == "p":
            # pointer to a member of something: taken as non-null if the base is dereferenceable
            if isint(o) and o > 0:
                return True
        f = st.facts.get(v)
        if f is not None:
            if f[0] > 0:
                return True
            if f[0] == f[1] == 0:
                return False
            if 0 in f[2]:
                return True
        return None

    def cmp(self, st, pred, w, a, b):
        """returns int 0/1 or boolean term"""
        if a == UNDEF or b == UNDEF:
            return UNDEF
        if pred == "ne":
            r = self.cmp(st, "eq", w, a, b)
            return self.lnot(r) if r != UNDEF else r
        if pred in ("ugt", "sgt"):
            return self.cmp(st, pred[0] + "lt", w, b, a)
        if pred in ("uge", "sge"):
            r = self.cmp(st, pred[0] + "lt", w, a, b)
            return self.lnot(r) if r != UNDEF else r
        if pred in ("ule", "sle"):
            r = self.cmp(st, pred[0] + "lt", w, b, a)
            return self.lnot(r) if r != UNDEF else r
        a = self.conc(st, a)
        b = self.conc(st, b)
        if self.cfg.bit is not None and "bv" in (a[0] if isinstance(a, tuple) else 0, b[0] if isinstance(b, tuple) else 0):
            x, y = self.bitof(a), self.bitof(b)
            return 0 if pred == "eq" and x is not None and y is not None and x != y else ("nondet",)
        if isint(a) and isint(b):
            if pred == "eq":
                return int((a & MASK[w]) == (b & MASK[w]))
            if pred == "ult":
                return int(a < b)
            return int(sgn(a, w) < sgn(b, w))
        if a == b:
            return int(pred == "eq")
        if pred == "eq":
            if isint(a):
                a, b = b, a
            if isint(b):
                if b == 0:
                    nn = self.nonnull(st, a)
                    if nn is not None:
                        return int(not nn)
                if self.isbool(a):
                    if b == 0:
                        return self.truth(st, self.lnot(a))
                    if b == 1:
                        return self.truth(st, a)
                    return 0
                if isinstance(a, tuple) and a[0] == "add" and isint(a[3]):
                    if a[1] == w:
                        return self.cmp(st, "eq", w, a[2], (b - a[3]) & MASK[w])
                    if a[1] > w and self.rng(st, a, a[1])[1] <= MASK[w]:
                        return self.cmp(st, "eq", a[1], a[2], (b - a[3]) & MASK[a[1]])
                lo, hi = self.rng(st, a, w)
                if b < lo or b > hi:
                    return 0
                f = st.facts.get(a)
                if f is not None and b in f[2]:
                    return 0
            else:
                ba, oa = self.split(a)
                bb, ob = self.split(b)
                if ba == bb:
                    if isint(oa) and isint(ob):
                        return int(oa == ob)
                    return self.cmp(st, "eq", 64, oa if not isint(oa) else oa & MASK[64], ob if not isint(ob) else ob & MASK[64])
                oka = isinstance(ba, tuple) and ba[0] in ("o", "g", "f")
                okb = isinstance(bb, tuple) and bb[0] in ("o", "g", "f")
                if oka and okb:
                    return 0
                if (oka and self.old(ba, bb)) or (okb and self.old(bb, ba)):
                    return 0
                x, y = self.identity(a), self.identity(b)
                if x is not None and y is not None and x[1] == y[1]:
                    return self.cmp(st, "eq", 64, x[0], y[0])
                if repr(b) < repr(a):
                    a, b = b, a
            t = ("cmp", "eq", w, a, b)
            return self.truth(st, t)
        ra, rb = self.rng(st, a, w), self.rng(st, b, w)
        if pred == "ult":
            if ra[1] < rb[0]:
                return 1
            if ra[0] >= rb[1]:
                return 0
            t = ("cmp", "ult", w, a, b)
            # a < b known from b < a
            u = st.facts.get(("cmp", "ult", w, b, a))
            if u is not None and u[0] == 1:
                return 0
            return self.truth(st, t)
        half = 1 << (w - 1)
        if ra[1] < half and rb[1] < half:
            if ra[1] < rb[0]:
                return 1
            if ra[0] >= rb[1]:
                return 0
        if isint(b) and b == 0 and ra[1] < half:
            return 0
        if isint(a) and a == MASK[w] and rb[1] < half:
            return 1
        return self.truth(st, ("cmp", "slt", w, a, b))

    def identity(self, v):
        """(object, offset) if the value is the unchanged unique id of an object (see cfg.identities)"""
        if isinstance(v, tuple) and v[0] == "s" and v[1][0] == "L" and isint(v[1][2]):
            b, o = v[1][1], v[1][2]
            if self.field(b, o) in self.cfg.identities:
                return b, o
        return None

    def old(self, alloc, other):
        """a value loaded from memory which existed before can not point to the new object"""
        return isinstance(other, tuple) and other[0] == "s" and other[1][0] in ("L", "arg") and alloc[0] == "o"

    def truth(self, st, t):
        if isint(t):
            return t
        neg = False
        x = t
        while x[0] == "not":
            neg = not neg
            x = x[1]
        f = st.facts.get(x)
        if f is not None and f[0] == f[1] and f[0] in (0, 1):
            return int(bool(f[0]) != neg)
        if f is not None and self.isbool(x) and f[2]:
            if 0 in f[2]:
                return int(True != neg)
            if 1 in f[2]:
                return int(False != neg)
        if x[0] == "bin" and x[1] in ("and", "or") and x[2] == 1:
            a, b = self.truth(st, x[3]), self.truth(st, x[4])
            if x[1] == "and":
                if a == 0 or b == 0:
                    return int(neg)
                if a == 1 and b == 1:
                    return int(not neg)
            else:
                if a == 1 or b == 1:
                    return int(not neg)
                if a == 0 and b == 0:
                    return int(neg)
        return t

    def setfact(self, st, t, lo, hi, ne=()):
        if lo > hi:
            return False
        if t[0] in ("nondet", "bv"):
            return True
        f = st.facts.get(t)
        if f is not None:
            lo, hi = max(lo, f[0]), min(hi, f[1])
            ne = f[2] | frozenset(ne)
        else:
            ne = frozenset(ne)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return False
        ne = frozenset(x for x in ne if lo < x < hi)
        st.facts[t] = (lo, hi, ne)
        return True

    def assume(self, st, t, val):
        """refine st with t == val (val 0/1); False if impossible"""
        if isint(t):
            return bool(t) == bool(val)
        if t == UNDEF:
            return True
        while t[0] == "not":
            t = t[1]
            val = 1 - val
        if t[0] == "cmp":
            op, w, a, b = t[1:]
            if not self.setfact(st, t, val, val):
                return False
            if op == "eq":
                if isint(a):
                    a, b = b, a
                if isint(b):
                    return self.assume_eq(st, a, b, w, val)
                return True
            if op == "ult":
                if isint(b):
                    return self.assume_rng(st, a, w, 0, b - 1) if val else self.assume_rng(st, a, w, b, MASK[w])
                if isint(a):
                    return self.assume_rng(st, b, w, a + 1, MASK[w]) if val else self.assume_rng(st, b, w, 0, a)
                return True
            if op == "slt":
                half = 1 << (w - 1)
                if isint(b) and sgn(b, w) >= 0:
                    sb = sgn(b, w)
                    if not val:
                        return self.assume_rng(st, a, w, sb, half - 1)
                    if sb == 0:
                        return self.assume_rng(st, a, w, half, MASK[w])
                    if self.rng(st, a, w)[1] < half:
                        return self.assume_rng(st, a, w, 0, sb - 1)
                if isint(a) and sgn(a, w) >= -1:
                    sa = sgn(a, w)
                    if val:
                        return self.assume_rng(st, b, w, sa + 1, half - 1)
                    if sa == -1:
                        return self.assume_rng(st, b, w, half, MASK[w])
                    if self.rng(st, b, w)[1] < half:
                        return self.assume_rng(st, b, w, 0, sa)
                return True
            return True
        if t[0] == "bin" and t[1] == "and" and (t[2] == 1) and val:
            return self.assume(st, t[3], 1) and self.assume(st, t[4], 1) and self.setfact(st, t, 1, 1)
        if t[0] == "bin" and t[1] == "or" and (t[2] == 1) and not val:
            return self.assume(st, t[3], 0) and self.assume(st, t[4], 0) and self.setfact(st, t, 0, 0)
        if t[0] == "cast" and t[1] == "trunc" and self.isbool(t[3]):
            return self.assume(st, t[3], val)
        return self.setfact(st, t, val, val)

    def assume_eq(self, st, a, c, w, val):
        if isinstance(a, tuple) and a[0] == "add" and isint(a[3]) and a[1] == w:
            return self.assume_eq(st, a[2], (c - a[3]) & MASK[w], w, val)
        if isinstance(a, tuple) and a[0] == "cast" and a[1] in ("sext",):
            return True
        if self.isbool(a) and c in (0, 1):
            return self.assume(st, a, c if val else 1 - c)
        lo, hi = self.rng(st, a, w)
        if val:
            if not (lo <= c <= hi):
                return False
            return self.setfact(st, a, c, c)
        return self.setfact(st, a, lo, hi, (c,))

    def assume_rng(self, st, a, w, lo, hi):
        l0, h0 = self.rng(st, a, w)
        lo, hi = max(lo, l0), min(hi, h0)
        if lo > hi:
            return False
        if not self.setfact(st, a, lo, hi):
            return False
        if isinstance(a, tuple) and a[0] == "add" and isint(a[3]):
            # x + c in [lo,hi]
            w, c = a[1], a[3]
            if lo >= c:
                return self.assume_rng(st, a[2], w, lo - c, hi - c)
            if hi < c:
                return self.assume_rng(st, a[2], w, lo - c + MASK[w] + 1, hi - c + MASK[w] + 1)
        return True

    def cast(self, st, op, v, fw, tw):
        if v == UNDEF:
            return v
        v = self.conc(st, v) if not isint(v) else v
        if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "freeze"):
            return v
        if isint(v):
            if op == "zext":
                return v & MASK[fw]
            if op == "trunc":
                return v & MASK[tw]
            if op == "sext":
                return sgn(v, fw) & MASK[tw]
            return ("k", op)
        if op == "zext":
            if isinstance(v, tuple) and v[0] == "add":
                lo, hi = self.rng(st, v[2], fw)
                if isint(v[3]) and hi + v[3] <= MASK[fw]:
                    return self.add(tw, v[2], v[3])
                return ("cast", "zext", tw, v, fw)
            return v
        if op == "trunc":
            if self.isbool(v):
                return v
            lo, hi = self.rng(st, v, fw)
            if hi <= MASK[tw]:
                return v
            if v[0] == "cast" and v[1] in ("zext", "sext") and v[4] == tw:
                return v[3]
            if v[0] == "add" and isint(v[3]):
                x = self.cast(st, "trunc", v[2], fw, tw)
                return self.add(tw, x, v[3] & MASK[tw])
            return ("cast", "trunc", tw, v, fw)
        if op == "sext":
            lo, hi = self.rng(st, v, fw)
            if hi < 1 << (fw - 1):
                return v
            return ("cast", "sext", tw, v, fw)
        return self.trim(("cast", op, tw, v, fw))

    # ------------------------------------------------------------------ trace
    def event(self, st, *ev):
        ev = tuple(ev)
        if self.cfg.on_event:
            self.cfg.on_event(self, st, ev)
        if self.cfg.keep and not self.cfg.keep(self, ev):
            return
        if st.trace.count(ev) < 2:
            st.trace = st.trace + (ev,)

    # ------------------------------------------------------------------ execution
    def run(self, fn, args, st, cs=0):
        """list of Outcome"""
        if isinstance(fn, str):
            fn = self.P.fns[fn]
        outs = self.call_fn(fn, args, st, cs)
        self.stats["paths"] += len(outs)
        return outs

    def typed_args(self, fn, args):
        """attach the parameter types of fn to pointer arguments"""
        ts = fn.types
        if not ts:
            return
        i = 0
        k = 1
        n = len(args)
        if fn.args and fn.args[0].get("sret"):
            if isinstance(args[0], tuple):
                b, o = self.split(args[0])
                if isint(o) and ts[0] != "void":
                    self.settype(b, o, ts[0])
            i = 1
        while i < n and k < len(ts):
            nm = fn.args[i]["name"] if fn.args and i < len(fn.args) else ""
            t = ts[k]
            a = args[i]
            if t and t[-1] in "*&" and isinstance(a, tuple):
                b, o = self.split(a)
                if isinstance(b, tuple) and b[0] in ("o", "s", "g"):
                    self.settype(b, o if isint(o) else 0, t[:-1]) if isint(o) else None
            elif i < len(fn.args) and fn.args[i]["t"][0] == "p" and isinstance(a, tuple) and t in self.P.types:
                b, o = self.split(a)
                if isint(o):
                    self.settype(b, o, t)
            i += 1
            if nm.endswith(".coerce0") and i < n:
                i += 1
            k += 1

    def call_fn(self, fn, args, st, cs):
        if len(self.stack) > self.cfg.max_depth or self.stack.count(fn.name) >= 2:
            self.event(st, "recursion", fn.qual)
            return [Outcome("ret", st, UNDEF)]
        self.stats["functions"].add(fn.name)
        self.stats["calls"] += 1
        fn.prep()
        self.typed_args(fn, args)
        self.stack.append(fn.name)
        try:
            outs = self.body(fn, args, st, cs)
        finally:
            self.stack.pop()
        return self.merge(outs, cs)

    def merge(self, outs, cs):
        """collect garbage of the callee and merge equal outcomes"""
        res, seen = [], set()
        for o in outs:
            self.gc(o.st, o.val, cs)
            k = (o.kind, o.val, o.st.key())
            if k in seen:
                continue
            seen.add(k)
            res.append(o)
        return res

    def gc(self, st, val, cs):
        within = self.within
        # names created below cs
        memo = {}

        def isnew(t):
            """set of new names mentioned in t"""
            if not isinstance(t, tuple):
                return ()
            r = memo.get(t)
            if r is not None:
                return r
            out = set()
            if len(t) == 3 and t[0] in ("s", "o") and isinstance(t[1], tuple):
                nm = t[1]
                if nm[0] in ("c", "al", "h", "A") and within(nm[1], cs) and cs:
                    out.add(t)
                elif nm[0] == "L":
                    out |= set(isnew(nm[1]))
                    if not isint(nm[2]):
                        out |= set(isnew(nm[2]))
            else:
                for x in t:
                    if isinstance(x, tuple):
                        out |= set(isnew(x))
            r = tuple(out)
            memo[t] = r
            return r

        live = set()
        work = []

        def mark(t):
            for n in isnew(t):
                if n not in live:
                    live.add(n)
                    work.append(n)

        mark(val)
        for e in st.trace:
            mark(e)
        for v in st.aux.values():
            mark(v)
        # stack objects of this frame die
        dead = [b for b in st.mem if b[0] == "o" and b[1][0] == "al" and b[1][1] == cs and cs]
        for b in dead:
            del st.mem[b]
        for b, cells in list(st.mem.items()):
            nb = isnew(b)
            if not nb:
                for o, (sz, v) in cells.items():
                    mark(v)
        while work:
            n = work.pop()
            for b, cells in st.mem.items():
                if b == n or n in isnew(b):
                    if all(x in live for x in isnew(b)):
                        for o, (sz, v) in cells.items():
                            mark(v)
        for b in list(st.mem):
            if any(x not in live for x in isnew(b)):
                del st.mem[b]
        for t in list(st.facts):
            if any(x not in live for x in isnew(t)):
                del st.facts[t]
        for nm in list(st.gens):
            if within(nm[1], cs) and cs:
                # keep the counter only if an instance is alive
                if not any(x[1][:3] == nm for x in live):
                    del st.gens[nm]

    def body(self, fn, args, st, cs):
        env = {}
        for i, a in enumerate(args):
            if i < len(fn.args):
                env[i] = a
        outs = []
        work = [(0, None, env, st)]
        visited = {}
        while work:
            bb, prev, env, st = work.pop()
            self.nstates += 1
            if self.nstates > self.cfg.max_states:
                raise Budget("state budget exceeded in %s (stack %s)" % (fn.d, [self.P.fns[x].qual for x in self.stack]))
            block = fn.blocks[bb]
            # phis
            k = 0
            if block and block[0]["o"] == "phi":
                new = {}
                while block[k]["o"] == "phi":
                    i = block[k]
                    for v, p in i["in"]:
                        if p == prev:
                            new[i["n"]] = self.val(env, v)
                            break
                    k += 1
                env = dict(env)
                env.update(new)
            if len(fn.preds[bb]) > 1 or bb in fn.heads:
                live = fn.livein[bb]
                env = {x: v for x, v in env.items() if x in live}
                if bb in fn.heads:
                    if len(self.stack) == 1:
                        st.ren = frozenset()      # no caller has to catch up
                    self.widen(fn, cs, bb, env, st, visited)
                key = (frozenset(env.items()), st.key())
                vs = visited.setdefault(bb, set())
                if key in vs:
                    continue
                vs.add(key)
                if len(vs) > 4000:
                    raise Budget("loop in %s does not stabilise" % fn.d)
            self.stats["blocks"] += 1
            for r in self.block(fn, bb, k, env, st, cs):
                if r[0] == "goto":
                    work.append((r[1], bb, r[2], r[3]))
                else:
                    outs.append(r[1])
        return outs

    def widen(self, fn, cs, bb, env, st, visited):
        """terms which grow with every iteration become summary names"""
        cnt = len(visited.get(bb, ()))
        if cnt < self.cfg.widen_after:
            return
        # after several iterations, integers and offsets that differ between iterations are generalised
        hist = visited[bb]
        for x, v in list(env.items()):
            vals = set()
            for e, _ in hist:
                for kx, kv in e:
                    if kx == x:
                        vals.add(kv)
            if len(vals) > self.cfg.widen_vals and v not in vals:
                self.widenval(st, env, x, v, vals, cs, bb)
        # memory cells
        for b, cells in list(st.mem.items()):
            for o, (sz, v) in list(cells.items()):
                if isint(v) or (isinstance(v, tuple) and v[0] in ("add", "bin", "p", "cast")):
                    vals = set()
                    for _, k in hist:
                        for kb, kc in k[0]:
                            if kb == b:
                                for ko, kv in kc:
                                    if ko == o:
                                        vals.add(kv[1])
                    if len(vals) > self.cfg.widen_vals and v not in vals:
                        c = dict(st.mem[b])
                        c[o] = (sz, self.generalise(cs, ("m", bb, b, o), v, sz * 8))
                        st.mem[b] = c

    def generalise(self, cs, nm, v, w):
        b, o = self.split(v)
        if isinstance(v, tuple) and v[0] == "p":
            return ("p", b, ("s", ("W", cs, nm), 64))
        return ("s", ("W", cs, nm), w)

    def widenval(self, st, env, x, v, vals, cs, bb):
        env[x] = self.generalise(cs, (bb, x), v, self.width(v))

    def tsize(self, t):
        k = t[0]
        if k == "i":
            return (t[1] + 7) // 8
        if k == "p":
            return 8
        if k == "fp":
            return t[1]
        if k == "s":
            return t[1]
        if k == "a":
            return t[1] * t[2]
        return t[1] if len(t) > 1 else 8

    def twidth(self, t):
        return t[1] if t[0] == "i" else 64

    def block(self, fn, bb, k, env, st, cs):
        """generator of results of executing a block from instruction k"""
        block = fn.blocks[bb]
        n = len(block)
        work = [(k, env, st)]
        env0 = env
        while work:
            k, env, st = work.pop()
            env = dict(env)
            while k < n:
                i = block[k]
                o = i["o"]
                if o in ("call", "invoke"):
                    saved = st.ren
                    st.ren = frozenset()
                    res = self.do_call(fn, i, env, st, cs)
                    nxt = []
                    for out in res:
                        e2 = self.catchup(out.st, dict(env), saved)
                        if out.kind == "ret":
                            e2[i["n"]] = out.val
                            if o == "invoke":
                                yield ("goto", i["s"][0], e2, out.st)
                            else:
                                nxt.append((k + 1, e2, out.st))
                        elif out.kind == "throw":
                            if o == "invoke":
                                out.st.aux["exc"] = out.val
                                yield ("goto", i["s"][1], e2, out.st)
                            else:
                                yield ("out", out)
                        # 'end' (abort) is dropped
                    if o == "invoke" or not nxt:
                        break
                    if len(nxt) == 1:
                        _, env, st = nxt[0]
                        k += 1
                        continue
                    work.extend(nxt)
                    break
                if o == "br":
                    s = i["s"]
                    if len(s) == 1:
                        yield ("goto", s[0], env, st)
                    else:
                        c = self.val(env, i["a"][0])
                        yield from self.branch(st, env, c, s[0], s[1])
                    break
                if o == "switch":
                    yield from self.switch(st, env, self.val(env, i["a"][0]), i)
                    break
                if o == "ret":
                    v = self.val(env, i["a"][0]) if i["a"] else None
                    yield ("out", Outcome("ret", st, v))
                    break
                if o == "unreachable":
                    break
                if o == "resume":
                    yield ("out", Outcome("throw", st, st.aux.get("exc")))
                    break
                if o == "select":
                    c = self.truth(st, self.conc(st, self.val(env, i["a"][0])))
                    a, b = self.val(env, i["a"][1]), self.val(env, i["a"][2])
                    if isint(c):
                        env[i["n"]] = a if c else b
                    elif a == b:
                        env[i["n"]] = a
                    elif c == UNDEF:
                        env[i["n"]] = UNDEF
                    elif a == 1 and b == 0:
                        env[i["n"]] = c
                    elif a == 0 and b == 1:
                        env[i["n"]] = self.lnot(c)
                    else:
                        st2 = st.copy()
                        e2 = dict(env)
                        ok1 = self.assume(st, c, 1)
                        ok0 = self.assume(st2, c, 0)
                        env[i["n"]] = a
                        e2[i["n"]] = b
                        if ok0:
                            work.append((k + 1, e2, st2))
                        if not ok1:
                            break
                    k += 1
                    continue
                if o == "cmpxchg":
                    saved = st.ren
                    st.ren = frozenset()
                    fk = self.cmpxchg(fn, i, env, st, cs)
                    for v, s2 in fk:
                        e2 = self.catchup(s2, dict(env), saved)
                        e2[i["n"]] = v
                        work.append((k + 1, e2, s2))
                    break
                if o == "load" and "ord" in i and self.cfg.on_aload:
                    cases = self.cfg.on_aload(self, st, self.val(env, i["a"][0]), i)
                    if cases is not None:
                        for s2, v in cases:
                            e2 = dict(env)
                            e2[i["n"]] = v
                            work.append((k + 1, e2, s2))
                        break
                if o == "atomicrmw" and self.cfg.on_armw:
                    cases = self.cfg.on_armw(self, st, self.val(env, i["a"][0]), i, self.val(env, i["a"][1]))
                    if cases is not None:
                        for s2, v in cases:
                            e2 = dict(env)
                            e2[i["n"]] = v
                            work.append((k + 1, e2, s2))
                        break
                if o == "load" and self.cfg.split:
                    cases = self.splitcases(st, self.val(env, i["a"][0]), self.tsize(i["t"]))
                    if cases:
                        for s2, p2 in cases:
                            e2 = dict(env)
                            e2[i["n"]] = self.do_load(s2, p2, i, fn, cs)
                            work.append((k + 1, e2, s2))
                        break
                saved = st.ren
                st.ren = frozenset()
                v = self.inst(fn, i, env, st, cs)
                env = self.catchup(st, env, saved)
                env[i["n"]] = v
                k += 1

    def catchup(self, st, env, saved):
        """apply the renamings of the last step to this frame"""
        if st.ren:
            memo, m = {}, dict(st.ren)
            env = {x: subst(v, m, memo) for x, v in env.items()}
            st.ren = saved | st.ren
        else:
            st.ren = saved
        return env

    def branch(self, st, env, c, bt, bf):
        c = self.truth(st, self.conc(st, c))
        if isint(c):
            yield ("goto", bt if c & 1 else bf, env, st)
            return
        st2 = st.copy()
        if self.assume(st, c, 1):
            yield ("goto", bt, env, st)
        if self.assume(st2, c, 0):
            yield ("goto", bf, dict(env), st2)

    def switch(self, st, env, v, i):
        w = 32
        v = self.conc(st, v)
        if isint(v):
            for c, b in i["cases"]:
                if self.const(c) == v:
                    yield ("goto", b, env, st)
                    return
            yield ("goto", i["def"], env, st)
            return
        if v == UNDEF:
            for c, b in i["cases"]:
                yield ("goto", b, dict(env), st.copy())
            yield ("goto", i["def"], env, st)
            return
        w = self.width(v)
        rest = st.copy()
        ok = True
        for c, b in i["cases"]:
            s2 = st.copy()
            cv = self.const(c)
            t = self.cmp(s2, "eq", w, v, cv)
            if t == 0:
                continue
            if t == 1 or self.assume(s2, t, 1):
                yield ("goto", b, dict(env), s2)
            if ok and (t == 1 or not self.assume(rest, t, 0)):
                ok = False
        if ok:
            yield ("goto", i["def"], env, rest)

    # ---- plain instructions
    def inst(self, fn, i, env, st, cs):
        o = i["o"]
        if o == "alloca":
            b = ("o", ("al", cs, i["n"], 0), 0)
            st.mem[b] = {}
            self.alsize[b] = i.get("sz")
            nm = i.get("st")
            if nm:
                t = re.sub(r"^(struct|class|union)\.", "", nm)
                t = re.sub(r"\.\d+$", "", t)
                if t in self.P.types:
                    self.settype(b, 0, t)
            return b
        if o == "load":
            p = self.val(env, i["a"][0])
            return self.do_load(st, p, i, fn, cs)
        if o == "store":
            v = self.val(env, i["a"][0])
            p = self.val(env, i["a"][1])
            self.do_store(st, p, v, i, fn)
            return None
        if o == "getelementptr":
            p = self.val(env, i["a"][0])
            if "off" not in i:
                return ("s", ("c", cs, i["n"], 0), 64)
            if p == UNDEF:
                return UNDEF
            off = i["off"]
            for v, sc in i["var"]:
                x = self.conc(st, self.val(env, v))
                if x == UNDEF:
                    return UNDEF
                if isint(x):
                    off = self.offadd(off, sgn(x, 64) * sc)
                else:
                    off = self.offadd(off, self.binop(st, "mul", 64, x, sc & MASK[64]))
            return self.padd(p, off)
        if o == "icmp":
            a, b = self.val(env, i["a"][0]), self.val(env, i["a"][1])
            return self.cmp(st, i["p"], self.twidth(i["ot"]), a, b)
        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            return self.binop(st, o, self.twidth(i["t"]), self.val(env, i["a"][0]), self.val(env, i["a"][1]))
        if o in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "freeze", "fptosi", "fptoui",
                 "sitofp", "uitofp", "fpext", "fptrunc"):
            return self.cast(st, o, self.val(env, i["a"][0]), self.twidth(i.get("ot", ["i", 64])), self.twidth(i["t"]))
        if o == "extractvalue":
            v = self.val(env, i["a"][0])
            for ix in i["ix"]:
                v = self.exv(v, ix)
            return v
        if o == "insertvalue":
            return self.insv(self.val(env, i["a"][0]), i["ix"], self.val(env, i["a"][1]), i["t"])
        if o == "atomicrmw":
            return self.atomicrmw(fn, i, env, st, cs)
        if o == "fence":
            self.event(st, "fence", i["ord"])
            return None
        if o == "landingpad":
            return ("agg", (("exc",), ("sel",)))
        if o in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fcmp"):
            return ("fpop", o, i.get("p", "")) + tuple(self.val(env, a) for a in i["a"])
        if o == "phi":
            return env.get(i["n"], UNDEF)
        raise Unsupported(o)

    def exv(self, v, ix):
        if v == UNDEF:
            return UNDEF
        if isinstance(v, tuple) and v[0] == "agg":
            return v[1][ix] if ix < len(v[1]) else UNDEF
        if isinstance(v, tuple) and v[0] == "cat":
            for oo, sz, x in v[2]:
                if oo == ix * 8:
                    return x
            return UNDEF
        if isint(v):
            return v
        return ("x", v, ix)

    def insv(self, a, ix, v, t):
        n = len(t[2]) if t[0] == "s" else (t[1] if t[0] == "a" else max(ix) + 1)
        if isinstance(a, tuple) and a and a[0] == "agg":
            l = list(a[1])
        else:
            l = [UNDEF] * n
        while len(l) < n:
            l.append(UNDEF)
        if len(ix) == 1:
            l[ix[0]] = v
        else:
            l[ix[0]] = self.insv(l[ix[0]], ix[1:], v, t[2][ix[0]][1] if t[0] == "s" else t[3])
        return ("agg", tuple(l))

    def shared(self, st, b, o):
        """may other threads change this cell?"""
        if isinstance(b, tuple) and b[0] == "o":
            return False
        if b in self.cfg.pin_bases:
            return False
        return True

    def pinned(self, st, b, o):
        if b in self.cfg.pin_bases:
            return True
        if not self.shared(st, b, o):
            return True
        f = self.field(b, o)
        return f in self.cfg.pinned or (b, o) in self.cfg.pinned

    def splitcases(self, st, p, size):
        """one state per element which an access at an unknown index may hit; event 'oob' if it may be outside"""
        b, o = self.split(p)
        if isint(o) or b not in self.cfg.split:
            return None
        f = st.facts.get(o)
        if f and f[0] == f[1]:
            return [(st, ("p", b, f[0]) if False else self.ptr(b, f[0]))]
        c, t, k = 0, o, 1
        if isinstance(t, tuple) and t[0] == "add" and isint(t[3]):
            c, t = sgn(t[3], 64), t[2]
        if isinstance(t, tuple) and t[0] == "bin" and t[1] == "mul" and isint(t[4]):
            t, k = t[3], t[4]
        elif isinstance(t, tuple) and t[0] == "bin" and t[1] == "shl" and isint(t[4]):
            t, k = t[3], 1 << t[4]
        lo, hi = self.rng(st, t, 64)
        cells = [oo for oo, (sz, v) in (st.mem.get(b) or {}).items() if isint(oo) and sz == size]
        outs, inside = [], 0
        for oo in sorted(cells):
            if (oo - c) % k:
                continue
            v = (oo - c) // k
            if not lo <= v <= hi:
                continue
            s2 = st.copy()
            inside += 1
            if self.assume_eq(s2, t, v, 64, True) and self.setfact(s2, o, oo, oo):
                outs.append((s2, self.ptr(b, oo)))
        if hi - lo + 1 > inside:
            self.event(st, "oob", b, o)
            outs.append((st, p))
        return outs

    def do_load(self, st, p, i, fn, cs):
        t = i["t"]
        sz = self.tsize(t)
        b, o = self.split(p)
        if b == UNDEF:
            return UNDEF
        if isinstance(b, tuple) and b[0] == "g" and b[1].startswith("_ZGV"):
            return 1      # function-local statics are initialised
        if self.cfg.on_access:
            self.cfg.on_access(self, st, b, o, sz, False)
        if "ord" in i:
            if self.pinned(st, b, o):
                v = self.load(st, p, sz, w=self.twidth(t), isptr=t[0] == "p")
            else:
                v = self.fresh(st, cs, i["n"], self.twidth(t), tag="A")
                ft = self.fieldtype(b, o)
                if ft and ft[-1] in "*&":
                    self.settype(v, 0, ft[:-1])
                if ft == "bool":
                    self.bools.add(v)
            if self.cfg.all_atomics:
                self.event(st, "aload", self.field(b, o), p, v, i["ord"])
            return v
        if self.cfg.volatile and self.field(b, o) in self.cfg.volatile:
            # every read gives a new name
            saved = st.ren
            v = self.fresh(st, cs, i["n"], self.twidth(t))
            new = st.ren - saved
            if new:
                p = subst(p, dict(new), {})
            ft = self.fieldtype(b, o)
            if ft and ft[-1] in "*&":
                self.settype(v, 0, ft[:-1])
            self.event(st, "load", self.field(b, o), p, v)
            return v
        v = self.load(st, p, sz, w=self.twidth(t), isptr=t[0] == "p")
        if self.cfg.fields:
            f = self.field(b, o)
            if f in self.cfg.fields:
                self.event(st, "load", f, p, v)
        if t[0] == "s" and not (isinstance(v, tuple) and v and v[0] in ("agg", "undef")):
            # load of a first class aggregate
            return ("agg", tuple(self.load(st, self.padd(p, fo), self.tsize(ft), w=self.twidth(ft)) for fo, ft in t[2]))
        return v

    def do_store(self, st, p, v, i, fn):
        t = i["vt"]
        sz = self.tsize(t)
        b, o = self.split(p)
        if isinstance(b, tuple) and b != UNDEF:
            if self.cfg.on_access:
                self.cfg.on_access(self, st, b, o, sz, True)
            if "ord" in i:
                if self.cfg.all_atomics:
                    self.event(st, "astore", self.field(b, o), p, v, i["ord"])
            elif self.cfg.fields:
                f = self.field(b, o)
                if f in self.cfg.fields:
                    self.event(st, "store", f, p, v)
        elif isint(b) and "ord" in i and self.cfg.all_atomics:
            self.event(st, "astore", "", p, v, i["ord"])
        if t[0] == "s" and isinstance(v, tuple) and v[0] == "agg":
            for (fo, ft), x in zip(t[2], v[1]):
                self.store(st, self.padd(p, fo), x, self.tsize(ft))
            return
        if v == ("zero",):
            v = 0
        self.store(st, p, v, sz)

    def atomicrmw(self, fn, i, env, st, cs):
        p = self.val(env, i["a"][0])
        x = self.val(env, i["a"][1])
        w = self.twidth(i["t"])
        b, o = self.split(p)
        if self.cfg.on_access:
            self.cfg.on_access(self, st, b, o, w // 8, True)
        if self.pinned(st, b, o):
            old = self.load(st, p, self.tsize(i["t"]), w=w)
        else:
            old = self.fresh(st, cs, i["n"], w, tag="A")
        op = i["rmw"]
        m = {"add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor"}
        if op in m:
            new = self.binop(st, m[op], w, old, x)
        elif op == "xchg":
            new = x
        else:
            new = ("rmw", op, old, x)
        if self.cfg.all_atomics:
            self.event(st, "rmw", self.field(b, o), p, op, x, old, i["ord"])
        self.store(st, p, new, self.tsize(i["t"]))
        return old

    def cmpxchg(self, fn, i, env, st, cs):
        p = self.val(env, i["a"][0])
        exp = self.val(env, i["a"][1])
        new = self.val(env, i["a"][2])
        t = i["vt"]
        w = self.twidth(t)
        sz = self.tsize(t)
        b, o = self.split(p)
        res = []
        f = self.field(b, o)
        pin = self.pinned(st, b, o)
        cur = self.load(st, p, sz, w=w) if pin else None
        ok = st.copy()
        possible = True
        if pin:
            c = self.cmp(ok, "eq", w, cur, exp)
            possible = c != 0 and (c == 1 or self.assume(ok, c, 1))
        if possible:
            if self.cfg.all_atomics:
                self.event(ok, "cas", f, p, exp, new, 1, i["ord"])
            self.store(ok, p, new, sz)
            res.append((("agg", (exp, 1)), ok))
        fl = st
        if pin:
            c = self.cmp(fl, "eq", w, cur, exp)
            if c == 1 and not i.get("weak"):
                return res
            if c != 1:
                self.assume(fl, c, 0)
            v = cur
        else:
            v = self.fresh(fl, cs, i["n"], w, tag="A")
            ft = self.fieldtype(b, o)
            if ft and ft[-1] in "*&":
                self.settype(v, 0, ft[:-1])
        if self.cfg.all_atomics:
            self.event(fl, "cas", f, p, exp, new, 0, i["ford"], v)
        res.append((("agg", (v, 0)), fl))
        return res

    # ---- calls
    def do_call(self, fn, i, env, st, cs):
        args = [self.val(env, a) for a in i["a"]]
        c = self.val(env, i["c"]) if i["c"][0] != "x" else ("x", "asm")
        info = Info(self, fn, i, cs)
        if "bv" in i:
            for idx, sz in i["bv"]:
                # by-value aggregate: private copy
                b = ("o", ("al", cs, (i["n"], idx), 0), 0)
                st.mem[b] = {}
                self.memcpy(st, b, args[idx], sz)
                args[idx] = b
        if isinstance(c, tuple) and c[0] == "f":
            outs = self.call_named(c[1], args, st, info)
            p = args[0] if args else None
            if isinstance(p, tuple) and p[0] == "o" and p in self.alsize:
                f = self.P.fns.get(c[1])
                # a destroyed local holds nothing (a member or base may have its address, but not its size)
                if f and (f.base.startswith("~") or f.name.endswith(("D1Ev", "D2Ev"))) and len(f.types) > 1 and f.types[1] and self.P.size(f.types[1].rstrip("*")) == self.alsize[p]:
                    for o in outs:
                        if o.st.mem.get(p):
                            o.st.mem[p] = {}
            return outs
        return self.call_indirect(c, args, st, info)

    def call_named(self, name, args, st, info):
        f = self.P.fns.get(name)
        if f is None:
            return [Outcome("ret", st, self.result(st, info))]
        h = self.model(f)
        if h is not None:
            r = h(self, st, f, args, info)
            if r is not None:
                return r
        if f.qual in self.cfg.watch:
            self.event(st, "call", f.qual, tuple(args))
        if f.blocks is None:
            return self.opaque(f, args, st, info)
        return self.call_fn(f, args, st, self.csid(info.cs, info.fn.name, info.i["n"]))

    def opaque(self, f, args, st, info):
        self.stats["opaque"][f.qual] = self.stats["opaque"].get(f.qual, 0) + 1
        if f.nr or info.i.get("nr"):
            return []
        outs = [Outcome("ret", st, self.result(st, info))]
        return outs

    def result(self, st, info):
        t = info.i.get("t")
        if t is None:
            return None
        if t[0] == "s":
            return ("agg", tuple(self.fresh(st, info.cs, (info.i["n"], k), self.twidth(ft)) for k, (fo, ft) in enumerate(t[2])))
        return self.fresh(st, info.cs, info.i["n"], self.twidth(t))

    def model(self, f):
        m = self._modelcache.get(f.name, 0)
        if m != 0:
            return m
        m = None
        for pred, h in self.cfg.models:
            if pred(f):
                m = h
                break
        self._modelcache[f.name] = m
        return m

    def call_indirect(self, c, args, st, info):
        # virtual call: callee loaded from vtable slot
        if isinstance(c, tuple) and c[0] == "s" and c[1][0] == "L":
            vt, off = c[1][1], c[1][2]
            if isinstance(vt, tuple) and vt[0] == "s" and vt[1][0] == "L" and isint(off):
                obj, oo = vt[1][1], vt[1][2]
                t = self.typeat(obj, oo)
                if t:
                    cls = t[0]
                    if t[1]:
                        for cc, nn, mt, mo in self.P.path(t[0], t[1]):
                            pass
                    slot = self.P.vslots(self.clsat(t)).get(off // 8)
                    if slot:
                        nm = "%s::%s" % slot
                        info.virt = (self.clsat(t), slot)
                        tgt = self.cfg.vdispatch.get(nm) or self.cfg.vdispatch.get("%s::%s" % (self.clsat(t), slot[1]))
                        if tgt:
                            if callable(tgt):
                                r = tgt(self, st, None, args, info)
                                if r is not None:
                                    return r
                            else:
                                for f in self.P.find(tgt):
                                    return self.call_named(f.name, args, st, info)
                        saved = st.ren
                        v = self.vresult(st, info, slot)
                        new = st.ren - saved
                        if new:
                            args = [subst(x, dict(new), {}) for x in args]
                        self.event(st, "vcall", nm, tuple(args), *(() if v is None else (v,)))
                        return self.decide(st, info, v)
        h = self.cfg.calls.get("<indirect>")
        if h:
            r = h(self, st, c, args, info)
            if r is not None:
                return r
        self.event(st, "icall", c, tuple(args))
        return [Outcome("ret", st, self.result(st, info))]

    def decide(self, st, info, v):
        """an unknown answer is decided at once, whatever the caller makes of it"""
        if v is None or isint(v) or info.i.get("t") != ["i", 1]:
            return [Outcome("ret", st, v)]
        res = []
        for k in (0, 1):
            s2 = st.copy()
            if self.assume(s2, v, k):
                res.append(Outcome("ret", s2, k))
        return res

    def vresult(self, st, info, slot):
        v = self.result(st, info)
        # type of the result from the declared method
        for f in self.P.byqual.get("%s::%s" % slot, []):
            if f.types and f.types[0] and f.types[0][-1:] in ("*", "&") and isinstance(v, tuple):
                self.settype(v, 0, f.types[0][:-1])
        return v

    def clsat(self, t):
        """class at (type, off): descends into bases"""
        typ, off = t
        for _ in range(20):
            if off == 0:
                return typ
            nx = None
            for o, s, k, n, mt in self.P.layout(typ):
                if o <= off < o + s and self.P.size(mt):
                    nx = (mt, off - o)
            if not nx:
                return typ
            typ, off = nx
        return typ

    # ------------------------------------------------------------------ printing
    def show(self, v, d=0):
        if isint(v):
            return str(v if v < 1 << 63 else v - (1 << 64))
        if v is None:
            return "void"
        if not isinstance(v, tuple) or not v:
            return str(v)
        if d > 12:
            return ".."
        k = v[0]
        if k == "p":
            b, o = v[1], v[2]
            p = self.fieldpath(b, o)
            if p:
                return "&" + self.show(b, d + 1) + "->" + ".".join(x[1] for x in p if not x[1].startswith("_M_"))
            return self.show(b, d + 1) + "+" + self.show(o, d + 1)
        if k == "s":
            nm = v[1]
            if nm[0] == "L":
                p = self.fieldpath(nm[1], nm[2])
                if p:
                    return self.show(nm[1], d + 1) + "->" + ".".join(x[1] for x in p if not x[1].startswith("_M_"))
                return "*" + self.show(self.ptr(nm[1], nm[2]), d + 1)
            if nm[0] == "arg":
                return nm[1]
            if nm[0] in ("c", "A"):
                return "v%s.%s%s" % (nm[1], nm[2], "'" * nm[3])
            return "?" + str(nm[0])
        if k == "o":
            nm = v[1]
            return "%s%s.%s" % ({"al": "local", "h": "new"}.get(nm[0], nm[0]), nm[1] if len(nm) > 1 else "", nm[2] if len(nm) > 2 else "")
        if k == "g":
            return "@" + self.P.globals.get(v[1], {}).get("d", v[1])
        if k == "f":
            f = self.P.fns.get(v[1])
            return "fn:" + (f.qual if f else v[1])
        if k == "cmp":
            return "(%s %s %s)" % (self.show(v[3], d + 1), {"eq": "==", "ult": "<u", "slt": "<"}[v[1]], self.show(v[4], d + 1))
        if k == "not":
            return "!" + self.show(v[1], d + 1)
        if k == "add":
            return "(%s + %s)" % (self.show(v[2], d + 1), self.show(sgn(v[3], v[1]) if isint(v[3]) else v[3], d + 1))
        if k == "bin":
            return "(%s %s %s)" % (self.show(v[3], d + 1), v[1], self.show(v[4], d + 1))
        if k == "cast":
            return "%s%d(%s)" % (v[1], v[2], self.show(v[3], d + 1))
        return "<" + " ".join(self.show(x, d + 1) if isinstance(x, tuple) else str(x) for x in v) + ">"

    def showev(self, e):
        return " ".join(self.show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                        ("(" + ", ".join(self.show(y) for y in x) + ")" if isinstance(x, tuple) else
                         (self.show(x) if isint(x) else str(x))) for x in e)

    def showst(self, st):
        l = ["  " + self.showev(e) for e in st.trace]
        l += ["  | %s in [%s,%s]%s" % (self.show(t), f[0], f[1], " not " + str(set(f[2])) if f[2] else "") for t, f in
              st.facts.items()]
        return "\n".join(l)


class Info:
    __slots__ = ("eng", "fn", "i", "cs", "virt")

    def __init__(self, eng, fn, i, cs):
        self.eng, self.fn, self.i, self.cs = eng, fn, i, cs
        self.virt = None

    @property
    def where(self):
        return self.eng.P.where(self.fn, self.i)


def shortcls(c):
    """class name without namespaces and template arguments"""
    d = 0
    out = []
    for ch in c:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).split("::")[-1]


def sgn(v, w):
    v &= MASK[w]
    return v - (1 << w) if v >= 1 << (w - 1) else v


def hash_depth(t):
    return "deep%d" % (hash(repr(t)) & 0xFFFF)
