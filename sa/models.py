"""Default treatment of library functions."""
import re
from engine import *


def ret(st, v=None):
    return [Outcome("ret", st, v)]


def starts(*ps):
    return lambda f: f.d.startswith(ps) or f.qual.startswith(ps)


def m_skip(eng, st, f, args, info):
    t = info.i.get("t")
    return ret(st, eng.result(st, info) if t else None)


def m_lifetime(eng, st, f, args, info):
    """llvm.lifetime.start / .end: the local's storage holds nothing before the one and after the other."""
    p = args[-1]
    if isinstance(p, tuple) and p and p[0] == "o" and p[2] == 0 and isinstance(p[1], tuple) and p[1][0] == "al":
        if st.mem.get(p):
            st.mem[p] = {}
    return ret(st, None)


def m_end(eng, st, f, args, info):
    return []


def m_new(eng, st, f, args, info):
    b = eng.fresh(st, info.cs, info.i["n"], 0, tag="h", kind="o")
    st.mem[b] = {}
    eng.event(st, "new", b, args[0])
    return ret(st, b)


def m_delete(eng, st, f, args, info):
    eng.event(st, "delete", args[0])
    return ret(st)


def m_memcpy(eng, st, f, args, info):
    n = eng.conc(st, args[2])
    if isint(n):
        eng.memcpy(st, args[0], args[1], n)
    else:
        eng.event(st, "memcpy", *args[:3])
    return ret(st, args[0])


def m_memcmp(eng, st, f, args, info):
    """zero exactly if all parts are equal; the sign is not known"""
    n = eng.conc(st, args[2])
    if not isint(n) or n > 128:
        return None
    res, k, todo = [], 0, [st]
    while k < n:
        sz = next(z for z in (8, 4, 2, 1) if k + z <= n)
        nxt = []
        for s in todo:
            t = eng.cmp(s, "eq", 8 * sz, eng.load(s, eng.padd(args[0], k), sz, w=8 * sz), eng.load(s, eng.padd(args[1], k), sz, w=8 * sz))
            for v in (1, 0):
                s2 = s.copy()
                if t == v or not isint(t) and eng.assume(s2, t, v):
                    if v:
                        nxt.append(s2)
                    else:
                        res.append(s2)
        todo, k = nxt, k + sz
    outs = [Outcome("ret", s, 0) for s in todo]
    for s in res:
        r = eng.fresh(s, info.cs, info.i["n"], 32)
        s.facts[r] = (1, MASK[32], frozenset())
        outs.append(Outcome("ret", s, r))
    return outs


def m_memset(eng, st, f, args, info):
    n = eng.conc(st, args[2])
    v = eng.conc(st, args[1])
    b, o = eng.split(args[0])
    if isint(n) and isint(o) and v == 0 and not isint(b):
        eng.clear(st, b, o, n)
        cells = dict(st.mem.get(b) or {})
        for k in range(0, n, 8):
            cells[o + k] = (min(8, n - k), 0)
        st.mem[b] = cells
    else:
        eng.event(st, "memset", *args[:3])
    return ret(st, args[0])


def m_throw(eng, st, f, args, info):
    exc = args[1] if f.name == "__cxa_throw" and len(args) > 1 else ("k", f.qual)
    eng.event(st, "throw", exc)
    return [Outcome("throw", st, exc)]


def m_addressof(eng, st, f, args, info):
    return ret(st, args[0])


def m_tls_wrapper(eng, st, f, args, info):
    """thread_local accessor -> the global itself"""
    nm = f.name
    g = nm[4:] if nm.startswith("_ZTW") else nm
    tgt = "_Z" + g
    if tgt in eng.P.globals:
        return ret(st, eng.gbase(tgt))
    return ret(st, eng.gbase(tgt))


def m_tls_addr(eng, st, f, args, info):
    return ret(st, args[0])


def m_expect(eng, st, f, args, info):
    return ret(st, args[0])


def lockname(eng, p):
    b, o = eng.split(p)
    return eng.field(b, o)


def m_lock(kind):
    def h(eng, st, f, args, info):
        eng.event(st, kind, args[0])
        return ret(st)
    return h


def m_try_lock(eng, st, f, args, info):
    s2 = st.copy()
    eng.event(st, "lock", args[0])
    return [Outcome("ret", st, 1), Outcome("ret", s2, 0)]


def m_bitcount(eng, st, f, args, info):
    w = int(f.name.rsplit(".i", 1)[1])
    v = eng.conc(st, args[0])
    k = f.name.split(".")[1]
    if not isint(v):
        r = eng.result(st, info)
        st.facts[r] = (0, w, frozenset())
        return ret(st, r)
    if k == "ctpop":
        return ret(st, bin(v).count("1"))
    if v == 0:
        return ret(st, w)
    return ret(st, (v & -v).bit_length() - 1 if k == "cttz" else w - v.bit_length())


def m_minmax(eng, st, f, args, info):
    w = int(f.name.rsplit(".i", 1)[1])
    k = f.name.split(".")[1]
    a, b = args[0], args[1]
    t = eng.truth(st, eng.cmp(st, k[0] + "lt", w, a, b))
    outs = []
    for val, r in ((1, b if k.endswith("max") else a), (0, a if k.endswith("max") else b)):
        s2 = st.copy()
        if eng.assume(s2, t, val):
            outs.append(Outcome("ret", s2, r))
    return outs


def m_umul(eng, st, f, args, info):
    w = 64
    a, b = eng.conc(st, args[0]), eng.conc(st, args[1])
    if isint(a) and isint(b):
        p = a * b
        return ret(st, ("agg", (p & MASK[w], int(p > MASK[w]))))
    return ret(st, ("agg", (eng.binop(st, "mul", w, a, b), 0)))


def m_uaddsat(op):
    def h(eng, st, f, args, info):
        return ret(st, ("x", op) + tuple(args))
    return h


SKIP = ("spdlog::", "fmt::", "void spdlog::", "std::shared_ptr<spdlog", "std::basic_string", "std::__cxx11::", "std::basic_string_view",
        "std::allocator<char>", "std::ostream", "std::operator<<", "std::locale", "std::basic_ostream", "std::ios",
        "std::runtime_error::", "std::logic_error::", "std::exception::", "std::bad_alloc::", "std::endl", "std::to_string")


def is_skip(f):
    return f.d.startswith(SKIP) or (f.ctx.startswith(("spdlog", "fmt", "std::__cxx11::basic_string")))


def default_models():
    M = []
    a = M.append
    a((lambda f: f.name.startswith("llvm.lifetime"), m_lifetime))
    a((lambda f: f.name.startswith(("llvm.dbg", "llvm.donothing", "llvm.experimental.noalias", "llvm.assume", "llvm.va_", "llvm.stack")), m_skip))
    a((lambda f: f.name.startswith(("llvm.memcpy", "llvm.memmove")) or f.name in ("memcpy", "memmove"), m_memcpy))
    a((lambda f: f.name in ("memcmp", "bcmp"), m_memcmp))
    a((lambda f: f.name.startswith("llvm.memset") or f.name == "memset", m_memset))
    a((lambda f: f.name.startswith("llvm.threadlocal"), m_tls_addr))
    a((lambda f: f.name.startswith("llvm.expect"), m_expect))
    a((lambda f: f.name.startswith("llvm.umul.with.overflow"), m_umul))
    a((lambda f: f.name.startswith(("llvm.cttz.", "llvm.ctlz.", "llvm.ctpop.")), m_bitcount))
    a((lambda f: f.name.startswith(("llvm.umax.", "llvm.umin.", "llvm.smax.", "llvm.smin.")), m_minmax))
    a((lambda f: f.name.startswith("llvm.trap"), m_end))
    a((lambda f: f.name.startswith("_ZTW"), m_tls_wrapper))
    a((lambda f: f.name.startswith("_ZTH") or f.name == "__tls_init" or f.name.startswith("__cxa_guard") or f.name in ("atexit", "__cxa_atexit", "__cxa_thread_atexit"), m_skip))
    a((lambda f: f.name in ("__assert_fail", "abort", "_ZSt9terminatev", "__clang_call_terminate", "exit", "__cxa_pure_virtual"), m_end))
    a((lambda f: f.qual in ("std::__throw_system_error", "std::__throw_bad_function_call", "std::__throw_length_error", "std::__throw_bad_alloc", "std::__throw_bad_array_new_length"), m_end))
    a((lambda f: f.name in ("__cxa_throw", "__cxa_rethrow", "_Unwind_Resume") or f.qual.startswith("std::__throw_") or f.d.startswith("std::__throw_"), m_throw))
    a((lambda f: f.name.startswith("__cxa_"), m_skip))
    a((lambda f: f.name in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "malloc", "_ZnwmRKSt9nothrow_t"), m_new))
    a((lambda f: f.name.startswith(("_ZdlPv", "_ZdaPv")) or f.name == "free", m_delete))
    a((lambda f: f.qual in ("std::__addressof", "std::addressof", "std::forward", "std::move", "std::launder", "std::__niter_base") and f.blocks is not None and f.qual != "std::move_", None))
    a((is_skip, m_skip))
    return [(p, h) for p, h in M if h]


# ------------------------------------------------------------------ locks
def lock_models():
    """lock()/unlock() become events with the lock address; RAII wrappers are inlined"""
    M = []
    a = M.append
    L = ("redGrapes::SpinLock", "std::mutex", "std::shared_mutex", "std::recursive_mutex", "redGrapes::RWSpinLock")
    a((lambda f: f.ctx in L and f.base == "lock", m_lock("lock")))
    a((lambda f: f.ctx in L and f.base == "unlock", m_lock("unlock")))
    a((lambda f: f.ctx in L and f.base in ("lock_shared",), m_lock("lock_shared")))
    a((lambda f: f.ctx in L and f.base in ("unlock_shared",), m_lock("unlock_shared")))
    a((lambda f: f.ctx in L and f.base in ("try_lock",), m_try_lock))
    a((lambda f: f.ctx == "std::condition_variable" and f.base.startswith("~"), m_skip))
    return M


# ------------------------------------------------------------------ values
def leaves(P, t, off=0, pre="", depth=0):
    """scalar members of type t: (path, off, size, type)"""
    if t and t[-1] in "*&":
        yield (pre, off, 8, t)
        return
    lay = P.layout(t)
    if not lay:
        sz = {"bool": 1, "char": 1, "short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8}.get(t)
        if sz is None:
            e = P.types.get(t)
            sz = e.get("size", 8) if e else 8
        if P.types.get(t) and "m" in P.types[t] and not P.layout(t):
            return
        yield (pre, off, sz, t)
        return
    if depth > 12:
        return
    for o, s, k, n, mt in lay:
        if k == "b":
            yield from leaves(P, mt, off + o, pre, depth + 1)
        else:
            if mt and mt[-1] in "*&" or not P.layout(mt):
                if P.types.get(mt) and "m" in P.types[mt]:
                    continue
                yield ((pre + "." + n).strip("."), off + o, s, mt)
            else:
                yield from leaves(P, mt, off + o, (pre + "." + n).strip("."), depth + 1)


def snapshot(eng, st, p, t):
    """the value of type t stored at p"""
    if t and (t[-1] in "*&" or t not in eng.P.types):
        sz = 8 if t[-1] in "*&" else {"bool": 1, "int": 4, "unsigned int": 4}.get(t, 8)
        return eng.load(st, p, sz, w=8 * sz if sz < 8 else 64)
    e = eng.P.types.get(t)
    if e and "enum" in e:
        return eng.load(st, p, e["size"], w=8 * e["size"])
    r = []
    for n, o, s, mt in leaves(eng.P, t):
        if n.endswith("_M_pi") or s not in (1, 2, 4, 8):
            continue
        r.append((n, eng.load(st, eng.padd(p, o), s, w=8 * s if s < 8 else 64)))
    return ("val", shortcls(t)) + tuple(r)


def tmplarg(cls, pos=0):
    """n-th template argument of the first template-id in a class name"""
    k = cls.find("<")
    if k < 0:
        return ""
    d, start, n = 0, k + 1, 0
    for j in range(k, len(cls)):
        ch = cls[j]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d == 0:
                return cls[start:j].strip() if n == pos else ""
        elif ch == "," and d == 1:
            if n == pos:
                return cls[start:j].strip()
            n += 1
            start = j + 1
    return ""


REND = ("k", "rend")


def itpos(eng, st, p):
    b, o = eng.split(p)
    c = st.mem.get(b, {}).get(o)
    if c is not None and c[0] == 24:
        v = c[1]
        if isinstance(v, tuple) and v[0] == "blk":
            return ("s", ("pos", ("s", ("L", v[1], v[2], 24), 64)), 64)
        return v
    if c is not None and isinstance(c[1], tuple) and c[1][0] == "blk":
        return ("s", ("pos", ("s", ("L", c[1][1], c[1][2], 24), 64)), 64)
    # inside of a larger copied block?
    if c is None and isint(o):
        for oo, (sz, v) in st.mem.get(b, {}).items():
            if isint(oo) and oo <= o < oo + sz and isinstance(v, tuple) and v[0] == "blk":
                return ("s", ("pos", ("s", ("L", v[1], eng.offadd(v[2], o - oo), 24), 64)), 64)
    return ("s", ("pos", ("s", ("L", b, o, 24), 64)), 64)


def setpos(eng, st, p, v):
    b, o = eng.split(p)
    eng.clear(st, b, o, 24)
    eng.store(st, p, v, 24)


def elemptr(eng, pos, T):
    s = ("s", ("elem", pos), 64)
    eng.settype(s, 0, T)
    if T and T[-1] in "*&":
        v = ("s", ("L", s, 0, 8), 64)
        eng.btypes.setdefault(v, {})
        eng.settype(v, 0, T[:-1])
    return s


def list_type(cls):
    t = tmplarg(cls)
    return t.replace("> >", ">>").replace(" *", "*")


def list_model(eng, st, f, args, info):
    b = f.base
    T = list_type(f.cls)
    sret = bool(f.args and f.args[0].get("sret")) or (f.blocks is None and b in ("push", "rbegin", "rend", "crbegin", "crend"))
    if b in ("rbegin", "crbegin", "begin", "cbegin"):
        pos = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
        eng.event(st, "it.begin", args[1], pos)
        setpos(eng, st, args[0], pos)
        return ret(st)
    if b in ("rend", "crend", "end", "cend"):
        setpos(eng, st, args[0], REND)
        return ret(st)
    if b == "push":
        pos = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
        eng.event(st, "push", args[1], snapshot(eng, st, args[2], T), pos)
        st.facts[("cmp", "eq", 64) + tuple(sorted((pos, REND), key=repr))] = (0, 0, frozenset())
        setpos(eng, st, args[0], pos)
        return ret(st)
    if b == "remove":
        eng.event(st, "remove", args[0], itpos(eng, st, args[1]))
        return ret(st)
    if b == "erase":
        v = args[1]
        if T in eng.P.types:
            v = snapshot(eng, st, args[1], T)
        eng.event(st, "erase", args[0], v)
        return ret(st)
    if b == "ChunkedList":
        if len(args) == 3:
            eng.event(st, "list.copy", args[0], args[2])
        elif len(args) == 2 and f.types[2:3] and "ChunkedList" in f.types[2]:
            eng.event(st, "list.move", args[0], args[1])
        else:
            eng.event(st, "list.init", args[0])
        return ret(st)
    if b == "~ChunkedList":
        eng.event(st, "list.destroy", args[0])
        return ret(st)
    if b == "operator=":
        eng.event(st, "list.assign", args[0], args[1])
        return ret(st, args[0])
    return None


def iter_model(eng, st, f, args, info):
    b = f.base
    T = list_type(f.cls)
    if b.startswith("~"):
        return ret(st)
    if b in ("BackwardIterator", "ItemAccess"):
        if len(args) == 2:
            setpos(eng, st, args[0], itpos(eng, st, args[1]))
            return ret(st)
        setpos(eng, st, args[0], eng.fresh(st, info.cs, info.i["n"]))
        return ret(st)
    if b == "operator=":
        setpos(eng, st, args[0], itpos(eng, st, args[1]))
        return ret(st, args[0])
    if b in ("operator!=", "operator=="):
        t = eng.cmp(st, "eq", 64, itpos(eng, st, args[0]), itpos(eng, st, args[1]))
        return ret(st, t if b == "operator==" else eng.lnot(t))
    if b == "operator++":
        old = itpos(eng, st, args[0])
        if eng.cfg.on_next:
            eng.cfg.on_next(eng, st, old)
        saved = st.ren
        pos = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
        new = st.ren - saved
        if new:
            old = subst(old, dict(new), {})
        eng.event(st, "it.next", old, pos)
        setpos(eng, st, args[0], pos)
        return ret(st, args[0])
    if b in ("operator*", "operator->"):
        return ret(st, elemptr(eng, itpos(eng, st, args[0]), T))
    if b == "is_valid":
        return ret(st, eng.lnot(eng.cmp(st, "eq", 64, itpos(eng, st, args[0]), REND)))
    return None


def list_models():
    return [
        (lambda f: f.ctx in ("redGrapes::ChunkedList::BackwardIterator", "redGrapes::ChunkedList::ItemAccess"), iter_model),
        (lambda f: f.ctx == "redGrapes::ChunkedList", list_model),
    ]


# ------------------------------------------------------------------ shared_ptr
def sp_count_model(eng, st, f, args, info):
    """reference counting of shared_ptr is transparent: the control pointer is copied like a value"""
    b = f.base
    if b.startswith("~"):
        return ret(st)
    if b == "operator=" and len(args) == 2:
        eng.store(st, args[0], eng.load(st, args[1], 8), 8)
        return ret(st, args[0])
    if b in ("__shared_count", "__weak_count") and len(args) == 2 and f.types[2:3] and ("__shared_count" in f.types[2] or "__weak_count" in f.types[2]):
        eng.store(st, args[0], eng.load(st, args[1], 8), 8)
        return ret(st)
    if b in ("__shared_count", "__weak_count") and len(args) >= 3 and f.types[2:3] and "__weak_count" in f.types[2]:
        eng.store(st, args[0], eng.load(st, args[1], 8), 8)
        return ret(st)
    return None


def sp_atomic(eng, st, f, args, info):
    b = f.base
    if b in ("atomic_load", "atomic_load_explicit"):
        saved = st.ren
        v = eng.fresh(st, info.cs, (info.i["n"], "sp"), 64, tag="A")
        new = st.ren - saved
        if new:
            args = [subst(a, dict(new), {}) for a in args]
        bb, o = eng.split(args[1])
        T = tmplarg(f.types[1]) if len(f.types) > 1 else ""
        eng.settype(v, 0, T)
        eng.event(st, "sp.load", eng.field(bb, o), args[1], v)
        eng.store(st, args[0], v, 8)
        eng.store(st, eng.padd(args[0], 8), ("s", ("pi", v), 64), 8)
        return ret(st)
    if b in ("atomic_store", "atomic_store_explicit"):
        bb, o = eng.split(args[0])
        v = eng.load(st, args[1], 8)
        eng.event(st, "sp.store", eng.field(bb, o), args[0], v)
        eng.store(st, args[0], v, 8)
        return ret(st)
    if b.startswith("atomic_compare_exchange"):
        bb, o = eng.split(args[0])
        fl = eng.field(bb, o)
        exp = eng.load(st, args[1], 8)
        new = eng.load(st, args[2], 8)
        ok = st.copy()
        eng.event(ok, "sp.cas", fl, args[0], exp, new, 1)
        eng.event(st, "sp.cas", fl, args[0], exp, new, 0)
        saved = st.ren
        v = eng.fresh(st, info.cs, (info.i["n"], "sp"), 64, tag="A")
        nr = st.ren - saved
        if nr:
            args = [subst(a, dict(nr), {}) for a in args]
        eng.settype(v, 0, tmplarg(f.types[1]) if len(f.types) > 1 else "")
        eng.store(st, args[1], v, 8)
        eng.store(st, eng.padd(args[1], 8), ("s", ("pi", v), 64), 8)
        return [Outcome("ret", ok, 1), Outcome("ret", st, 0)]
    if b.startswith("atomic_exchange"):
        return None
    return None


def sp_models():
    return [
        (lambda f: f.ctx in ("std::__shared_count", "std::__weak_count"), sp_count_model),
        (lambda f: f.ctx == "std" and f.base.startswith("atomic_") and len(f.types) > 1 and "std::shared_ptr<" in f.types[1], sp_atomic),
        (lambda f: f.ctx.startswith("std::_Sp_counted") and f.base in ("_M_release", "_M_add_ref_copy", "_M_weak_release", "_M_weak_add_ref", "_M_add_ref_lock", "_M_release_last_use"), m_skip),
        (lambda f: f.ctx == "redGrapes::memory::StdAllocator" and f.base == "allocate", m_new),
        (lambda f: f.ctx == "redGrapes::memory::StdAllocator" and f.base == "deallocate", m_skip),
    ]


# ------------------------------------------------------------------ queues, condition variables
def q_model(eng, st, f, args, info):
    b = f.base
    if b.startswith(("enqueue", "try_enqueue")) and f.ctx == "moodycamel::ConcurrentQueue":
        k = 2 if "token" in f.d.lower() and len(args) > 2 else 1
        v = eng.load(st, args[k], 8) if isinstance(args[k], tuple) else args[k]
        if b.startswith("try"):   # does not allocate, may fail
            s2 = st.copy()
            eng.event(s2, "enq.full", args[0])
            eng.event(st, "enq", args[0], v)
            return [Outcome("ret", st, 1), Outcome("ret", s2, 0)]
        eng.event(st, "enq", args[0], v)
        return ret(st, 1)
    if b.startswith("try_dequeue") and f.ctx == "moodycamel::ConcurrentQueue":
        out = args[-1]
        v = eng.fresh(st, info.cs, info.i["n"], 64, tag="c", typ="redGrapes::Task")
        s2 = st.copy()
        eng.event(st, "deq", args[0], v)
        eng.store(st, out, v, 8)
        st.facts[v] = (1, MASK[64], frozenset())
        eng.event(s2, "deq.empty", args[0])
        return [Outcome("ret", st, 1), Outcome("ret", s2, 0)]
    if f.ctx.startswith("moodycamel"):
        return m_skip(eng, st, f, args, info)
    return None


def cv_model(eng, st, f, args, info):
    b = f.base
    if b.startswith("notify"):
        eng.event(st, "cv.notify", b, args[0])
        return ret(st)
    if b.startswith("wait"):
        return None if (b == "wait_for" or b == "wait") and f.blocks is not None and len(f.blocks) > 1 and False else cv_wait(eng, st, f, args, info)
    return None


def cv_wait(eng, st, f, args, info):
    eng.event(st, "cv.wait", args[0])
    return m_skip(eng, st, f, args, info)


def queue_models():
    return [
        (lambda f: f.d.startswith("moodycamel") or f.ctx.startswith("moodycamel") or "moodycamel::" in f.d.split("(")[0], q_model),
    ]


def fn_model(eng, st, f, args, info):
    """call of a std::function"""
    eng.event(st, "fcall", args[1] if f.args and f.args[0].get("sret") else args[0])
    return m_skip(eng, st, f, args, info)


def vec_push(eng, st, f, args, info):
    """appending to a vector: order is kept in the event trace"""
    T = list_type(f.cls)
    a = f.types[2].rstrip("&* ") if len(f.types) > 2 else None
    if a and T and not f.types[2].endswith("**") and T.startswith("std::reference_wrapper<") and not a.startswith("std::"):
        v = eng.conc(st, args[1])  # constructed from the referenced object
    else:
        v = snapshot(eng, st, args[1], T) if len(args) > 1 else None
    if isinstance(v, tuple) and v and v[0] == "val" and len(v) == 3:
        v = v[2][1]
    eng.event(st, "vec.push", args[0], v)
    return m_skip(eng, st, f, args, info)


def misc_models():
    return [
        (lambda f: f.ctx == "std::function" and f.base == "operator()", fn_model),
        (lambda f: f.ctx == "std::vector" and f.base in ("push_back", "emplace_back"), vec_push),
        (lambda f: f.ctx == "std::vector" and f.base in ("~vector",), m_skip),
    ]


def std_models():
    return misc_models() + lock_models() + list_models() + sp_models() + queue_models() + default_models()


# ------------------------------------------------------------------ cutting calls
def cut_model(spec, bool_result=False, outcomes=None):
    """the call becomes an event; spec: name and for each argument 'v' (value), a type (snapshot of what it points to) or None"""
    name, kinds = spec

    def h(eng, st, f, args, info):
        vals = []
        off = 1 if f.args and f.args[0].get("sret") else 0
        for k, a in zip(kinds, args[off:]):
            if k is None:
                continue
            if k == "v":
                vals.append(eng.conc(st, a))
            else:
                vals.append(snapshot(eng, st, a, k))
        v = None
        if info.i.get("t"):
            saved = st.ren
            v = eng.result(st, info)
            new = st.ren - saved
            if new:
                vals = [subst(x, dict(new), {}) for x in vals]
            vals.append(v)
        eng.event(st, "call", name, *vals)
        if v is not None and f.types and f.types[0][-1:] in ("*", "&"):
            eng.settype(v, 0, f.types[0][:-1])
        return eng.decide(st, info, v)
    return h


EP = "redGrapes::scheduler::EventPtr"


def cuts(*names):
    """models for the named functions; entries of CUT"""
    M = []
    for n in names:
        qual, short, kinds = CUT[n]
        M.append((lambda f, q=qual: f.qual == q, cut_model((short, kinds))))
    return M


CUT = {
    "notify": (EP + "::notify", "notify", [EP, "v"]),
    "add_follower": ("redGrapes::scheduler::Event::add_follower", "add_follower", ["v", EP]),
    "notify_followers": ("redGrapes::scheduler::Event::notify_followers", "notify_followers", ["v"]),
    "free_task": ("redGrapes::TaskSpace::free_task", "free_task", ["v", "v"]),
    "delete_from_resources": ("redGrapes::GraphProperty::delete_from_resources", "delete_from_resources", ["v"]),
    "add_dependency": ("redGrapes::GraphProperty::add_dependency", "add_dependency", ["v", "v"]),
    "init_graph": ("redGrapes::GraphProperty::init_graph", "init_graph", ["v"]),
    "update_graph": ("redGrapes::GraphProperty::update_graph", "update_graph", ["v"]),
    "sg_pause": ("redGrapes::GraphProperty::sg_pause", "sg_pause", ["v", EP]),
    "execute_task": ("redGrapes::Context::execute_task", "execute_task", [None, "v"]),
    "alloc": ("redGrapes::memory::Allocator::allocate", "alloc", ["redGrapes::memory::Allocator", "v"]),
    "dealloc": ("redGrapes::memory::Allocator::deallocate", "dealloc", ["redGrapes::memory::Allocator", "v", "v"]),
    "ru_is_serial": ("redGrapes::ResourceUser::is_serial", "is_serial", ["v", "v"]),
    "ru_is_superset": ("redGrapes::ResourceUser::is_superset", "is_superset", ["v", "v"]),
    "ru_superset_of": ("redGrapes::ResourceUser::is_superset_of", "is_superset", ["v", "v"]),
    "has_sync": ("redGrapes::ResourceUser::has_sync_access", "has_sync", ["v", "redGrapes::Resource"]),
    "wp_ctor": ("redGrapes::dispatch::thread::WorkerPool::WorkerPool", "wp_ctor", ["v"]),
    "wp_emplace": ("redGrapes::dispatch::thread::WorkerPool::emplace_workers", "wp_emplace", ["v", "v"]),
    "wp_start": ("redGrapes::dispatch::thread::WorkerPool::start", "wp_start", ["v"]),
    "wp_stop": ("redGrapes::dispatch::thread::WorkerPool::stop", "wp_stop", ["v"]),
    "make_event": ("redGrapes::GraphProperty::make_event", "make_event", ["v"]),
    "barrier": ("redGrapes::Context::barrier", "barrier", ["v"]),
    "submit": ("redGrapes::TaskSpace::submit", "submit", ["v", "v"]),
    "add_access": ("redGrapes::ResourceUser::add_resource_access", "add_access", ["v", "redGrapes::ResourceAccess"]),
    "yield": ("redGrapes::Context::yield", "yield", ["v", EP]),
    "cv_wait": ("redGrapes::CondVar::wait", "cv_wait", ["v"]),
    "cv_notify": ("redGrapes::CondVar::notify", "cv_notify", ["v"]),
    "set_state": ("redGrapes::dispatch::thread::WorkerPool::set_worker_state", "set_state", ["v", "v", "v"]),
    "gather": ("redGrapes::dispatch::thread::Worker::gather_task", "gather", ["v"]),
    "work_loop": ("redGrapes::dispatch::thread::Worker::work_loop", "work_loop", ["v"]),
    "ra_serial": ("redGrapes::ResourceAccess::is_serial", "ra_serial", ["v", "v"]),
    "ra_superset": ("redGrapes::ResourceAccess::is_superset_of", "ra_superset", ["v", "v"]),
    "ra_sync": ("redGrapes::ResourceAccess::is_synchronizing", "ra_sync", ["v"]),
    "ra_scope": ("redGrapes::ResourceAccess::scope_level", "ra_scope", ["v"]),
    "add_ra": ("redGrapes::ResourceUser::add_resource_access", "add_ra", ["v", "redGrapes::ResourceAccess"]),
    "rm_ra": ("redGrapes::ResourceUser::rm_resource_access", "rm_ra", ["v", "redGrapes::ResourceAccess"]),
    "build_unique": ("redGrapes::ResourceUser::build_unique_resource_list", "build_unique", ["v"]),
    "ru_superset_of": ("redGrapes::ResourceUser::is_superset_of", "ru_superset_of", ["v", "v"]),
    "idle": ("redGrapes::Context::idle", "idle", ["v"]),
    "is_reached": ("redGrapes::scheduler::Event::is_reached", "is_reached", ["v"]),
}


# ------------------------------------------------------------------ boost::context::continuation
def fiber_entry(P, d):
    """the function run by callcc<F>(F&&)"""
    F = d[d.index("callcc<") + 7:]
    r = [g for g in P.fns.values() if g.blocks is not None and g.d.split(") const")[0].rstrip(")").endswith("operator()(boost::context::continuation&&")
         and F.startswith(g.d[:g.d.rindex("::operator()")])]
    return r[0] if r else None


def cont_model(after_switch=None, inline=False):
    """a continuation is one pointer; callcc/resume switch to another stack: after_switch(eng, st, what) says what may have changed meanwhile;
    inline: the function given to callcc runs to its end before callcc returns"""
    def h(eng, st, f, args, info):
        d = f.d
        if "callcc<" in d and inline:
            g = fiber_entry(eng.P, d)
            if g is None:
                raise Unsupported("function of callcc not found: " + d[:200])
            slot, rs = ("o", ("al", info.cs, (info.i["n"], "cc"), 0), 0), ("o", ("al", info.cs, (info.i["n"], "cr"), 0), 0)
            st.mem[slot], st.mem[rs] = {}, {}
            v = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
            st.facts[v] = (1, MASK[64], frozenset())
            eng.event(st, "callcc", v)
            eng.store(st, slot, v, 8)
            outs = eng.call_fn(g, [rs] + [a for a in args[1:]] + [slot], st, eng.csid(info.cs, info.fn.name, (info.i["n"], "fiber")))
            for o in outs:
                if o.kind == "ret":
                    eng.event(o.st, "fiber.return", eng.load(o.st, rs, 8))
                    eng.store(o.st, args[0], 0, 8)
            return outs
        if "callcc<" in d:
            v = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
            st.facts[v] = (1, MASK[64], frozenset())
            eng.event(st, "callcc", tuple(eng.load(st, a, 8) for a in args[1:]), v)
            if after_switch:
                after_switch(eng, st, "callcc")
            eng.store(st, args[0], v, 8)
            return ret(st)
        b = f.base
        if b == "resume":
            old = eng.load(st, args[1], 8)
            v = eng.fresh(st, info.cs, info.i["n"], 64, tag="c")
            eng.event(st, "resume", old, v)
            eng.store(st, args[1], 0, 8)
            if after_switch:
                after_switch(eng, st, "resume")
            eng.store(st, args[0], v, 8)
            return ret(st)
        if b == "continuation":
            if len(args) == 1:
                eng.store(st, args[0], 0, 8)
            else:
                v = eng.load(st, args[1], 8)
                eng.store(st, args[1], 0, 8)
                eng.store(st, args[0], v, 8)
            return ret(st)
        if b == "operator=":
            v = eng.load(st, args[1], 8)
            old = eng.load(st, args[0], 8)
            if eng.conc(st, old) != 0:
                eng.event(st, "cont.destroy", old)
            eng.store(st, args[1], 0, 8)
            eng.store(st, args[0], v, 8)
            return ret(st, args[0])
        if b.startswith("~"):
            v = eng.load(st, args[0], 8)
            if eng.conc(st, v) != 0:
                eng.event(st, "cont.destroy", v)
            return ret(st)
        if b == "swap" and len(args) == 2:
            x, y = eng.load(st, args[0], 8), eng.load(st, args[1], 8)
            eng.store(st, args[0], y, 8)
            eng.store(st, args[1], x, 8)
            return ret(st)
        if b == "operator bool":
            return ret(st, eng.lnot(eng.cmp(st, "eq", 64, eng.load(st, args[0], 8), 0)))
        return None
    return [(lambda f: f.d.startswith("boost::context") or "boost::context::callcc<" in f.d.split("(")[0] or f.ctx == "boost::context::continuation", h)]
