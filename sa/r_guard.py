"""Guards: what they declare and what they give access to."""
import concurrent.futures, itertools, os, re, shutil, subprocess, tempfile
from lib import *
from r_access import ev, consistent, Unknown, Area, MODES, Io

RACC = "redGrapes::ResourceAccess"
RB = "redGrapes::ResourceBase"
GUARD = {"Arr": ("std::array<int, 8", 1), "Arr2": ("std::array<std::array<int", 2), "Vec": ("std::vector<int", 1)}


def probe(c, name, cont):
    pre = {"Arr": "drv::FieldProbe<std::array<int, 8", "Arr2": "drv::FieldProbe<std::array<std::array<int", "Vec": "drv::FieldProbe<std::vector<int"}[cont]
    r = [f for f in c.fns("drv::FieldProbe::" + name) if f.d.startswith(pre)]
    if not r:
        raise Missing("FieldProbe %s %s" % (name, cont))
    return r[0]


def gtype(f, i):
    return f.types[i].rstrip("&")


def boff(c, T, *ms):
    """offset of a member which may be inherited"""
    return c.off(T, *ms)


def mk_guard(c, eng, st, name, T):
    """guard with unknown resource, object and area"""
    g = argp(eng, st, name, T)
    base = argp(eng, st, name + ".base", RB)
    ob = argp(eng, st, name + ".obj")
    setm(eng, st, g, boff(c, T, "base", "_M_ptr"), base)
    setm(eng, st, g, boff(c, T, "obj", "_M_ptr"), ob)
    return g, base, ob


def area_off(c, T):
    return boff(c, T, "m_area")


def access_parts(c, eng, st, p):
    """(resource, address of the policy) of the access stored at p"""
    o = eng.load(st, eng.ptr(p, c.off(RACC, "obj", "_M_ptr")), 8)
    return eng.load(st, eng.ptr(o, c.off(RACC + "::AccessBase", "resource", "_M_ptr")), 8), eng.ptr(o, c.P.types[RACC + "::AccessBase"]["size"])


def policy_off(c, P):
    A = "redGrapes::Resource<%s>::Access" % P
    return c.off(A, "policy")


@rule("guard.io_access", "C15 C11", minimum=3,
      text="a read guard declares a read access to its resource, a write guard and the resource itself a write access; the access carries the type of its policy")
def r_io(c):
    io = Io(c)
    P = "redGrapes::access::IOAccess"
    for name, mode in (("io_read_access", "read"), ("io_write_access", "write"), ("io_res_access", "write")):
        f = c.drv(name)
        T = gtype(f, 1)
        eng = c.engine()
        st0 = State()
        g, base, ob = mk_guard(c, eng, st0, "guard", T)
        p = obj(st0, "access")
        outs = normal(eng.run(f, [p, g], st0))
        c.absorb(eng)
        c.instance(name)
        w = "redGrapes/resource/ioresource.hpp"
        c.need(len(outs) > 0, name + " does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s: %s" % (T, msg), w, eng, st)
            oo = eng.load(st, eng.ptr(p, c.off(RACC, "obj", "_M_ptr")), 8)
            r, _ = access_parts(c, eng, st, p)
            need(same(eng, st, r, base), "declares an access to another resource")
            m = eng.conc(st, eng.load(st, eng.ptr(oo, policy_off(c, P)), 4))
            need(m == io.m[mode], "declares a %s access, expected %s" % (dict((v, k) for k, v in io.m.items()).get(m, m), mode))


@rule("guard.field_access", "C15 C11", minimum=6,
      text="guards of a field declare an access to exactly their area of their resource, reading for read guards, writing for write guards")
def r_field(c):
    io = Io(c)
    for name, mode in (("read_access", "read"), ("write_access", "write")):
        for cont, (_, dim) in GUARD.items():
            f = probe(c, name, cont)
            T = gtype(f, 1)
            eng = c.engine()
            st0 = State()
            g, base, ob = mk_guard(c, eng, st0, "guard", T)
            ao = area_off(c, T)
            bounds = []
            for k in range(2 * dim):
                v = sym(("arg", "bound%d" % k))
                setm(eng, st0, g, ao + 8 * k, v)
                bounds.append(v)
            p = obj(st0, "access")
            outs = normal(eng.run(f, [p, g], st0))
            c.absorb(eng)
            c.instance("%s %s" % (name, cont))
            w = "redGrapes/resource/fieldresource.hpp"
            c.need(len(outs) > 0, name + " does not return", w)
            A = [t for t in c.P.types if t.startswith("redGrapes::Resource<redGrapes::access::CombineAccess<redGrapes::access::IOAccess") and t.endswith("::Access")
                 and ("%dul" % dim) in t]
            if not A:
                raise Missing("access type of fields")
            po = c.off(A[0], "policy")
            for o in outs:
                st = o.st
                need = lambda cond, msg: c.need(cond, "%s: %s" % (T[:90], msg), w, eng, st)
                oo = eng.load(st, eng.ptr(p, c.off(RACC, "obj", "_M_ptr")), 8)
                r, _ = access_parts(c, eng, st, p)
                need(same(eng, st, r, base), "declares an access to another resource")
                m = eng.conc(st, eng.load(st, eng.ptr(oo, po), 4))
                need(m == io.m[mode], "declares a %s access, expected %s" % (dict((v, k) for k, v in io.m.items()).get(m, m), mode))
                for k in range(2 * dim):
                    need(same(eng, st, eng.load(st, eng.ptr(oo, po + 8 + 8 * k), 8), bounds[k]), "declares another area than its own")


@rule("guard.copy", "C15 C21", minimum=4,
      text="copies of resources and guards (read(), write(), plain copies) belong to the same resource and object and keep the area")
def r_copy(c):
    todo = [(c.drv(n), 1) for n in ("io_read", "io_write", "io_copy", "field_copy")]
    for cont in GUARD:
        todo += [(probe(c, n, cont), 1) for n in ("read", "write")]
    for f, gi in todo:
        if f.types[0] == "void":
            gi = 2
        T = gtype(f, gi)
        R = f.types[0] if f.types[0] != "void" else None
        eng = c.engine()
        st0 = State()
        g, base, ob = mk_guard(c, eng, st0, "guard", T)
        area = "fieldresource" in T
        bounds = []
        if area:
            dim = 2 if "std::array<std::array" in T else 1
            for k in range(2 * dim):
                v = sym(("arg", "bound%d" % k))
                setm(eng, st0, g, area_off(c, T) + 8 * k, v)
                bounds.append(v)
        p = obj(st0, "copy")
        outs = normal(eng.run(f, [p, g], st0))
        c.absorb(eng)
        c.instance(f.qual)
        RT = R or ("redGrapes::ioresource::WriteGuard<int>" if not area else T)
        w = "redGrapes/resource/%sresource.hpp" % ("field" if area else "io")
        c.need(len(outs) > 0, f.qual + " does not return", w)
        for o in outs:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s: %s" % (RT[:90], msg), w, eng, st)
            need(same(eng, st, eng.load(st, eng.ptr(p, boff(c, RT, "base", "_M_ptr")), 8), base), "the copy denotes another resource")
            need(same(eng, st, eng.load(st, eng.ptr(p, boff(c, RT, "obj", "_M_ptr")), 8), ob), "the copy denotes another object")
            for k, v in enumerate(bounds):
                need(same(eng, st, eng.load(st, eng.ptr(p, area_off(c, RT) + 8 * k), 8), v), "the copy has another area")


INTERVALS = [(0, MASK[64]), (2, 6), (4, 5)]
INNER = [(2, 6), (3, 5), (2, 5), (3, 6), (1, 6), (2, 7), (0, 3), (5, 9), (7, 9), (4, 5), (6, 7), (0, 1)]


def outcomes(c, f, args, st0, eng):
    base = dict(st0.facts)
    outs = eng.run(f, args, st0.copy())
    c.absorb(eng)
    return [([(t, x) for t, x in sorted(o.st.facts.items(), key=lambda k: depth(k[0])) if t not in base or base[t] != x], o) for o in outs]


def take(ps, env, what):
    try:
        return [o for cond, o in ps if consistent(cond, env)]
    except Unknown as e:
        raise Missing("%s: depends on something unknown: %s" % (what, e))


@rule("guard.area", "C15 C11", minimum=6,
      text="area(begin, end) and at(pos) give a guard for exactly that area of the same resource; what does not lie in the own area is refused by an exception")
def r_area(c):
    w = "redGrapes/resource/fieldresource.hpp"
    for name in ("read_area", "write_area", "read_at", "write_at"):
        at = name.endswith("_at")
        for cont, (_, dim) in GUARD.items():
            f = probe(c, name, cont)
            T, R = gtype(f, 1), f.types[0]
            eng = c.engine()
            st0 = State()
            g, base, ob = mk_guard(c, eng, st0, "guard", T)
            ao = area_off(c, T)
            for k in range(2 * dim):
                setm(eng, st0, g, ao + 8 * k, sym(("arg", "m%d" % k)))
            n = dim * (1 if at else 2)
            xs = [sym(("arg", "i%d" % k)) for k in range(n)]
            if len(f.args) == 2 + (1 if at else 2) and dim > 1:
                raise Missing("indices are not passed as values")
            p = obj(st0, "sub")
            ps = outcomes(c, f, [p, g] + xs, st0, eng)
            c.instance("%s %s" % (name, cont))
            mine = True
            for cond, o in ps:
                if o.kind == "ret":
                    st = o.st
                    mine &= (same(eng, st, eng.load(st, eng.ptr(p, boff(c, R, "base", "_M_ptr")), 8), base) and
                             same(eng, st, eng.load(st, eng.ptr(p, boff(c, R, "obj", "_M_ptr")), 8), ob))
            c.need(mine, "%s: the guard belongs to another resource" % name, w)
            if not mine:
                continue
            for own in itertools.product(INTERVALS, repeat=dim):
                for sub in itertools.product(INNER, repeat=dim):
                    if at and any(b != a + 1 for a, b in sub) and any(a not in (0, 2, 3, 5) for a, b in sub):
                        continue
                    if at:
                        sub = tuple((a, a + 1) for a, b in sub)
                    env = {}
                    for d in range(dim):
                        env[sym(("arg", "m%d" % (2 * d)))], env[sym(("arg", "m%d" % (2 * d + 1)))] = own[d]
                        env[xs[d]] = sub[d][0]
                        if not at:
                            env[xs[dim + d]] = sub[d][1]
                    ok = all(own[d][0] <= sub[d][0] and sub[d][1] <= own[d][1] for d in range(dim))
                    cell = "%s of %s in %s" % (name, list(sub), list(own))
                    os = take(ps, env, name)
                    good = len(os) > 0 and all(o.kind == ("ret" if ok else "throw") for o in os)
                    c.need(good, "%s: %s" % (cell, "is refused" if ok else "is not refused"), w)
                    if not ok or not good:
                        continue
                    for o in os:
                        st = o.st
                        got = []
                        for d in range(dim):
                            for e in range(2):
                                try:
                                    got.append(ev(eng.load(st, eng.ptr(p, area_off(c, R) + 16 * d + 8 * e), 8), env))
                                except (Unknown, TypeError, KeyError):
                                    got.append(None)
                        c.need(got == [b for s in sub for b in s], "%s: the guard covers %s" % (cell, got), w)


@rule("guard.element", "C15", minimum=6,
      text="an element is accessible exactly if its index lies in the area of the guard, in every dimension; the index selects that element")
def r_elem(c):
    w = "redGrapes/resource/fieldresource.hpp"
    for name in ("contains", "read_elem", "write_elem"):
        for cont, (_, dim) in GUARD.items():
            f = probe(c, name, cont)
            T = gtype(f, 1)
            eng = c.engine()
            st0 = State()
            g, base, ob = mk_guard(c, eng, st0, "guard", T)
            ao = area_off(c, T)
            for k in range(2 * dim):
                setm(eng, st0, g, ao + 8 * k, sym(("arg", "m%d" % k)))
            xs = [sym(("arg", "i%d" % k)) for k in range(dim)]
            first = ob
            if cont == "Vec":
                first = argp(eng, st0, "data")
                setm(eng, st0, ob, 0, first)
            ps = outcomes(c, f, [g] + xs, st0, eng)
            c.instance("%s %s" % (name, cont))
            for own in itertools.product(INTERVALS + [(5, 5)], repeat=dim):
                for idx in itertools.product((0, 1, 2, 3, 4, 5, 6, 7), repeat=dim):
                    env = {}
                    for d in range(dim):
                        env[sym(("arg", "m%d" % (2 * d)))], env[sym(("arg", "m%d" % (2 * d + 1)))] = own[d]
                        env[xs[d]] = idx[d]
                    ok = all(own[d][0] <= idx[d] < own[d][1] for d in range(dim))
                    cell = "%s of %s in area %s" % (name, list(idx), list(own))
                    os = take(ps, env, name)
                    if name == "contains":
                        try:
                            c.need(os and all(o.kind == "ret" and ev(o.val, env) & 1 == ok for o in os), cell + " is wrong", w)
                        except Unknown as e:
                            raise Missing("contains: depends on %s" % (e,))
                        continue
                    good = len(os) > 0 and all(o.kind == ("ret" if ok else "throw") for o in os)
                    c.need(good, "%s: %s" % (cell, "is refused" if ok else "is not refused"), w)
                    if ok and good:
                        for o in os:
                            b, off = eng.split(o.val)
                            try:
                                off = off if isint(off) else ev(off, env)
                            except Unknown as e:
                                raise Missing("element address: depends on %s" % (e,))
                            inner = 4
                            if dim == 2:
                                m = re.search(r"std::array<std::array<int, (\d+)", T)
                                inner = int(m.group(1)) * 4
                            want = idx[0] * 4 + (idx[1] * inner if dim == 2 else 0)
                            c.need(b == first and off == want, cell + ": another element is given", w)


@rule("guard.new", "C15 C21 C11", minimum=4, text="a new field resource covers everything; a new resource denotes a resource and an object of its own")
def r_new(c):
    for f, T in [(probe(c, "make", k), None) for k in GUARD] + [(c.drv(n), "redGrapes::IOResource<int>") for n in ("io_new", "io_adopt")]:
        T = T or "redGrapes::FieldResource" + f.d[len("drv::FieldProbe"):f.d.index("::make(")]
        if T not in c.P.types:
            T = "redGrapes::fieldresource::WriteGuard" + T[len("redGrapes::FieldResource"):]
        eng = c.engine()
        st0 = State()
        p = obj(st0, "new")
        args, given = [p], None
        if "io_adopt" in f.d:
            given = argp(eng, st0, "object")
            args.append(obj(st0, "handle"))
            setm(eng, st0, args[1], 0, given)
        elif "FieldProbe" in f.d:
            given = argp(eng, st0, "object")
            args.append(given)
        outs = normal(eng.run(f, args, st0))
        c.absorb(eng)
        c.instance(f.qual + " " + T[:60])
        w = "redGrapes/resource/resource.hpp"
        c.need(len(outs) > 0, "can not be created", w)
        for o in outs[:8]:
            st = o.st
            need = lambda cond, msg: c.need(cond, "%s: %s" % (T[:80], msg), w, eng, st)
            base = eng.load(st, eng.ptr(p, boff(c, T, "base", "_M_ptr")), 8)
            fresh = {e[-1] for e in st.trace if e[0] == "new"} | {e[1] for e in st.trace if e[0] == "new"}
            need(eng.split(base)[0] in fresh, "the resource is not a new one")
            own = eng.load(st, eng.ptr(p, boff(c, T, "obj", "_M_ptr")), 8)
            if given is not None:
                need(same(eng, st, own, given), "it does not denote the object it is given")
            else:
                need(eng.split(own)[0] in fresh, "it shares its object")
            ids = eng.load(st, eng.ptr(base, c.off(RB, "id")), 4, w=32)
            need(ticket(eng, st, ids, 32) is not None, "the id is not a number of its own which was taken atomically from a counter of at least 32 bits")
            if "field" in T or "Field" in T:
                dim = 2 if "std::array<std::array" in T else 1
                got = [eng.conc(st, eng.load(st, eng.ptr(p, area_off(c, T) + 8 * k), 8)) for k in range(2 * dim)]
                need(got == [0, MASK[64]] * dim, "a new guard does not cover everything")


WITNESS = r"""
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <array>
#include <type_traits>
#include <utility>
#include <vector>
namespace rg = redGrapes;
template<typename A, typename = void> struct HasSet : std::false_type {};
struct S { int x; void mut(); int look() const; };
template<typename T> using deref_t = decltype(*std::declval<T>());
template<typename T> using arrow_t = decltype(std::declval<T>().operator->());
template<typename T> using get_t = decltype(std::declval<T>().get());
template<typename T, typename I> using index_t = decltype(std::declval<T>()[std::declval<I>()]);
template<typename T, typename = void> struct CanWrite : std::false_type {};
template<typename T> struct CanWrite<T, std::void_t<decltype(std::declval<T>().write())>> : std::true_type {};
template<typename T, typename = void> struct CanMut : std::false_type {};
template<typename T> struct CanMut<T, std::void_t<decltype(std::declval<T>()->mut())>> : std::true_type {};
template<typename T, typename = void> struct CanLook : std::false_type {};
template<typename T> struct CanLook<T, std::void_t<decltype(std::declval<T>()->look())>> : std::true_type {};
template<typename T, typename U> constexpr bool constto = std::is_same_v<T, U const&> || std::is_same_v<T, U const*> || std::is_same_v<T, U>;
template<typename T> constexpr bool ro = std::is_const_v<std::remove_pointer_t<std::remove_reference_t<T>>>;
#define W(id, ...) static_assert((__VA_ARGS__), "W:" #id)
using IR = rg::ioresource::ReadGuard<S>;
using IW = rg::ioresource::WriteGuard<S>;
using IO = rg::IOResource<S>;
W(io_read_deref_is_const, ro<deref_t<IR const&>> && ro<deref_t<IR&>> && ro<deref_t<IR&&>>);
W(io_read_arrow_is_const, ro<arrow_t<IR const&>> && ro<arrow_t<IR&>> && ro<arrow_t<IR&&>>);
W(io_read_get_is_const, ro<get_t<IR const&>> && ro<get_t<IR&>> && ro<get_t<IR&&>>);
W(io_read_no_mutating_member, !CanMut<IR&>::value && !CanMut<IR const&>::value && CanLook<IR const&>::value);
W(io_write_deref_is_mutable, !ro<deref_t<IW const&>> && !ro<deref_t<IW&>> && CanMut<IW const&>::value);
W(io_read_has_no_write, !CanWrite<IR&>::value && !CanWrite<IR const&>::value && CanWrite<IW const&>::value);
W(io_read_is_not_convertible_to_write, !std::is_convertible_v<IR, IW> && !std::is_constructible_v<IW, IR> && !std::is_constructible_v<IW, IR&> && !std::is_constructible_v<IW, IR const&>);
W(io_read_is_not_assignable_to_write, !std::is_assignable_v<IW&, IR> && !std::is_assignable_v<IW&, IR const&>);
W(io_write_is_convertible_to_read, std::is_convertible_v<IW, IR> && std::is_convertible_v<IO, IR> && std::is_convertible_v<IO, IW>);
W(io_read_of_write_is_read, std::is_same_v<decltype(std::declval<IW const&>().read()), IR> && std::is_same_v<decltype(std::declval<IR const&>().read()), IR>);
W(io_guards_are_accesses, std::is_convertible_v<IR, rg::ResourceAccess> && std::is_convertible_v<IW, rg::ResourceAccess>);
W(io_guard_not_from_object, !std::is_constructible_v<IR, std::shared_ptr<S>> && !std::is_constructible_v<IW, std::shared_ptr<S>>);
template<typename C> struct F
{
    using R = rg::fieldresource::ReadGuard<C>;
    using Wr = rg::fieldresource::WriteGuard<C>;
    using I = typename R::Index;
    W(field_read_element_is_const, ro<index_t<R const&, I>> && ro<index_t<R&, I>>);
    W(field_read_arrow_is_const, ro<arrow_t<R const&>> && ro<arrow_t<R&>>);
    W(field_write_element_is_mutable, !ro<index_t<Wr const&, I>>);
    W(field_read_has_no_write, !CanWrite<R&>::value && !CanWrite<R const&>::value && CanWrite<Wr const&>::value);
    W(field_read_is_not_convertible_to_write, !std::is_convertible_v<R, Wr> && !std::is_constructible_v<Wr, R> && !std::is_constructible_v<Wr, R const&> && !std::is_constructible_v<Wr, R&>);
    W(field_read_is_not_assignable_to_write, !std::is_assignable_v<Wr&, R> && !std::is_assignable_v<Wr&, R const&>);
    W(field_write_is_convertible_to_read, std::is_convertible_v<Wr, R>);
    W(field_area_of_read_is_read, std::is_same_v<decltype(std::declval<R const&>().area(std::declval<I>(), std::declval<I>())), R> && std::is_same_v<decltype(std::declval<R const&>().at(std::declval<I>())), R>);
    W(field_read_of_write_is_read, std::is_same_v<decltype(std::declval<Wr const&>().read()), R>);
    W(field_guard_not_from_object, !std::is_constructible_v<R, std::shared_ptr<C>> && !std::is_constructible_v<Wr, std::shared_ptr<C>>);
    W(field_area_not_by_constructor, !std::is_constructible_v<R, R const&, I, I> && !std::is_constructible_v<Wr, Wr const&, I, I> && !std::is_constructible_v<Wr, R const&, I, I>);
    W(field_guards_are_accesses, std::is_convertible_v<R, rg::ResourceAccess> && std::is_convertible_v<Wr, rg::ResourceAccess>);
};
template struct F<std::vector<int>>;
template struct F<std::array<int, 8>>;
template struct F<std::array<std::array<int, 4>, 5>>;
// positive control: the rules are able to fail
#ifdef CONTROL
W(control, ro<deref_t<IW&>>);
#endif
"""


def parse(c, text, extra=()):
    d = tempfile.mkdtemp(prefix="rgw.")
    try:
        p = os.path.join(d, "w.cpp")
        open(p, "w").write(text)
        r = subprocess.run([LLVM + "/clang++", "-std=c++17", "-fsyntax-only", "-ferror-limit=0", "-Wno-everything"] + include_flags() + list(extra) + [p],
                           capture_output=True, text=True)
        return r.returncode, r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


@rule("guard.types", "C15", minimum=20,
      text="programs which write through a read guard, turn a read guard into a write guard, or make a guard out of nothing are rejected by the compiler")
def r_types(c):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a, b = ex.map(lambda x: parse(c, WITNESS, x), [(), ("-DCONTROL",)])
    rc, err = a
    ids = re.findall(r"^\s*W\((\w+),", WITNESS, re.M)
    bad = set(re.findall(r"error: static assertion failed[^\n]*W:(\w+)", err))
    other = [l for l in err.splitlines() if " error: " in l and "static assertion failed" not in l]
    if other:
        raise Missing("the witness program can not be parsed: " + other[0][:200])
    ctl = set(re.findall(r"error: static assertion failed[^\n]*W:(\w+)", b[1]))
    if "control" not in ctl:
        raise Broken("the positive control does not fail")
    for i in ids:
        if i == "control":
            continue
        c.need(i not in bad, "guards: %s does not hold" % i.replace("_", " "), "redGrapes/resource/%sresource.hpp" % ("field" if i.startswith("field") else "io"))
        c.instance(i)
