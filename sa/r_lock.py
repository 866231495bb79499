"""Locks: released on every path, never taken twice, always in one order, never held while waiting."""
from lib import *
from engine import shortcls
from models import m_skip

PRIM = ("redGrapes::SpinLock", "std::mutex", "std::shared_mutex", "std::recursive_mutex", "redGrapes::RWSpinLock",
        "std::timed_mutex", "std::shared_timed_mutex", "std::recursive_timed_mutex")
OPS = ("lock", "unlock", "lock_shared", "unlock_shared", "try_lock", "try_lock_shared")
SMALL = 120   # instructions


def is_prim(f):
    return f.ctx in PRIM and f.base in OPS


def waits(f):
    return (f.ctx.startswith("std::condition_variable") or f.ctx.startswith("std::_V2::condition_variable_any")) and f.base.startswith("wait") \
        or f.d.startswith("boost::context::continuation::resume") or "boost::context::callcc<" in f.d \
        or f.qual == "std::thread::join" or f.qual.startswith("std::this_thread::sleep")


def own(f):
    """function of redGrapes (not a library template instantiated for it, not the driver)"""
    return f.qual.startswith("redGrapes::")


class Graph:
    """direct, virtual and referenced callees of each function"""

    def __init__(self, P):
        self.P = P
        self.callees, self.size, self.ind = {}, {}, {}
        impl = {}
        for t in P.types:
            for k, (cls, m) in P.vslots(t).items():
                if m.endswith("()delete"):
                    fs = [f for f in P.byqual.get("%s::%s" % (notmpl_(cls), m[:-8]), [])]
                else:
                    fs = P.byqual.get("%s::%s" % (notmpl_(cls), m), [])
                for f in fs:
                    impl.setdefault(k, set()).add(f.name)
        for f in P.fns.values():
            if f.blocks is None:
                continue
            cs, n = set(), 0
            de = {}
            unk = 0
            for b in f.blocks:
                for i in b:
                    n += 1
                    de[i["n"]] = i
            for b in f.blocks:
                for i in b:
                    if i["o"] not in ("call", "invoke"):
                        continue
                    k = i["c"]
                    if k[0] == "f":
                        cs.add(k[1])
                        for a in i["a"]:
                            # a function handed over is taken to be called
                            if a[0] == "f":
                                cs.add(a[1])
                    elif k[0] == "v":
                        s = self.slot(de, k[1])
                        if s is None or not own(f):
                            unk += 1
                            continue
                        rt = i.get("t")
                        for g in impl.get(s, ()):
                            gf = P.fns[g]
                            if gf.blocks is not None and len(gf.args) == len(i["a"]) and own(gf) and (not gf.types or (gf.types[0] == "void") == (rt is None)):
                                cs.add(g)
            self.callees[f.name] = cs
            self.size[f.name] = n
            self.ind[f.name] = unk

    def slot(self, de, v):
        i = de.get(v)
        if not i or i["o"] != "load" or i["a"][0][0] != "v":
            return None
        j = de.get(i["a"][0][1])
        off = 0
        if j and j["o"] == "getelementptr" and not j.get("var") and j["a"][0][0] == "v":
            off = j["off"]
            j = de.get(j["a"][0][1])
        if not j or j["o"] != "load":
            return None
        return off // 8

    def reach(self, start, stop=None):
        seen, todo = {start}, [start]
        while todo:
            x = todo.pop()
            for y in self.callees.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    if stop is None or not stop(self.P.fns.get(y)):
                        todo.append(y)
        return seen


def notmpl_(s):
    from load import notmpl
    return notmpl(s)


def graph(c):
    if "callgraph" not in c.cache:
        c.cache["callgraph"] = Graph(c.P)
    return c.cache["callgraph"]


class Locks:
    """per function: locks taken (transitively), edges between lock classes"""

    def __init__(self, c):
        self.c, self.P = c, c.P
        G = self.G = graph(c)
        P = c.P
        prim = {f.name for f in P.fns.values() if is_prim(f)}
        wait = {f.name for f in P.fns.values() if waits(f)}
        # reaches: transitive closure backwards
        rev = {}
        for a, s in G.callees.items():
            for b in s:
                rev.setdefault(b, set()).add(a)
        self.rev = rev

        def back(s):
            seen, todo = set(s), list(s)
            while todo:
                for y in rev.get(todo.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            return seen
        self.locking = back(prim)
        self.waiting = back(wait)
        throws = {n for n, s in G.callees.items() if "__cxa_throw" in s and own(P.fns[n]) and not P.fns[n].qual.startswith(("redGrapes::memory::", "redGrapes::ChunkedList", "redGrapes::scheduler::EventPtr"))}
        self.throwing = back(throws)
        # lock functions: an own function which reaches a primitive through library functions only
        self.roots = set()
        todo, seen = list(prim), set(prim)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y in seen:
                    continue
                f = P.fns[y]
                if own(f):
                    self.roots.add(y)
                elif f.ctx.startswith(("std", "__gnu", "boost")):
                    seen.add(y)
                    todo.append(y)
        self.roots -= {n for n in self.roots if P.fns[n].ctx in PRIM}
        self.inline = set()
        self.direct = {}
        self.calls = {}      # (lock class, callee) -> where
        self.edges = {}      # (a, b) -> where

    def small(self, n):
        k = ("small", n)
        if k in self.c.cache:
            return self.c.cache[k]
        self.c.cache[k] = False
        r = n not in self.locking and n not in self.waiting and self.P.fns[n].blocks is not None
        if r:
            s = self.G.reach(n)
            r = sum(self.G.size.get(x, 0) for x in s) <= SMALL and not any(self.G.ind.get(x) or x == "__cxa_throw" for x in s)
        self.c.cache[k] = r
        return r

    def cut(self, f):
        n = f.name
        return f.blocks is not None and own(f) and f.ctx not in PRIM and n not in self.inline and not self.small(n)

    def skip(self, f):
        """library function which has nothing to do with locks"""
        n = f.name
        if f.blocks is None or own(f) or f.qual.startswith("drv::") or n in self.locking or n in self.waiting:
            return False
        return f.ctx in ("std::vector", "std::basic_string") or not self.small(n)

    def model(self, eng, st, f, args, info):
        h = held(st, len(st.trace))
        eng.event(st, "cutcall", f.name, info.where, tuple(self.cls(eng, x) for x in h))
        for a in args:
            # a local variable of the caller given by reference may have been changed
            b, o = eng.split(a) if isinstance(a, tuple) else (None, None)
            if isinstance(b, tuple) and b[0] == "o" and isinstance(b[1], tuple) and b[1][0] == "al" and b in st.mem:
                st.mem[b] = {k: (v[0], UNDEF) if isint(v[1]) and not self.lockish(eng, b, k) else v for k, v in st.mem[b].items()}
        outs = []
        if h and f.name in self.throwing and not info.i.get("nt"):
            outs.append(Outcome("throw", st.copy(), ("k", "thrown")))
        v = None
        if info.i.get("t"):
            v = eng.result(st, info)
            if f.types and f.types[0][-1:] in ("*", "&"):
                eng.settype(v, 0, f.types[0][:-1])
        return [Outcome("ret", st, v)] + outs

    def lockish(self, eng, b, k):
        t = eng.typeat(b, k)
        return bool(t) and ("lock" in t[0].lower() or "guard" in t[0].lower())

    # ---- classes of locks
    def cls(self, eng, p):
        """'Class.member' of a lock, None for a lock given as a parameter"""
        b, o = eng.split(p)
        for cl, n, mt, oo in eng.fieldpath(b, o):
            if mt in PRIM:
                return "%s.%s" % (shortcls(cl), n)
        if isinstance(b, tuple) and b[0] == "g":
            return str(b[1])
        return None

    def m_lock(self, eng, st, f, args, info):
        k, h = self.cls(eng, args[0]), held(st, len(st.trace))
        if f.base.startswith("try_"):
            s2 = st.copy()
            self.take(eng, st, args[0], k, h)
            return [Outcome("ret", st, 1), Outcome("ret", s2, 0)]
        if f.base.startswith("lock"):
            self.take(eng, st, args[0], k, h)
        elif args[0] in h:
            # forget the pair
            i = max(j for j, e in enumerate(st.trace) if e[0] == "lock" and e[1] == args[0])
            st.trace = st.trace[:i] + st.trace[i + 1:]
        else:
            eng.event(st, "release", args[0], k)
        return [Outcome("ret", st, None)]

    def m_cv(self, eng, st, f, args, info):
        h = held(st, len(st.trace))
        eng.event(st, "cv.wait", args[0], tuple(self.cls(eng, x) for x in h))
        return m_skip(eng, st, f, args, info)

    def take(self, eng, st, a, k, h):
        if a in h:
            eng.event(st, "again", k)
        eng.event(st, "acq", k, tuple(self.cls(eng, x) for x in h))
        st.trace = st.trace + (("lock", a),)

    def run(self, f):
        c = self.c
        self.cur = f.name
        eng = c.engine(models=[(is_prim, self.m_lock), (lambda g: waits(g) and not g.ctx.startswith("std::condition"), self.model), (self.cut, self.model),
                                  (lambda g: g.ctx.startswith("std::condition_variable") and g.base.startswith("wait"), self.m_cv),
                                  (self.skip, m_skip)], max_states=20000)
        eng.cfg.all_atomics = False
        eng.cfg.keep = lambda eng_, e: e[0] in ("acq", "again", "release", "cutcall", "cv.wait")
        st = State()
        args = []
        for k, a in enumerate(f.args):
            nm = "a%d" % k
            if a["t"][0] == "p":
                args.append(argp(eng, st, nm))
            elif a["t"][0] == "i":
                args.append(argi(eng, st, nm, a["t"][1]))
            else:
                args.append(sym(("arg", nm), 64))
        outs = eng.run(f, args, st)
        c.absorb(eng)
        return eng, outs

    def handed(self, eng, st, a):
        """lock a belongs to a guard object which outlives the function"""
        for b, cells in st.mem.items():
            if isinstance(b, tuple) and b[0] == "o" and isinstance(b[1], tuple) and b[1][0] == "al":
                continue
            for k, (sz, v) in cells.items():
                if v == a and sz == 8:
                    return True
        return False

    def solve(self):
        c, P, G = self.c, self.P, self.G
        self.results = {}
        depth = {}

        def dep(n):
            # callees come first
            if n not in depth:
                depth[n] = len(G.reach(n))
            return (depth[n], n)
        todo = sorted(self.roots, key=dep)
        rounds = 0
        while todo:
            rounds += 1
            n = todo.pop(0)
            f = P.fns[n]
            eng, outs = self.run(f)
            param = shift = False
            net = set()
            problems = []
            acq, edges, calls = {}, [], []
            for o in outs:
                st = o.st
                h = held(st, len(st.trace))
                for e in st.trace:
                    if e[0] == "acq":
                        if e[1] is None:
                            param = True
                        acq[e[1]] = st
                        for x in e[2]:
                            edges.append((x, e[1], st))
                    elif e[0] == "again":
                        problems.append(("takes a lock it already holds (%s)" % e[1], st))
                    elif e[0] == "release":
                        shift = True
                        net.add(("-", e[1]))
                    elif e[0] == "cutcall":
                        for x in e[3]:
                            calls.append((x, e[1], e[2], st))
                    elif e[0] == "cv.wait" and len(e[2]) > 1:
                        problems.append(("waits while it holds several locks", st))
                if h:
                    if all(self.handed(eng, st, x) for x in h):
                        shift = True
                    else:
                        shift = shift or "leak"
                        net.add(("+",) + tuple(h))
                        problems.append(("a lock (%s) is not released on a path out of the function" % ", ".join(str(self.cls(eng, x)) for x in h), st))
                else:
                    net.add(())
            self.results[n] = (eng, outs, problems, acq, edges, calls)
            callers = {y for y in self.owncallers(n)}
            helper = param or shift is True or (shift == "leak" and len(net) == 1 and not any(e[0] == "cutcall" for o in outs for e in o.st.trace)
                                                and G.size[n] <= SMALL and callers)
            if helper and callers and n not in self.inline:
                self.inline.add(n)
                for y in callers:
                    if y not in self.roots:
                        self.roots.add(y)
                    self.inline.discard(y)
                    if y not in todo:
                        todo.append(y)
                todo.sort(key=dep)
            if rounds > 200:
                raise Unsupported("too many functions with locks")

    def owncallers(self, n):
        seen, todo, r = {n}, [n], set()
        while todo:
            for y in self.rev.get(todo.pop(), ()):
                if y in seen:
                    continue
                seen.add(y)
                f = self.P.fns[y]
                if own(f):
                    r.add(y)
                elif not f.qual.startswith("drv::"):
                    todo.append(y)
        return r


@rule("lock.order", "C27 C03", minimum=6,
      text="every lock is released on every path out of the function that took it, no lock is taken while one of its kind is held, the locks are always taken in one order, and no thread waits, joins another thread or switches its stack while it holds a lock")
def r_lockorder(c):
    L = Locks(c)
    L.solve()
    P = c.P
    acq = {}
    kinds = set()
    for n, (eng, outs, problems, a, edges, calls) in L.results.items():
        f = P.fns[n]
        w = where(c, f)
        if n not in L.inline:
            c.need(not problems, "%s: %s" % (f.qual, problems[0][0] if problems else ""), w, eng, problems[0][1] if problems else None)
        for k in a:
            if k is not None:
                kinds.add(k)
                acq.setdefault(n, set()).add(k)
        c.instance("%s: %s" % (f.qual, ", ".join(sorted(map(str, a)))))
    for n, s in L.G.callees.items():
        if waits(P.fns[n]):
            acq.setdefault(n, set()).add("WAIT")
    for n in P.fns:
        if waits(P.fns[n]):
            acq.setdefault(n, set()).add("WAIT")
    # transitively
    todo = list(acq)
    while todo:
        x = todo.pop()
        for y in L.rev.get(x, ()):
            o = acq.setdefault(y, set())
            if not acq[x] <= o:
                o |= acq[x]
                todo.append(y)
    E = {}
    for n, (eng, outs, problems, a, edges, calls) in L.results.items():
        f = P.fns[n]
        if n in L.inline:
            continue
        for x, y, st in edges:
            E.setdefault((x, y), (f, eng, st, ""))
        for x, g, wh, st in calls:
            for y in acq.get(g, ()):
                E.setdefault((x, y), (f, eng, st, "by calling %s at %s" % (P.fns[g].qual, wh)))
    succ = {}
    for x, y in E:
        succ.setdefault(x, set()).add(y)
    for (x, y), (f, eng, st, how) in sorted(E.items(), key=lambda t: str(t[0])):
        w = where(c, f)
        if y == "WAIT":
            c.need(False, "%s: waits or switches the stack while it holds %s %s" % (f.qual, x, how), w, eng, st)
            continue
        seen, todo = {y}, [y]
        while todo:
            for z in succ.get(todo.pop(), ()):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        c.need(x not in seen, "%s: takes %s %s while it holds %s, elsewhere it is the other way round" % (f.qual, y, how, x) if x != y else
               "%s: takes %s %s while it already holds one" % (f.qual, y, how), w, eng, st)
    c.instance("order: " + "; ".join(sorted("%s < %s" % (x, y) for x, y in E)))
    c.cache["lockgraph"] = (L, E)
