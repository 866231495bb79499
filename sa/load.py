"""Loads the dump of irdump: functions, globals, class layouts."""
import json, re


OPSYM = re.compile(r"operator(?:<=>|<<=|>>=|<<|>>|<=|>=|<|>|->\*|->|\(\)|\[\])")


def notmpl(s):
    """strip template arguments"""
    out, d, i, n = [], 0, 0, len(s)
    while i < n:
        ch = s[i]
        if ch == "o" and s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            m = OPSYM.match(s, i)
            if m:
                if d == 0:
                    out.append(m.group(0))
                i = m.end()
                continue
        if ch == "<":
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out)


def splitname(d):
    """context and base name of a demangled function name"""
    s = d.replace("(anonymous namespace)", "(anon)").replace("(anon)", "@anon@")
    n = notmpl(s)
    k = n.find("operator()")
    cut = n.find("(", k + 10) if k >= 0 else n.find("(")
    if cut >= 0:
        n = n[:cut]
    elif k >= 0:
        n = n[:k + 10]
    j = n.find("operator")
    sp = n.rfind(" ", 0, j if j > 0 else len(n))
    n = n[sp + 1:]
    p = n.rfind("::")
    return (n[:p], n[p + 2:]) if p >= 0 else ("", n)


class Fn:
    __slots__ = ("name", "d", "ctx", "base", "nr", "raw", "file", "line", "types", "cls", "args", "blocks", "preds",
                 "livein", "heads", "_prep", "ninst")

    def __init__(self, o):
        self.name = o["fn"]
        self.d = o["d"]
        self.nr = o.get("nr", False)
        self.file = o.get("file")
        self.line = o.get("line")
        self.types = o.get("types", [])
        self.cls = o.get("cls", "")
        if o.get("base"):
            self.base = notmpl(o["base"])
            self.ctx = notmpl(self.cls or o.get("ns", ""))
        else:
            self.ctx, self.base = splitname(self.d)
        b = o.get("body")
        self._prep = False
        if b is None:
            self.blocks = None
            self.args = None
        else:
            self.blocks = b["blocks"]
            self.args = b["args"]

    @property
    def qual(self):
        return self.ctx + "::" + self.base if self.ctx else self.base

    def prep(self):
        """predecessors, loop heads and live-in sets (for merging states)"""
        if self._prep:
            return
        self._prep = True
        n = len(self.blocks)
        succ = []
        for b in self.blocks:
            t = b[-1]
            s = list(t.get("s", []))
            if t["o"] == "switch":
                s = [t["def"]] + [c[1] for c in t["cases"]]
            succ.append(s)
        self.preds = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for x in s:
                if i not in self.preds[x]:
                    self.preds[x].append(i)
        # loop heads via dfs back edges
        color = [0] * n
        self.heads = set()
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 1:
                    self.heads.add(v)
                elif color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(succ[v])))
                    break
            else:
                color[u] = 2
                st.pop()
        use, de = [], []
        for b in self.blocks:
            u, d = set(), set()
            for i in b:
                if i["o"] == "phi":
                    d.add(i["n"])
                    continue
                for x in _ops(i):
                    if x not in d:
                        u.add(x)
                d.add(i["n"])
            use.append(u)
            de.append(d)
        live = [set(u) for u in use]
        phiuse = [set() for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i["o"] != "phi":
                    break
                for v, p in i["in"]:
                    if v[0] == "v":
                        phiuse[p].add(v[1])
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                o = set(phiuse[bi])
                for s in succ[bi]:
                    o |= live[s]
                new = use[bi] | (o - de[bi])
                if not new <= live[bi]:
                    live[bi] |= new
                    ch = True
        self.livein = live
        # phi results are live at the head after evaluation
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i["o"] != "phi":
                    break
                live[bi].add(i["n"])


def _ops(i):
    for a in i.get("a", []):
        if a[0] == "v":
            yield a[1]
    for v in i.get("var", []):
        if v[0][0] == "v":
            yield v[0][1]
    c = i.get("c")
    if c and c[0] == "v":
        yield c[1]


class Program:
    def __init__(self, path):
        self.fns = {}
        self.globals = {}
        self.types = {}
        self.files = []
        for l in open(path):
            o = json.loads(l)
            if "fn" in o:
                self.fns[o["fn"]] = Fn(o)
            elif "g" in o:
                self.globals[o["g"]] = o
            elif "types" in o:
                self.types = o["types"]
            elif "files" in o:
                self.files = o["files"]
        self._fp = {}
        self._flat = {}
        self.byqual = {}
        for f in self.fns.values():
            self.byqual.setdefault(f.qual, []).append(f)
        self.bydem = {}
        for f in self.fns.values():
            self.bydem.setdefault(f.d, f)

    # ---- functions
    def find(self, qual, pred=None, body=True):
        r = [f for f in self.byqual.get(qual, []) if (f.blocks is not None or not body)]
        if pred:
            r = [f for f in r if pred(f)]
        return r

    def match(self, rx, body=True):
        p = re.compile(rx)
        return [f for f in self.fns.values() if p.search(f.d) and (f.blocks is not None or not body)]

    # ---- types
    def canon(self, t):
        return t

    def size(self, t):
        t = self.types.get(t)
        return t.get("size", 0) if t else 0

    def layout(self, t):
        """list of (off, size, kind, name, type) of direct members and bases"""
        r = self._flat.get(t)
        if r is not None:
            return r
        r = []
        o = self.types.get(t)
        if o and "m" in o:
            for off, base in o["b"]:
                r.append((off, max(self.size(base), 1), "b", "", base))
            for m in o["m"]:
                r.append((m[0], m[3], "m", m[1], m[2]))
        self._flat[t] = r
        return r

    def path(self, t, off, want=None, depth=0):
        """descend from type t at byte offset off: list of (class, member, membertype, memberoffset)"""
        if depth > 30:
            return []
        best = None
        for o, s, k, n, mt in self.layout(t):
            if o <= off < o + s:
                sub = self.path(mt, off - o, want, depth + 1)
                mt0 = mt
                # arrays
                m = re.match(r"(.*)\[(\d+)\]$", mt)
                if m and not sub:
                    es = self.size(m.group(1)) or 1
                    sub = self.path(m.group(1), (off - o) % es, want, depth + 1)
                here = [(t, n, mt0, o)] if k == "m" else []
                cand = here + sub
                if k == "b" and self.size(mt) <= 1 and not sub:
                    continue  # empty base
                if best is None or len(cand) > len(best):
                    best = cand
        return best or []

    def offset(self, t, *members):
        """byte offset of t.m1.m2... (bases searched)"""
        tot = 0
        for m in members:
            r = self._member(t, m)
            if r is None:
                raise KeyError("%s has no member %s" % (t, m))
            tot += r[0]
            t = r[1]
        return tot

    def _member(self, t, m, depth=0):
        if depth > 20:
            return None
        for o, s, k, n, mt in self.layout(t):
            if k == "m" and n == m:
                return (o, mt)
        for o, s, k, n, mt in self.layout(t):
            if k == "b":
                r = self._member(mt, m, depth + 1)
                if r:
                    return (o + r[0], r[1])
        return None

    def membersize(self, t, m, depth=0):
        """size of a member (bases searched)"""
        for o, s, k, n, mt in self.layout(t):
            if k == "m" and n == m:
                return s
        for o, s, k, n, mt in self.layout(t):
            if k == "b" and depth < 20:
                r = self.membersize(mt, m, depth + 1)
                if r:
                    return r
        if depth == 0:
            raise KeyError("%s has no member %s" % (t, m))
        return None

    def membertype(self, t, *members):
        for m in members:
            r = self._member(t, m)
            if r is None:
                raise KeyError("%s has no member %s" % (t, m))
            t = r[1]
        return t

    def vslots(self, t, depth=0):
        """vtable slot -> (class, method name)"""
        o = self.types.get(t)
        r = {}
        if not o or depth > 20:
            return r
        for off, b in o.get("b", []):
            if off == 0:
                r.update(self.vslots(b, depth + 1))
        for idx, name, lk in o.get("v", []):
            if name.startswith("~"):
                r[idx] = (t, name)
                r[idx + 1] = (t, name + "()delete")
            else:
                r[idx] = (t, name)
        return r

    def where(self, f, i=None):
        if i is not None and "l" in i:
            return "%s:%d" % (self.short(self.files[i["f"]]), i["l"])
        if f.file is not None:
            return "%s:%d" % (self.short(self.files[f.file]), f.line)
        return f.d

    def short(self, p):
        k = p.find("/redGrapes/")
        return p[k + 1:] if k >= 0 else p
