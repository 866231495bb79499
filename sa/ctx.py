"""Builds the analysed program from the repository and runs rules on it."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from load import Program
from engine import *
from models import *

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("RG_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"


class Broken(Exception):
    """the analysis can not give an answer"""


class Missing(Broken):
    """an anchor of a rule does not exist any more"""


def include_flags(repo=None):
    repo = repo or REPO
    return ["-I" + VERIF + "/driver/stub", "-I" + repo + "/examples/config", "-I" + repo,
            "-I" + repo + "/share/thirdParty/cameron314/concurrentqueue/include"]


CXX = ["-std=c++17", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-U__OPTIMIZE__", "-fstandalone-debug", "-Wno-everything"]


def sources():
    cfg = open(os.path.join(REPO, "redGrapesConfig.cmake")).read()
    r = sorted(set(re.findall(r"redGrapes/[a-zA-Z_/0-9]*\.cpp", cfg)))
    known = set(r)
    # sources which are not listed are not part of the library
    if not r:
        raise Broken("no sources found in redGrapesConfig.cmake")
    return r


def clang(src, out, extra=()):
    r = subprocess.run([LLVM + "/clang++"] + CXX + include_flags() + list(extra) + ["-emit-llvm", "-c", src, "-o", out],
                       capture_output=True, text=True)
    return r.returncode, r.stderr


DRIVER = VERIF + "/driver/driver.cpp"


def block(lines, n):
    """the declaration in the driver's namespace which contains line n: first and last line, or None"""
    top = lambda s: re.match(r"    [^\s}{#]", s)
    a = n
    while a >= 0 and not (top(lines[a]) and (a == 0 or not lines[a - 1].startswith("    template<"))):
        if lines[a] and not lines[a].startswith(" ") and not lines[a].startswith("#"):
            return None
        a -= 1
    if a < 0:
        return None
    b = a
    while lines[b].rstrip() not in ("    }", "    };"):
        if b > a and top(lines[b]) and not lines[b - 1].startswith("    template<") and lines[b - 1].rstrip().endswith(";"):
            b -= 1
            break
        if lines[b].rstrip().endswith((";", ")")) and b == a:
            # a declaration or the use of a macro in one line; not the head of a function
            if lines[b].rstrip().endswith(";") or b + 1 >= len(lines) or lines[b + 1].strip() != "{":
                break
        b += 1
        if b >= len(lines):
            return None
    if not a <= n <= b:
        return None
    if any("struct" in lines[i] for i in range(a, min(a + 2, b))):
        # a function of a class
        i = n
        while i > a and not re.match(r"        static ", lines[i]):
            i -= 1
        j = i
        while i > a and j < b and lines[j].rstrip() != "        }":
            j += 1
        if i > a and i <= n <= j < b:
            return (i, j)
    return (a, b)


def fitted(tmp):
    """the driver without the declarations which the current sources do not compile with (an interface was renamed, say):
    the rules which need them are undecided, the others are not affected"""
    lines = open(DRIVER).read().split("\n")
    dst = os.path.join(tmp, "driver.cpp")
    for k in range(20):
        with open(dst, "w") as f:
            f.write("\n".join(lines))
        r = subprocess.run([LLVM + "/clang++"] + CXX + include_flags() + ["-ferror-limit=0", "-fsyntax-only", dst], capture_output=True, text=True)
        if not r.returncode:
            return dst
        cut = set()
        for m in re.finditer(r"(?m)^(?:In file included from )?" + re.escape(dst) + r":(\d+)(?::\d+: (\w+): (.*))?", r.stderr):
            if m.group(2) and "expanded from" not in m.group(3):
                b = block(lines, int(m.group(1)) - 1)
                if b:
                    cut.add(b)
        if not cut:
            break
        for a, b in cut:
            for i in range(a, b + 1):
                lines[i] = ""
    raise Broken("can not compile %s:\n%s" % (DRIVER, r.stderr[:3000]))


def unity(tmp, srcs, out, driver=DRIVER):
    """all sources and the driver as one translation unit (faster); not possible if names of different sources collide"""
    if len({os.path.basename(s) for s in srcs}) == 0:
        return False
    u = os.path.join(tmp, "unity.cpp")
    with open(u, "w") as f:
        for s in [os.path.join(REPO, s) for s in srcs] + [driver]:
            f.write('#include "%s"\n' % s)
    pch = VERIF + "/build/pre.pch"
    if os.path.exists(pch) and clang(u, out, ["-include-pch", pch])[0] == 0:
        return True
    return clang(u, out)[0] == 0


def separate(tmp, srcs, out):
    driver = fitted(tmp)
    if unity(tmp, srcs, out, driver):
        return
    jobs = [(os.path.join(REPO, s), os.path.join(tmp, s.replace("/", "_") + ".bc")) for s in srcs]
    jobs.insert(0, (driver, os.path.join(tmp, "driver.bc")))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for j, (rc, err) in zip(jobs, ex.map(lambda j: clang(*j), jobs)):
            if rc:
                raise Broken("can not compile %s:\n%s" % (j[0], err[:3000]))
    r = subprocess.run([LLVM + "/llvm-link"] + [j[1] for j in jobs] + ["-o", out], capture_output=True, text=True)
    if r.returncode:
        raise Broken("llvm-link: " + r.stderr[:2000])


def declared():
    """qualified names of what the sources declare"""
    tmp = tempfile.mkdtemp(prefix="rgsa.")
    try:
        r = subprocess.run([LLVM + "/clang++"] + CXX + include_flags() + ["-fsyntax-only", "-Xclang", "-ast-list", fitted(tmp)],
                           capture_output=True, text=True)
        return set(l.strip() for l in r.stdout.split("\n") if l.startswith("redGrapes::"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build():
    """compile the library and the instantiation driver to IR and dump it"""
    srcs = sources()
    cache = os.environ.get("RG_CACHE")
    key = None
    if cache:
        h = hashlib.sha256()
        for root, dirs, fs in sorted(os.walk(REPO)):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "build", "test", "docs"))
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".cmake")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    h.update(open(p, "rb").read())
        for p in (DRIVER, VERIF + "/tool/irdump.cpp"):
            h.update(open(p, "rb").read())
        h.update(" ".join(CXX).encode())
        key = os.path.join(cache, h.hexdigest()[:24] + ".jsonl")
        if os.path.exists(key):
            return Program(key), srcs
    tmp = tempfile.mkdtemp(prefix="rgsa.")
    try:
        lk = os.path.join(tmp, "all.lbc")
        if not unity(tmp, srcs, lk):
            separate(tmp, srcs, lk)
        out = os.path.join(tmp, "all.jsonl")
        tool = VERIF + "/build/irdump"
        if not os.path.exists(tool):
            subprocess.run([VERIF + "/tool/build.sh"], check=True)
        r = subprocess.run([tool, out, lk], capture_output=True, text=True)
        if r.returncode:
            raise Broken("irdump: " + r.stderr[:2000])
        p = Program(out)
        if key:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(out, key + ".tmp%d" % os.getpid())
            os.rename(key + ".tmp%d" % os.getpid(), key)
        return p, srcs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Rule:
    def __init__(self, rid, props, fn, text, minimum):
        self.id, self.props, self.fn, self.text, self.minimum = rid, props, fn, text, minimum


RULES = []
VNAMES = set()      # the names of virtual functions the current rule looks for


def rule(rid, props, text, minimum=1):
    def deco(fn):
        RULES.append(Rule(rid, props.split(), fn, text, minimum))
        return fn
    return deco


def anchors(pred, h=None):
    """names of redGrapes' functions and classes by which a model recognises what it stands for: tuples of alternatives"""
    r = set(x for x in pred.__code__.co_consts if isinstance(x, str))
    r |= set(x for x in pred.__defaults__ or () if isinstance(x, str))
    r |= set(x.cell_contents for x in pred.__closure__ or () if isinstance(x.cell_contents, str))
    r |= set(pred.__globals__[n] for n in pred.__code__.co_names if isinstance(pred.__globals__.get(n), str))
    full = sorted(x for x in r if x.startswith("redGrapes::"))
    return set((x,) for x in full) | set(tuple(y + x for y in full) for x in r if re.match(r"::[~\w]", x) and full) \
        | set((x,) for x in getattr(h, "names", ()))


class Ctx:
    """what a rule sees"""

    def __init__(self, prog, srcs):
        self.P = prog
        self.srcs = srcs
        self.cur = None
        self.viol = []
        self.obl = 0
        self.res = {}
        self.cache = {}

    # ---- anchors
    def fn(self, qual, pred=None, idx=0, typ=None):
        r = self.P.find(qual, pred)
        if typ:
            r = [f for f in r if typ in f.cls or typ in f.d]
        if not r:
            raise Missing("function %s %s not found" % (qual, typ or ""))
        return r[idx]

    def fns(self, qual, pred=None):
        r = self.P.find(qual, pred)
        if not r:
            raise Missing("function %s not found" % qual)
        return r

    def gone(self):
        """anchors of the current rule which the program does not have (any more)"""
        if "ctxs" not in self.cache:
            self.cache["ctxs"] = set(f.ctx for f in self.P.fns.values()) | set(f.cls for f in self.P.fns.values())
        std = set(map(id, (p for p, h in std_models())))
        for cfg in self.cfgs:
            for pred, h in cfg.models:
                if id(pred) not in std:
                    self.cur["anchors"] |= anchors(pred, h)
        if "last" not in self.cache:
            self.cache["last"] = set(q.split("::")[-1] for q in self.P.byqual)
        v = sorted(x for x in VNAMES if x not in self.cache["last"])
        P, ctxs = self.P, self.cache["ctxs"]
        r = sorted(a for a in self.cur["anchors"] if not any(P.byqual.get(x) or x in ctxs or x in P.types for x in a))
        if r and "declared" not in self.cache:
            # functions which are not used (any more) are not part of the program, but still declared
            self.cache["declared"] = declared()
        return v + [" or ".join(a) for a in r if not any(x in self.cache["declared"] for x in a)]

    def drv(self, name):
        r = self.P.find("drv::" + name)
        if not r:
            raise Missing("driver entry %s not found" % name)
        return r[0]

    def off(self, t, *ms):
        try:
            return self.P.offset(t, *ms)
        except KeyError as e:
            raise Missing(str(e))

    # ---- obligations
    def need(self, cond, msg, where=None, eng=None, st=None):
        self.obl += 1
        self.cur["obligations"] += 1
        if not cond:
            d = {"rule": self.cur["id"], "msg": msg, "where": where or ""}
            if eng is not None and st is not None:
                d["trace"] = eng.showst(st)
            self.viol.append(d)
        return cond

    def instance(self, what):
        self.cur["instances"].append(what)

    def absorb(self, eng):
        c = self.cur
        c["functions"] |= eng.stats["functions"]
        c["paths"] += eng.stats["paths"]
        c["calls"] += eng.stats["calls"]
        c["blocks"] += eng.stats["blocks"]
        for k, v in eng.stats["opaque"].items():
            c["opaque"][k] = c["opaque"].get(k, 0) + v

    def begin(self, r):
        self.cur = {"id": r.id, "text": r.text, "obligations": 0, "instances": [], "functions": set(), "paths": 0,
                    "calls": 0, "blocks": 0, "opaque": {}, "anchors": set()}
        self.res[r.id] = self.cur
        self.cfgs = []
        VNAMES.clear()

    # ---- analysis
    def engine(self, models=None, **kw):
        cfg = Config()
        self.cfgs.append(cfg)
        cfg.models = (models or []) + std_models()
        for k, v in kw.items():
            setattr(cfg, k, v)
        self.cur["anchors"] |= set((x,) for x in (kw.get("vdispatch") or {}).values() if isinstance(x, str))
        if cfg.initial is None:
            cfg.initial = self.selftask
        return Engine(self.P, cfg)

    def selftask(self, eng, st, b, o, size):
        """invariant established by TaskSpace::submit (rule space.submit): task->task == task"""
        if size == 8 and o == self.off("redGrapes::Task", "task"):
            t = eng.btypes.get(b, {}).get(0)
            if t == "redGrapes::Task" or (t and self.istask(t)):
                return b
        return None

    def istask(self, t):
        """class derived from Task"""
        k = ("istask", t)
        if k not in self.cache:
            r, x = False, t
            for _ in range(6):
                bs = [l for l in self.P.layout(x) or () if l[2] == "b" and l[0] == 0]
                if not bs:
                    break
                x = bs[0][4]
                if x == "redGrapes::Task":
                    r = True
                    break
            self.cache[k] = r
        return self.cache[k]


class Outs(list):
    pass
