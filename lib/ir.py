"""Typed program model over the JSON produced by engine/irx: functions, CFG, dominators, facts, expressions."""
import json, os, re, subprocess, sys, tempfile, hashlib, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

DEFS = ["-DLINUX", "-DSUPPORT_OMP", "-DUSE_GDAL", "-DUSE_MONGODB"]
INCS = ["-I" + os.path.join(VERIF, "include"), "-isystem", "/usr/include/gdal",
        "-isystem", "/usr/include/libbson-1.0", "-isystem", "/usr/include/libmongoc-1.0"]


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (error exit, neither a pass nor a violation)."""


def repo_units(repo=None):
    repo = repo or REPO
    out = []
    for d in ("src", "apps"):
        p = os.path.join(repo, d)
        for r, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".cc", ".cxx")):
                    out.append(os.path.join(r, f))
    return out


def tu_units():
    d = os.path.join(VERIF, "tu")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


def compile_program(openmp=False, repo=None, keep=True, extra_defs=()):
    repo = repo or REPO
    subprocess.run([os.path.join(VERIF, "engine", "build.sh")], check=True, stdout=subprocess.DEVNULL)
    tmp = tempfile.mkdtemp(prefix="ccgl-verif-")
    try:
        units = repo_units(repo) + tu_units()
        flags = ["-std=c++11", "-O0", "-ffp-contract=off", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-ferror-limit=5", "-fno-discard-value-names"] + DEFS + list(extra_defs) + \
                ["-I" + os.path.join(repo, "src"), "-I" + repo] + INCS
        if openmp:
            flags.append("-fopenmp")

        def one(iu):
            i, u = iu
            bc = os.path.join(tmp, "%d.bc" % i)
            r = subprocess.run(["clang++"] + flags + ["-c", "-emit-llvm", u, "-o", bc], capture_output=True, text=True)
            return u, bc, r.returncode, r.stderr
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(units)))
        bad = [(u, e) for u, b, rc, e in res if rc]
        bcs = [b for u, b, rc, e in res if not rc]
        for u, e in bad:
            if u.startswith(repo):
                raise AnalysisBroken("cannot compile %s for analysis:\n%s" % (u, e[-2000:]))
            raise AnalysisBroken("cannot instantiate the templates of the code under analysis (%s):\n%s" % (os.path.basename(u), e[-2000:]))
        out = os.path.join(tmp, "p.json")
        kf = os.path.join(VERIF, "lib", "known_functions.txt")
        mode = kf if keep and os.path.exists(kf) else "-"
        prefixes = ":".join([os.path.join(repo, "src"), os.path.join(repo, "apps"), os.path.join(VERIF, "tu")])
        r = subprocess.run([os.path.join(VERIF, "build", "irx"), out, prefixes, mode] + bcs, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("irx failed: " + r.stderr[-2000:])
        with open(out) as f:
            data = json.load(f)
        data["units"] = units
        return data
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Inst:
    __slots__ = ("id", "op", "ty", "loc", "args", "blk", "idx", "fn", "callee", "d")

    def __init__(self, d, blk, idx, fn):
        self.d = d
        self.id = d["i"]
        self.op = d["o"]
        self.ty = d.get("t")
        self.loc = d.get("l") or []
        self.args = [tuple(x) if x and x[0] not in ("cg", "ce") else _tup(x) for x in d["a"]] if self.op != "phi" and "a" in d else []
        if self.op == "phi":
            self.args = [(_tup(v), b) for v, b in d["a"]]
        self.blk = blk
        self.idx = idx
        self.fn = fn
        self.callee = d.get("f")

    @property
    def line(self):
        return self.loc[0][1] if self.loc else 0

    def where(self):
        """file:line, innermost location in source."""
        if not self.loc:
            return "%s:%d" % (self.fn.shortfile, self.fn.line)
        s = []
        for l in self.loc:
            s.append("%s:%d" % (self.fn.prog.short(l[0]), l[1]))
        return s[0] + ("" if len(s) == 1 else " (via " + ", ".join(s[1:]) + ")")

    def __repr__(self):
        return "<%s %s%d %s>" % (self.fn.src, self.op, self.id, self.callee or "")


def _tup(x):
    return tuple(_tup(y) if isinstance(y, list) else y for y in x)


class Function:
    def __init__(self, d, prog):
        self.prog = prog
        self.name = d["name"]
        self.dem = d["dem"]
        self.src = d["src"] or d["name"]
        self.line = d["line"]
        self.file = prog.files[d["file"]] if prog.files else ""
        self.shortfile = prog.short(d["file"])
        self.scope = d.get("scope", "")
        self.ret = d["ret"]
        self.dity = d["dity"]
        self.acc = d.get("dacc", d.get("acc", 0))
        self.artificial = d.get("dart", False) or d.get("art", False)
        self.params = d["args"]
        self.pnames = {int(k): v for k, v in d["pnames"].items()}
        self.blocks = []
        self.insts = {}
        self.dbg = {}   # value operand -> name
        self.allocas = {}
        for bi, b in enumerate(d["blocks"]):
            L = []
            for x in b:
                if x["o"] == "dbg":
                    op = _tup(x["a"][0])
                    self.dbg.setdefault(op, (x["n"], x["ty"]))
                    continue
                i = Inst(x, bi, len(L), self)
                L.append(i)
                self.insts[i.id] = i
            self.blocks.append(L)
        self._succ = None
        self._pred = None
        self._dom = None
        self._uses = None

    def where(self):
        return "%s:%d" % (self.shortfile, self.line)

    # sret functions: user-visible parameter i (0-based, including this) -> argument index
    @property
    def sret(self):
        return bool(self.params and "sret" in self.params[0])

    def argname(self, n):
        return self.params[n]["n"] or "arg%d" % n

    @property
    def is_method(self):
        return any(p["n"] == "this" for p in self.params[:2])

    @property
    def this(self):
        for i, p in enumerate(self.params[:2]):
            if p["n"] == "this":
                return ("a", i)
        return None

    def qual(self):
        return strip_templates(self.dem.split("(")[0]) if False else qualname(self.dem)

    def term(self, b):
        return self.blocks[b][-1]

    def succ(self, b):
        if self._succ is None:
            self._cfg()
        return self._succ[b]

    def pred(self, b):
        if self._pred is None:
            self._cfg()
        return self._pred[b]

    def _cfg(self):
        n = len(self.blocks)
        self._succ = [[] for _ in range(n)]
        self._pred = [[] for _ in range(n)]
        for b in range(n):
            t = self.term(b)
            if t.op == "br":
                if len(t.args) == 1:
                    s = [t.args[0][1]]
                else:
                    s = [t.args[2][1], t.args[1][1]]  # IR operand order: cond, false, true
            elif t.op == "switch":
                s = [t.d["def"]] + [c[1] for c in t.d["cases"]]
            elif t.op == "indirectbr":
                s = [a[1] for a in t.args[1:]]
            else:
                s = []
            u = []
            for x in s:
                if x not in u:
                    u.append(x)
            self._succ[b] = u
            for x in u:
                self._pred[x].append(b)

    def cond_edges(self, b):
        """For a block ending in a 2-way branch: [(succ, cond operand, polarity)]; for switch: [(succ, ('case', op, {values}|None default))]"""
        t = self.term(b)
        if t.op == "br" and len(t.args) == 3:
            return [(t.args[2][1], t.args[0], True), (t.args[1][1], t.args[0], False)]
        if t.op == "switch":
            m = {}
            for v, s in t.d["cases"]:
                m.setdefault(s, set()).add(v)
            allv = set(v for v, s in t.d["cases"])
            out = []
            for s, vs in m.items():
                if s == t.d["def"]:
                    out.append((s, ("case", t.args[0], None, frozenset(allv - vs)), True))
                else:
                    out.append((s, ("case", t.args[0], frozenset(vs), None), True))
            if t.d["def"] not in m:
                out.append((t.d["def"], ("case", t.args[0], None, frozenset(allv)), True))
            return out
        return []

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ(s))))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def dom(self):
        if self._dom is None:
            order = self.rpo()
            num = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in self.pred(b):
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        """block a dominates block b"""
        d = self.dom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = d[b]

    def idominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.blk == j.blk:
            return i.idx < j.idx
        return self.dominates(i.blk, j.blk)

    def edge_dominates(self, p, s, b):
        """CFG edge p->s dominates block b"""
        if not self.dominates(s, b):
            return False
        # all other preds of s must be dominated by s (back edges)
        for q in self.pred(s):
            if q == p:
                continue
            if not self.dominates(s, q):
                return False
        return True

    def reach(self, b):
        """blocks reachable from b's successors"""
        seen, st = set(), list(self.succ(b))
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.succ(x))
        return seen

    def raw_facts(self, b):
        """[(cond operand or case tuple, polarity, from block)] for dominating edges"""
        out = []
        d = self.dom()
        if b not in d:
            return out
        x = b
        chain = [x]
        while x != 0:
            x = d[x]
            chain.append(x)
        cs = set(chain)
        for p in chain:
            if p == b and not True:
                continue
            for (s, c, pol) in self.cond_edges(p):
                if s in cs and s != p and self.edge_dominates(p, s, b):
                    # both edges to same successor: no information
                    if sum(1 for e in self.cond_edges(p) if e[0] == s) > 1:
                        continue
                    out.append((c, pol, p))
        return out

    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.insts.values():
                if i.op == "phi":
                    for v, b in i.args:
                        u.setdefault(v, []).append(i)
                else:
                    for v in i.args:
                        u.setdefault(v, []).append(i)
                    for p in i.d.get("path", []):
                        pass
            self._uses = u
        return self._uses

    def all_insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def vname(self, op):
        if op[0] == "a":
            return self.argname(op[1])
        if op in self.dbg:
            return self.dbg[op][0]
        return None

    def natural_loops(self):
        """[(header, set(blocks))]"""
        loops = {}
        for b in self.dom():
            for s in self.succ(b):
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.pred(x))
        return loops


def strip_templates(s):
    s = s.replace("operator<<", "operator@LSHIFT").replace("operator<=", "operator@LE").replace("operator<", "operator@LT")
    s = s.replace("operator>>", "operator@RSHIFT").replace("operator>=", "operator@GE").replace("operator->", "operator@ARROW").replace("operator>", "operator@GT")
    out, d = [], 0
    for c in s:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    r = "".join(out)
    for a, b in (("@LSHIFT", "<<"), ("@LE", "<="), ("@LT", "<"), ("@RSHIFT", ">>"), ("@GE", ">="), ("@ARROW", "->"), ("@GT", ">")):
        r = r.replace(a, b)
    return r


_qcache = {}


def qualname(dem):
    """'void ns::f<int>(int)' -> 'ns::f' ; templates removed"""
    r = _qcache.get(dem)
    if r is None:
        s = strip_templates(dem.replace("(anonymous namespace)", "anon"))
        s = re.sub(r"\([^()]*\)(?: const)?::\$_\d+ ", "::lambda ", s)     # result of local lambda type
        if "operator()" in s:
            i = s.index("operator()") + len("operator()")
            s = s[:i]
        else:
            s = s.split("(")[0]
        s = s.replace("[abi:cxx11]", "").strip()
        # conversion operators keep the space
        if "operator " in s:
            k = s.index("operator ")
            h = s[:k].split(" ")[-1]
            s = h + s[k:]
        else:
            s = s.split(" ")[-1]
        s = s.lstrip("*&")
        s = s.replace("std::__cxx11::", "std::")
        r = _qcache[dem] = s
    return r


class Program:
    def __init__(self, data, repo=None):
        self.repo = repo or REPO
        self.files = data["files"]
        self.decls = data["decls"]
        self.globals = data["globals"]
        self.structs = data["structs"]
        self.classes = data["classes"]
        self.inlined = set(data.get("inlined", []))  # extracted helpers: analysed where they are called, not on their own
        self.units = data.get("units", [])
        self.fns = {}
        for d in data["functions"]:
            f = Function(d, self)
            self.fns[f.name] = f
        self._callers = None
        self._wg = None
        self._q = {}
        for n, f in self.fns.items():
            self._q[n] = qualname(f.dem)
        for n, d in self.decls.items():
            self._q[n] = qualname(d["dem"])

    def short(self, fid):
        p = self.files[fid] if isinstance(fid, int) else fid
        p = os.path.normpath(p)
        if p.startswith(self.repo + "/"):
            return p[len(self.repo) + 1:]
        return p

    def q(self, name):
        """qualified, template-free name of a (mangled) function name"""
        if name is None:
            return ""
        r = self._q.get(name)
        return r if r is not None else name

    def dem(self, name):
        if name in self.fns:
            return self.fns[name].dem
        if name in self.decls:
            return self.decls[name]["dem"]
        return name

    def project(self):
        """functions of the code under analysis (not the instantiation units)"""
        return [f for f in self.fns.values() if f.name not in self.inlined and not f.file.startswith(os.path.join(VERIF, "tu")) and f.file]

    def find(self, qual, pred=None):
        return [f for f in self.project() if self._q[f.name] == qual and (pred is None or pred(f))]

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.fns.values():
                for i in f.all_insts():
                    if i.callee:
                        c.setdefault(i.callee, []).append(i)
            self._callers = c
        return self._callers

    def cstring(self, op):
        """string literal behind an operand, or None"""
        if op[0] == "g":
            g = self.globals.get(op[1])
            return g.get("str") if g else None
        if op[0] == "cg" and op[2] == 0:
            return self.cstring(op[1])
        return None

    def written_globals(self):
        """names of global variables that some project instruction stores to directly"""
        if self._wg is None:
            w = set()
            for f in self.fns.values():
                for i in f.all_insts():
                    if i.op == "store" and i.args[1][0] == "g":
                        w.add(i.args[1][1])
            self._wg = w
        return self._wg

    def gptr(self, gname):
        """operand stored in a global pointer with initialiser that is never written"""
        g = self.globals.get(gname)
        if not g or gname in self.written_globals():
            return None
        return _tup(g["val"]) if "val" in g else None


def load(openmp=False, repo=None, keep=True):
    return Program(compile_program(openmp, repo, keep), repo)
