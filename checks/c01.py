"""C01: iterations of a parallel loop never conflict."""
import re
from poly import Poly, add, fact_polys, nonneg, const, mul
from sym import show, subst, substfact

TECH = "dependence analysis of the code that clang outlines for every OpenMP region: iteration-injective index test for every shared store (callees inlined symbolically), protection of shared scalars by reduction/critical/atomic code, reduction discipline"
NOTE = "rows of a two-dimensional array, and arrays reached through different members or variables, are taken to be distinct objects (C03 decides how they are allocated and released). Different orders of floating-point summation are allowed."

MUT = ("push_back", "emplace_back", "push_front", "insert", "emplace", "erase", "clear", "resize", "operator=", "append", "operator+=", "assign", "swap", "pop_back", "reserve", "push", "pop", "replace", "merge", "splice", "sort", "remove")
ENTER = ("__kmpc_critical", "__kmpc_critical_with_hint", "__kmpc_reduce", "__kmpc_reduce_nowait", "__kmpc_ordered", "__kmpc_single", "__kmpc_master", "__kmpc_masked")
LEAVE = ("__kmpc_end_critical", "__kmpc_end_reduce", "__kmpc_end_reduce_nowait", "__kmpc_end_ordered", "__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked")


def tuples(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            if isinstance(x, tuple):
                yield from tuples(x)


def replace(e, old, new):
    if e == old:
        return new
    return tuple(replace(x, old, new) if isinstance(x, tuple) else x for x in e) if isinstance(e, tuple) else e


class Region:
    def __init__(self, prog, S, P, fn, own):
        self.p, self.S, self.P, self.fn, self.own = prog, S, P, fn, own
        self.iv = set()
        for i in fn.all_insts():
            if i.op == "phi" and (fn.vname(("v", i.id)) or "").startswith(".omp.iv"):
                self.iv.add(("phi", i.id, fn.name))
        self.acc = []      # (kind, expression of the address, facts, instruction, protected, chain of calls)
        self.calls = 0
        self.stepc = {}
        self.collect(fn, None, set(), False, 0, ())

    # ---- accesses, callees included
    def protected(self, f, i):
        ent = [c for c in f.all_insts() if c.op == "call" and c.callee and self.p.q(c.callee) in ENTER]
        lea = [c for c in f.all_insts() if c.op == "call" and c.callee and self.p.q(c.callee) in LEAVE]
        for c in ent:
            if f.idominates(c, i) and not any(f.idominates(c, e) and f.idominates(e, i) for e in lea):
                # a reduction: only what the runtime's answer leads to
                return True
        return False

    def collect(self, f, args, facts, prot, depth, via):
        if depth > 6 or f.name in [v[0] for v in via]:
            return
        via = via + ((f.name, None),)
        for i in f.all_insts():
            if i.op in ("load", "store", "atomicrmw", "cmpxchg"):
                a = i.args[1] if i.op == "store" else i.args[0]
                self.note("read" if i.op == "load" else "write", f, a, args, facts, i, prot, via, atomic=i.op in ("atomicrmw", "cmpxchg"))
            elif i.op == "call":
                if not i.callee:
                    continue
                q = self.p.q(i.callee)
                n = q.split("::")[-1]
                if q.startswith("__kmpc"):
                    continue
                g = self.p.fns.get(i.callee)
                if g is not None and g.blocks and i.callee in self.own:
                    self.calls += 1
                    ex = [self.S.expr(f, x) for x in i.args]
                    if args is not None:
                        ex = [subst(x, f, args) or ("opq", "?") for x in ex]
                    fs = set(facts) | self.bound(f, i.blk, args)
                    self.collect(g, ex, fs, prot or self.protected(f, i), depth + 1, via)
                elif q.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or q in ("memcpy", "memset", "memmove"):
                    self.note("write", f, i.args[0], args, facts, i, prot, via, whole=True)
                    if "memset" not in q:
                        self.note("read", f, i.args[1], args, facts, i, prot, via, whole=True)
                elif q.startswith("std::") and i.args and (n in MUT or q.startswith("std::map::operator[]")):
                    self.note("write", f, i.args[0], args, facts, i, prot, via, whole=True)
                elif q in ("std::fill", "std::copy", "std::fill_n", "std::sort", "std::swap", "std::reverse"):
                    for a in i.args:
                        if a[0] in ("v", "a"):
                            self.note("write", f, a, args, facts, i, prot, via, whole=True)

    def bound(self, f, blk, args):
        fs = set(self.S.facts(f, blk))
        fs |= self.inductive(f)
        if args is None:
            return fs
        return set(x for x in (substfact(y, f, args) for y in fs) if x is not None)

    def steps(self, f):
        """loop counters that change by a constant in every round: {phi atom: (start expression, step, block)}"""
        if f.name not in self.stepc:
            out = self.stepc[f.name] = {}
            for i in f.all_insts():
                if i.op != "phi" or len(i.args) < 2 or i.ty == "ptr":
                    continue
                me = ("phi", i.id, f.name)
                start, step = set(), set()
                for v, b in i.args:
                    d = self.P.poly(self.S.expr(f, v))
                    e = add(d, self.P.poly(me), -1)
                    if not [m for m in e if m != ()]:
                        step.add(e.get((), 0))
                    elif me not in [x for m in d for x in m]:
                        start.add(self.S.expr(f, v))
                    else:
                        start.add(None)
                if len(start) == 1 and None not in start and len(step) == 1:
                    out[me] = (start.pop(), step.pop(), i.blk)
        return self.stepc[f.name]

    def inductive(self, f):
        """counters that only grow"""
        return set(("sge", me, st) for me, (st, c, b) in self.steps(f).items() if c >= 0)

    def lockstep(self, p):
        """counters of one loop are expressed through one of them"""
        st = self.steps(self.fn)
        for _ in range(4):
            hit = None
            for x in set(x for m in p for x in m):
                if x in st and x not in self.iv:
                    s0, c, blk = st[x]
                    base = sorted((y for y in st if st[y][2] == blk and abs(st[y][1]) == 1 and st[y][0][0] == "c"), key=repr)
                    if base and base[0] != x:
                        hit = (x, base[0])
            if hit is None:
                return p
            x, y = hit
            s0, c, blk = st[x]
            b0, d, _b = st[y]
            rep = add(self.P.poly(s0), mul(add(self.P.poly(y), self.P.poly(b0), -1), const(c / d)))
            r = {}
            for m, k in p.items():
                t = {(): k}
                for z in m:
                    t = mul(t, rep if z == x else {(z,): 1})
                r = add(r, t)
            p = r
        return p

    def note(self, kind, f, op, args, facts, i, prot, via, atomic=False, whole=False):
        e = self.S.expr(f, op)
        if args is not None:
            e = subst(e, f, args)
            if e is None:
                return
        for e in self.alternatives(e):
            self.note1(kind, e, f, args, facts, i, prot, via, atomic, whole)

    def alternatives(self, e, depth=0):
        """a pointer chosen on different paths stands for each of its choices"""
        root, path = self.chain(e)
        if root and root[0] == "phi" and depth < 4:
            ph = root[1:]
            f = self.p.fns[ph[2]]
            out = []
            for v, b in f.insts[ph[1]].args:
                x = self.S.expr(f, v)
                if ph not in set(tuples(x)) and v[0] != "null":
                    out += self.alternatives(replace(e, ph, x), depth + 1)
            return out
        return [e]

    def note1(self, kind, e, f, args, facts, i, prot, via, atomic, whole):
        root, path = self.chain(e)
        if not root or not self.shared(root, f):
            return
        fs = set(facts) | self.bound(f, i.blk, args)
        self.acc.append((kind, root, path, fs, i, prot or atomic or self.protected(f, i), via, whole))

    # ---- shape of an address
    def chain(self, e, depth=0):
        t = e[0]
        if depth > 30:
            return (), ()
        if t == "idx":
            r, l = self.chain(e[1], depth + 1)
            return r, l + (("x", e[2]),)
        if t == "fld":
            r, l = self.chain(e[1], depth + 1)
            return r, l + (("f", e[2]),)
        if t == "ld":
            r, l = self.chain(e[1], depth + 1)
            return r, l + (("*",),)
        if t == "call":
            n = e[1].split("::")[-1]
            if n in ("operator[]", "at") and len(e) == 4 and e[1].startswith("std::"):
                r, l = self.chain(e[2], depth + 1)
                return r, l + (("x", e[3]),)
            if n in ("front", "data", "begin") and len(e) == 3:
                r, l = self.chain(e[2], depth + 1)
                return r, l + (("x", ("c", 0)),)
            if n in ("operator new", "operator new[]"):
                return ("new",), ()
            return ("call", e), ()
        if t in ("mapat", "mapval"):
            r, l = self.chain(e[1], depth + 1)
            return r, l + (("k", e[2]),) + ((("*",),) if t == "mapval" else ())
        if t in ("arg", "this", "loc", "glob", "str"):
            return e, ()
        if t == "phi":
            f = self.p.fns.get(e[2])
            if f is not None and f.insts[e[1]].ty == "ptr":
                rs = []
                for v, b in f.insts[e[1]].args:
                    x = self.S.expr(f, v)
                    if e in set(tuples(x)):
                        continue
                    rs.append(self.chain(x, depth + 1))
                if len(rs) == 1:
                    return rs[0][0], rs[0][1] + (("x", ("opq", "moved")),)
            return ("phi",) + e, ()
        return (), ()

    def shared(self, root, f):
        if root[0] in ("loc", "new", "str"):
            return False
        if root[0] == "arg":
            return root[1] >= 2
        return root[0] in ("this", "glob")

    # ---- iteration-injective indices
    def inner(self, atom):
        """depends on something that differs within one iteration or between iterations in a way that is not known"""
        for t in tuples(atom):
            if t and t[0] in ("phi", "loc", "opq") and len(t) >= 2:
                return True
        return False

    def split(self, ix):
        """index polynomial -> (coefficient of the iteration number, invariant part, inner part) or None"""
        p = self.lockstep(self.P.poly(ix))
        coef, inv, inn = {}, {}, {}
        for m, c in p.items():
            k = [x for x in m if x in self.iv]
            if len(k) == 1:
                rest = list(m)
                rest.remove(k[0])
                if any(self.inner(x) for x in rest):
                    return None
                coef = add(coef, {tuple(rest): c})
            elif k:
                return None
            elif any(self.inner(x) for x in m):
                if any(any(t in self.iv for t in tuples(x)) for x in m):
                    return None
                inn[m] = c
            else:
                inv[m] = c
        return coef, inv, inn

    def separates(self, ix, facts):
        """distinct iterations give distinct indices: (coefficient, invariant part) or None"""
        s = self.split(ix)
        if s is None:
            return None
        coef, inv, inn = s
        if not coef:
            return None
        neg = all(c < 0 for c in coef.values())
        if neg:
            coef = dict((m, -c) for m, c in coef.items())
        if not inn:
            return ("iv", tuple(sorted(coef.items(), key=repr)), tuple(sorted(inv.items(), key=repr)), neg)
        F = fact_polys(self.P, facts)
        c0 = inv.get((), 0)
        for shift in ([0] if not c0 else [0, c0]):
            r = add(inn, const(shift))
            if nonneg(r, F) and nonneg(add(add(coef, r, -1), const(-1)), F):
                inv2 = add(inv, const(-shift))
                return ("iv", tuple(sorted(coef.items(), key=repr)), tuple(sorted(inv2.items(), key=repr)), neg)
        return None

    def separation(self, path, facts):
        for n, s in enumerate(path):
            if s[0] == "x":
                r = self.separates(s[1], facts)
                if r:
                    return n, r
        return None

    def shape(self, path):
        return tuple(s[0] if s[0] != "f" else s for s in path)


def text(root, path, fn):
    def r(e):
        return fn.argname(e[1]) if e[0] == "arg" else show(e, fn)
    s = r(root)
    for x in path:
        if x[0] == "f":
            s = s + "." + x[1] if s != "this" else x[1]
        elif x[0] == "x":
            s += "[%s]" % show(x[1], fn)[:60]
        elif x[0] == "k":
            s += "{%s}" % show(x[1], fn)[:40]
    return s


def short(p, f):
    n = re.sub(r"\.omp_outlined.*", "", f.name)
    g = p.fns.get(n)
    return p.q(n) if g is not None else n


def check(ctx, rep):
    p, S = ctx.prog(openmp=True), ctx.sym(openmp=True)
    P = Poly()
    rep.rule("a store to shared memory in a parallel loop addresses, at some level, an element whose index distinct iterations never share (a linear function of the iteration number whose remaining part stays below the coefficient)")
    rep.rule("an array that a parallel loop writes is read, in the same loop, only at the elements of the same iteration")
    rep.rule("shared scalars and whole objects are written only inside reduction, critical or atomic code, and then are not touched outside of it")
    rep.rule("a reduction variable is only accumulated in the loop, with the operation that combines the threads' values")
    own = set(f.name for f in p.project())
    regs = [f for f in p.fns.values() if ".omp_outlined" in f.name and f.blocks and "reduction_func" not in f.name and "omp.reduction" not in f.name and body(p, f)]
    seen_lines = set()
    for f in sorted(regs, key=lambda x: x.name):
        R = Region(p, S, P, f, own)
        name = short(p, f)
        line = "%s:%d" % (f.shortfile, f.line)
        seen_lines.add(line)
        rep.count("shared accesses", len(R.acc))
        rep.count("calls followed", R.calls)
        written = {}
        for kind, root, path, facts, i, prot, via, whole in R.acc:
            if kind != "write":
                continue
            key = "%s:%s" % (name, text(root, [x for x in path if x[0] == "f"], f))
            if prot:
                for k2, r2, p2, f2, i2, pr2, v2, w2 in R.acc:
                    if r2 == root and p2 == path and not pr2 and not R.separation(path, facts):
                        rep.ob(False, "half:" + key, i2.where(), "%s: %s is written in protected code but also touched outside of it" % (name, text(root, path, f)))
                continue
            s = R.separation(path, facts)
            rep.ob(s is not None, "store:" + key, i.where(), "%s: %s, written in the parallel loop of line %d, %s" % (name, text(root, path, f), f.line, "is an element of the iteration" if s else "can be the same memory in different iterations"))
            if s:
                written.setdefault((root, R.shape(path)), []).append((s, path, i, whole))
        for kind, root, path, facts, i, prot, via, whole in R.acc:
            ws = written.get((root, R.shape(path)))
            if not ws or prot:
                continue
            s = R.separation(path, facts)
            for w, wp, wi, ww in ws:
                ok = s is not None and s == w and same(R, path[:w[0]], wp[:w[0]])
                if not ok:
                    rep.ob(False, "carried:%s:%s" % (name, text(root, [x for x in path if x[0] == "f"], f)), i.where(),
                           "%s: %s is accessed while other iterations of the parallel loop of line %d write %s" % (name, text(root, path, f), f.line, text(root, wp, f)))
                    break
            else:
                rep.ob(True, "own:%s" % name, i.where(), "own element")
        reductions(p, S, f, name, rep)
        loops(p, f, name, R, rep)
    rep.count("parallel regions (instantiations)", len(regs))
    rep.count("parallel regions (source)", len(seen_lines))
    rep.need(len(seen_lines), 5, "parallel regions")


def same(R, a, b):
    return [x if x[0] != "x" else ("x", R.P.canon(x[1])) for x in a] == [x if x[0] != "x" else ("x", R.P.canon(x[1])) for x in b]


def body(p, f):
    """the function that holds the loop, not the wrapper that calls it"""
    return not any(i.op == "call" and i.callee and ".omp_outlined_debug" in i.callee for i in f.all_insts())


OPS = {"fadd": "+", "add": "+", "fsub": "+", "sub": "+", "fmul": "*", "mul": "*", "and": "&", "or": "|", "xor": "^"}


def reductions(p, S, f, name, rep):
    """private copies that are handed to the runtime's combiner"""
    for c in f.all_insts():
        if c.op != "call" or not c.callee or not p.q(c.callee).startswith("__kmpc_reduce"):
            continue
        lst = S.root(f, c.args[4]) if len(c.args) > 4 else None
        comb = c.args[5][1] if len(c.args) > 5 and c.args[5][0] == "fn" else None
        if lst is None or comb is None or comb not in p.fns:
            continue
        ops = set()
        for i in p.fns[comb].all_insts():
            if i.op in OPS:
                ops.add(OPS[i.op])
            elif i.op in ("fcmp", "icmp", "select"):
                ops.add("minmax")
        if len(ops) != 1:
            continue
        kind = ops.pop()
        al = set()
        for i in f.all_insts():
            if i.op == "store" and S.root(f, i.args[1]) is lst and i.args[0][0] == "v" and f.insts[i.args[0][1]].op == "alloca":
                al.add(i.args[0])
        for a in al:
            n = 0
            for u in f.uses().get(a, []):
                if u.op == "store" and u.args[1] == a and not f.idominates(c, u):
                    v = u.args[0]
                    if v[0] in ("c", "f"):
                        continue
                    vi = f.insts[v[1]] if v[0] == "v" else None
                    if kind == "minmax":
                        continue
                    n += 1
                    # through conversions
                    while vi is not None and vi.op in ("fptrunc", "fpext", "trunc", "sext", "zext", "fptosi", "sitofp"):
                        vi = f.insts[vi.args[0][1]] if vi.args[0][0] == "v" else None
                    if vi is None:
                        continue
                    if vi.op == "call" and vi.callee and "fmuladd" in vi.callee:
                        ok = kind == "+"
                    elif vi.op in OPS:
                        ok = OPS[vi.op] == kind and not (vi.op in ("fsub", "sub") and contains_load(f, vi.args[1], a))
                    else:
                        continue
                    rep.ob(ok, "reduce:%s:%s" % (name, f.vname(a)), u.where(), "%s: the reduction variable %s is %s" % (name, f.vname(a), "accumulated with the operation of its reduction" if ok else "changed in a way that its reduction (%s) does not combine" % kind))
                elif u.op == "load" and not f.idominates(c, u):
                    use = f.uses().get(("v", u.id), [])
                    for x in use:
                        bad = x.op in ("fcmp", "icmp", "br", "switch", "select", "ret", "call") and kind != "minmax" and not (x.op == "call" and x.callee and "fmuladd" in x.callee)
                        bad = bad or x.op == "store" and x.args[0] == ("v", u.id) and x.args[1] != a
                        if bad:
                            rep.ob(False, "reduce-use:%s:%s" % (name, f.vname(a)), x.where(), "%s: the partial value of the reduction variable %s is used inside the parallel loop" % (name, f.vname(a)))
            rep.count("reduction variables")


def contains_load(f, op, a):
    if op[0] != "v":
        return False
    i = f.insts[op[1]]
    if i.op == "load":
        return i.args[0] == a
    if i.op in ("fpext", "fptrunc", "sext", "zext"):
        return contains_load(f, i.args[0], a)
    return False


def loops(p, f, name, R, rep):
    """several work-shared loops in one region: a barrier lies between, unless they touch nothing in common"""
    inits = [i for i in f.all_insts() if i.op == "call" and i.callee and re.match(r"__kmpc_(for_static|dispatch)_init", p.q(i.callee))]
    if len(inits) < 2:
        return
    bars = [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee) == "__kmpc_barrier"]
    for a in inits:
        for b in inits:
            if a is b or not (b.blk in f.reach(a.blk)) or a.blk in f.reach(b.blk):
                continue
            if any(x.blk in f.reach(a.blk) and b.blk in (f.reach(x.blk) | {x.blk}) for x in bars):
                continue
            wa = set((r, R.shape(pa)) for k, r, pa, fs, i, pr, via, w in R.acc if k == "write" and i.fn is f and f.idominates(a, i) and not f.idominates(b, i))
            ab = set((r, R.shape(pa)) for k, r, pa, fs, i, pr, via, w in R.acc if i.fn is f and f.idominates(b, i))
            for r, s in wa & ab:
                rep.ob(False, "barrier:%s" % name, b.where(), "%s: this loop touches what the loop before it writes, without a barrier in between" % name)
