"""What a cell index counts: G valid cells of the raster, F cells of its grid, S cells of a subset, L cells of the grid the subset spans.
Indices and lengths carry their domain along every path (flags that are parameters are fixed to either value, the raster has positions), and are
compared where an array is indexed."""
from paths import Walker, NN
from sym import show

ARR = {"raster_": "G", "raster_2d_": "G", "pos_idx_": "G", "pos_data_": "G", "global_": "S", "local_pos_": "S", "local_posidx_": "S", "data_": "S", "data2d_": "S"}
VAL = {"global_": "G", "local_posidx_": "L", "pos_idx_": "F"}
WORD = {"G": "a valid cell of the raster", "F": "a cell of the raster's grid", "S": "a cell of the subset", "L": "a cell of the grid that the subset spans"}
LEN = {"n_cells_": "G", "n_cells": "S"}
CASTS = ("sext", "zext", "trunc", "freeze", "fptosi", "sitofp", "fptoui", "uitofp")


def dim(e, hdr):
    """'gcols', 'lrows' ... of a factor"""
    h = hdr(e)
    if h in ("NCOLS", "NROWS"):
        return "g" + ("cols" if h == "NCOLS" else "rows")
    if e[0] == "call" and e[1].split("::")[-1] in ("GetCols", "GetRows"):
        return "gcols" if e[1].endswith("Cols") else "grows"
    if e[0] == "bin" and e[1] in ("add", "sub"):
        ns = set()

        def w(x):
            if isinstance(x, tuple):
                if x[:1] == ("fld",):
                    ns.add(x[2])
                    return
                for y in x:
                    w(y)
        w(e)
        if ns == {"g_ecol", "g_scol"}:
            return "lcols"
        if ns == {"g_erow", "g_srow"}:
            return "lrows"
    return None


class Domains:
    def __init__(self, p, S, f, K, hdr, strip):
        self.p, self.S, self.f, self.K = p, S, f, K
        self.hdr, self.strip = hdr, strip
        self.found = {}
        self.judged = set()
        self.over = False
        self._x = {}

    def ex(self, op):
        r = self._x.get(op)
        if r is None:
            r = self._x[op] = self.strip(self.S.expr(self.f, op))
        return r

    def elemof(self, op):
        """(member name, index operand) when op is the address of an element of a member array"""
        f = self.f
        if op[0] != "v":
            return None
        i = f.insts[op[1]]
        if i.op == "getelementptr" and len(i.args) == 2:
            base = i.args[0]
            if base[0] == "v" and f.insts[base[1]].op == "load":
                e = self.S.expr(f, f.insts[base[1]].args[0])
                if e[0] == "fld" and e[2] in ARR:
                    return e[2], i.args[1]
                if e[0] in ("loc", "arg") or f.insts[base[1]].args[0][0] == "v":
                    return f.insts[base[1]].args[0], i.args[1]
        return None

    def keepset(self):
        f = self.f
        keep = set()
        work = []
        for i in f.all_insts():
            if i.op == "getelementptr" and len(i.args) == 2:
                work.append(i.args[1])
            elif i.op == "call" and i.callee and self.p.q(i.callee).split("::")[-1] in ("Initialize1DArray", "Initialize2DArray"):
                work += list(i.args[:2])
            elif i.op == "load" and i.ty == "ptr":
                e = self.S.expr(f, i.args[0])
                if e[0] == "fld" and e[2] == "pos_idx_":
                    keep.add(("v", i.id))
        while work:
            o = work.pop()
            if o[0] != "v" or o in keep:
                continue
            i = f.insts[o[1]]
            if i.op in CASTS + ("phi", "add", "mul", "sub", "select", "load"):
                keep.add(o)
                for a in i.args:
                    work.append(a[0] if isinstance(a[0], tuple) else a)
                    if i.op == "load":
                        break
        fwd = [("a", k) for k in self.flags()] + [o for o in keep if f.insts[o[1]].op == "load" and f.insts[o[1]].ty == "ptr"]
        keep |= set(fwd)
        while fwd:
            o = fwd.pop()
            for u in f.uses().get(o, []):
                if u.op in ("zext", "trunc", "icmp", "phi", "xor", "and", "or", "select") and ("v", u.id) not in keep and u.ty in ("i1", "i8"):
                    keep.add(("v", u.id))
                    fwd.append(("v", u.id))
        # a flag kept in memory
        return keep

    def flags(self):
        f = self.f
        first = (1 if f.this is not None else 0) + (1 if f.sret else 0)
        return [k for k, prm in enumerate(f.params) if k >= first and len(f.dity) > 1 + k - (1 if f.sret else 0) and str(f.dity[1 + k - (1 if f.sret else 0)]).replace("const ", "") == "bool"]

    # ---- tags
    def dom(self, op, env, blk, w, depth=0):
        """(domain, multiplied by the layers) of an operand on the path taken"""
        if op[0] != "v" or depth > 8:
            return None
        t = env.get(op)
        if isinstance(t, tuple) and t[0] == "dom":
            return t[1:]
        f = self.f
        i = f.insts[op[1]]
        if i.op in CASTS:
            return self.dom(i.args[0], env, blk, w, depth + 1)
        if i.op == "phi" and self.counter(i):
            return self.bound(op, env, blk, w, depth)
        if i.op == "phi":
            return None
        return self.calc(i, env, w, depth)

    def counter(self, i):
        return i.blk in self.f.natural_loops() and any(v[0] == "v" and self.f.insts[v[1]].op in ("add", "sub") and ("v", i.id) in self.f.insts[v[1]].args for v, b in i.args)

    def bound(self, op, env, blk, w, depth):
        ds = set()
        for b in self.K.ub(self.ex(op), blk):
            n = self.K.single(b)
            if n in LEN:
                ds.add((LEN[n], 0))
                continue
            if n == "CELLSNUM":
                continue
            ms = [m for m in b if m]
            if len(ms) == 1 and b[ms[0]] == 1 and not b.get((), 0):
                if len(ms[0]) == 2:
                    d = set(dim(self.strip(x), self.hdr) for x in ms[0])
                    if d == {"gcols", "grows"}:
                        ds.add(("F", 0))
                    elif d == {"lcols", "lrows"}:
                        ds.add(("L", 0))
                elif len(ms[0]) == 1:
                    x = ms[0][0]
                    if isinstance(x, tuple) and x[0] == "phi" and x[2] == self.f.name:
                        t = self.dom(("v", x[1]), env, blk, w, depth + 1)
                        if t:
                            ds.add(t)
        return ds.pop() if len(ds) == 1 else None

    def calc(self, i, env, w, depth=0):
        f = self.f
        if i.op == "load":
            el = self.elemof(i.args[0])
            if el and el[0] in VAL:
                return (VAL[el[0]], 0)
            e = self.S.expr(f, i.args[0])
            if e[0] == "fld" and e[2] in LEN:
                return (LEN[e[2]], 0)
            return None
        if i.op == "mul":
            d = set(dim(self.ex(a), self.hdr) for a in i.args)
            if d == {"gcols", "grows"}:
                return ("F", 0)
            if d == {"lcols", "lrows"}:
                return ("L", 0)
            ts = [self.dom(a, env, i.blk, w, depth + 1) for a in i.args]
            ts = [t for t in ts if t]
            if len(ts) == 1 and ts[0][1] == 0 and not any(a[0] == "c" for a in i.args):
                return (ts[0][0], 1)
            return None
        if i.op == "add":
            for a, b in (i.args, i.args[::-1]):
                t = self.dom(a, env, i.blk, w, depth + 1)
                if t and t[1] == 1 and b[0] != "c":
                    return t
                m = self.under(a)
                if m is not None and f.insts[m[1]].op == "mul":
                    d = [dim(self.ex(x), self.hdr) for x in f.insts[m[1]].args]
                    if "gcols" in d and None in d:
                        return ("F", 0)
                    if "lcols" in d and None in d:
                        return ("L", 0)
        if i.op == "select":
            c = w.val(i.args[0], env)
            if isinstance(c, int):
                return self.dom(i.args[1] if c & 1 else i.args[2], env, i.blk, w, depth + 1)
        return None

    def under(self, op):
        while op[0] == "v" and self.f.insts[op[1]].op in CASTS:
            op = self.f.insts[op[1]].args[0]
        return op if op[0] == "v" else None

    # ---- the walk
    def run(self):
        f = self.f
        arrs = [i for i in f.all_insts() if i.op in ("load", "store") and self.elemof(i.args[-1])]
        if not arrs:
            return
        fl = self.flags()[:4]
        keep = self.keepset()
        for bits in range(1 << len(fl)):
            env0 = dict((("a", k), bits >> n & 1) for n, k in enumerate(fl))
            w = Walker(f, 20000, keep)

            def step(i, st, env, w):
                if i.op == "load":
                    if i.ty == "ptr":
                        e = self.S.expr(f, i.args[0])
                        if e[0] == "fld" and e[2] == "pos_idx_" and e[1] == ("this",):
                            return [(st, {("v", i.id): NN})]
                    self.use(i, i.args[0], st, env, w)
                if i.op == "store":
                    self.use(i, i.args[1], st, env, w)
                    el = self.elemof(i.args[1])
                    if el and el[0] in VAL:
                        t = self.dom(i.args[0], env, i.blk, w)
                        if t:
                            self.judge(i, t == (VAL[el[0]], 0), "what is put into %s is %s (it holds %s)" % (el[0], WORD[t[0]], WORD[VAL[el[0]]].replace("a cell", "cells").replace("a valid cell", "valid cells")))
                if i.op == "call" and i.callee:
                    n = self.p.q(i.callee).split("::")[-1]
                    if n in ("Initialize1DArray", "Initialize2DArray") and len(i.args) > (2 if n[10] == "2" else 1):
                        a = i.args[2 if n[10] == "2" else 1]
                        t = self.dom(i.args[0], env, i.blk, w)
                        d = dict(st)
                        d.pop(a, None)
                        if t:
                            d[a] = t
                        return [(tuple(sorted(d.items())), None)]
                    return [(st, None)]
                if i.op in ("load", "mul", "add", "select") and ("v", i.id) in keep:
                    t = self.calc(i, env, w)
                    if t:
                        return [(st, {("v", i.id): ("dom",) + t})]
                return [(st, None)]
            w.run([(0, 0, env0, ())], step)
            self.over = self.over or w.overflow

    def use(self, i, addr, st, env, w):
        el = self.elemof(addr)
        if not el:
            return
        t = self.dom(el[1], env, i.blk, w)
        if not t:
            return
        if isinstance(el[0], str):
            # an index counted over a bound that is not known to belong to this object is compared by domain only
            ok = t == (ARR[el[0]], 0) or t == ("F", 0) and el[0] in ("raster_", "raster_2d_")  # without positions every cell counts (that positions are used when they exist is decided by compact.py)
            self.judge(i, ok, "%s[...] is indexed with %s%s" % (el[0], WORD[t[0]], " times the layers" if t[1] else ""))
        else:
            d = dict(st).get(el[0])
            if d:
                ok = d[0] == t[0] and not (t[1] and not d[1])
                self.judge(i, ok, "a buffer for %s%s is indexed with %s%s" % (WORD[d[0]].replace("a cell", "the cells").replace("a valid cell", "the valid cells"), " and layer" if d[1] else "", WORD[t[0]], " times the layers" if t[1] else ""))

    def judge(self, i, ok, text):
        self.judged.add(i.id)
        if not ok:
            self.found.setdefault(i.id, (i, text))
