"""Compacted rasters: the flag that says that positions decide where a cell is, the shift of positions to a smaller extent,
the layer an accessor is asked for, and the bounds of a search in the sorted positions."""
import grid
from ir import REPO
from paths import Walker
from poly import Poly, add, const
from raster import members, uparams
from sym import show

POS = ("pos_data_", "pos_idx_")
FLAG = "calc_pos_"


def thisfld(e, names):
    return isinstance(e, tuple) and e[0] == "fld" and e[1] == ("this",) and e[2] in names


# ---- positions are held => the flag is set
class Flag:
    """state: (positions given a value on this path?, flag: 'U' as at entry, 1, 0, None)"""

    def __init__(self, p, S):
        self.p, self.S = p, S
        self.memo = {}

    def fills(self, f, i, k):
        """the call may put an array into what its argument k refers to"""
        g = self.p.fns.get(i.callee)
        return g is not None and g.blocks and any(x.op == "store" and x.args[1] == ("a", k) and x.args[0][0] != "null" for x in g.all_insts()) or \
            g is not None and any(x.op == "call" and x.callee and any(a == ("a", k) and self.fills(g, x, n) for n, a in enumerate(x.args)) for x in g.all_insts() if x.callee != g.name)

    def run(self, f, start):
        key = (f.name, start)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset({(start[0], None, f.where())})
        S = self.S
        outs = set()

        def step(i, st, env, w):
            got, fl, at = st
            if i.op == "store":
                e = S.expr(f, i.args[1]) if i.args[1][0] in ("v", "a") else None
                if thisfld(e, POS):
                    if i.args[0][0] == "null":
                        return [((False, fl, at), None)] if e[2] == POS[1] or not got else [(st, None)]
                    v = S.expr(f, i.args[0]) if i.args[0][0] == "v" else None
                    if v and v[0] == "ld" and thisfld(v[1], POS):
                        return [(st, None)]
                    return [((True, self.sure(f, i, fl), i.where()), None)]
                if thisfld(e, (FLAG,)):
                    v = w.val(i.args[0], env)
                    return [((got, (v & 1) if isinstance(v, int) else None, at), None)]
            elif i.op == "load":
                e = S.expr(f, i.args[0]) if i.args[0][0] in ("v", "a") else None
                if thisfld(e, (FLAG,)):
                    if fl in (0, 1):
                        return [(st, {("v", i.id): fl})]
                    if fl == "U" or fl is None:
                        return [((got, 1, at), {("v", i.id): 1}), ((got, 0, at), {("v", i.id): 0})]
            elif i.op == "ret":
                outs.add(st)
                return None
            elif i.op == "call" and i.callee:
                for k, a in enumerate(i.args):
                    e = S.expr(f, a) if a[0] in ("v", "a") else None
                    if thisfld(e, POS) and self.fills(f, i, k):
                        return [((True, self.sure(f, i, fl), i.where()), None)]
                g = self.p.fns.get(i.callee)
                if g is not None and g.blocks and g.this and i.args and S.expr(f, i.args[g.this[1]]) == ("this",) and "clsRasterData" in g.name and g.name != f.name:
                    return [(o, None) for o in self.run(g, st)]
            return [(st, None)]
        w = Walker(f, limit=60000)
        w.run([(0, 0, {}, start)], step, lambda b, s, st, env: st)
        r = frozenset(outs)
        self.memo[key] = r
        return r

    def sure(self, f, i, fl):
        if fl == "U" and any(t[0] == "true" and t[1] == ("ld", ("fld", ("this",), FLAG)) for t in self.S.facts(f, i.blk) if len(t) == 2):
            return 1
        return fl


def flag(p, S, rep):
    rep.rule("an operation that gives the raster valid positions leaves it with the flag set by which the accessors look them up")
    F = Flag(p, S)
    n = 0
    for inst in ("<int, int>", "<float, int>"):
        for f in members(p, None, inst):
            nm = p.q(f.name).split("::")[-1]
            if f.acc in (0, 1, 2) and nm != "CalculateValidPositionsFromGridData":
                continue
            bad = sorted({o[2] for o in F.run(f, (False, "U", f.where())) if o[0] and o[1] in ("U", 0)})
            got = any(o[0] for o in F.run(f, (False, "U", f.where())))
            if got:
                n += 1
                rep.ob(not bad, "flag after %s" % nm, bad[0] if bad else f.where(), "%s gives the raster positions and %s" % (nm, "leaves the flag set" if not bad else "may leave the flag cleared: cells are then looked up as if none were left out"))
    rep.count("operations that give a raster positions", n)
    rep.need(n, 8, "operations that give a raster positions")


# ---- positions are shifted only together with the header
def shift(p, S, rep):
    rep.rule("rows and columns of positions are shifted only under the condition under which the header gets the shifted extent")
    n = 0
    for f in p.project():
        if "::data_raster::" not in p.q(f.name):
            continue
        heads = []
        for i in f.all_insts():
            if i.op == "store":
                a = S.expr(f, i.args[1])
                if header_key(a) in ("XLLCENTER", "YLLCENTER", "NROWS", "NCOLS"):
                    heads.append((i, S.expr(f, i.args[0])))
            elif i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "UpdateHeader" and len(i.args) == 3:
                k = S.expr(f, i.args[1])
                v = S.expr(f, i.args[2])
                heads.append((i, v))
        for i in f.all_insts():
            if i.op != "sub":
                continue
            e = S.expr(f, ("v", i.id))
            if e[0] != "bin" or e[3][0] != "phi" or e[2][0] != "ld":
                continue
            # stored back to where it was loaded from
            if not any(u.op == "store" and u.args[0] == ("v", i.id) and S.expr(f, u.args[1]) == e[2][1] for u in f.uses().get(("v", i.id), [])):
                continue
            hs = [h for h in heads if contains(h[1], e[3]) or contains(S.expr(f, h[0].args[0]) if h[0].op == "store" else h[1], e[3])]
            if not hs:
                continue
            n += 1
            here = S.facts(f, i.blk)
            miss = set()
            for h, v in hs:
                for t in S.facts(f, h.blk):
                    if len(t) == 2 and t[0] in ("true", "false") and isinstance(t[1], tuple) and t[1][0] == "phi" and t not in here:
                        miss.add(h)
            nm = p.q(f.name).split("::")[-1]
            rep.ob(not miss, "%s shifts positions" % nm, i.where(), "%s: positions are moved to the smaller extent %s" % (nm, "together with the header" if not miss else "also when the header is not"))
    rep.count("shifts of positions", n)


def header_key(a):
    while isinstance(a, tuple) and a:
        if a[0] in ("mapval", "mapat") and isinstance(a[2], tuple) and a[2][0] == "str":
            return a[2][1]
        if a[0] == "call" and a[1].split("::")[-1] in ("at", "operator[]") and len(a) == 4 and a[3][0] == "str":
            return a[3][1]
        return None
    return None


def contains(e, x):
    return e == x or isinstance(e, tuple) and any(contains(y, x) for y in e)


# ---- layer k is entry k-1
def layer(p, S, rep):
    rep.rule("an accessor that is given a layer k uses entry k-1, whatever the branch")
    n = 0
    for f in members(p):
        lyr = {k for k, nm, ty in uparams(f) if takes_layer(p, S, f, k)}
        if not lyr:
            continue
        nm = p.q(f.name).split("::")[-1]
        for i in f.all_insts():
            if i.op not in ("load", "store"):
                continue
            a = S.expr(f, i.args[-1])
            if a[0] != "idx":
                continue
            two = a[1][0] == "ld" and a[1][1][0] == "idx" and a[1][1][1][0] == "ld" and thisfld(a[1][1][1][1], ("raster_2d_",))
            stat = not two and contains(a[1], ("fld", ("this",), "stats_2d_"))
            if not (two or stat):
                continue
            n += 1
            g = gep(f, i.args[-1])
            vals = [S.expr(f, v) for v, b in grid.split(f, g, i.blk)] if g is not None else [a[2]]
            P = Poly()
            bad = None
            for v in vals:
                v = peel(v)
                args = [x for x in lyr if contains(v, ("arg", x))]
                if not args and v[0] != "c":
                    args = []
                for x in args:
                    try:
                        d = add(P.poly(v), P.poly(("arg", x)), -1)
                    except Exception:
                        continue
                    if d != const(-1):
                        bad = v
                if not args and any(contains(peel(S.expr(f, y)), ("arg", x)) for x in lyr for y, b in (grid.split(f, g, i.blk) if g else [])):
                    bad = v
            if bad is None and len(vals) > 1 and any(contains(v, ("arg", x)) for v in vals for x in lyr) and not all(any(contains(v, ("arg", x)) for x in lyr) for v in vals):
                bad = vals
            rep.ob(bad is None, "layer in %s" % nm, i.where(), "%s: the entry used for the layer that was asked for is %s" % (nm, show(a[2], f) if bad is None else "%s, not one less than the layer" % (show(bad, f) if isinstance(bad, tuple) else "not always that of the layer")))
    rep.count("entries of layers", n)
    rep.need(n, 3, "entries of layers")


def peel(e):
    while e[0] in ("zx", "sx", "cast"):
        e = e[1]
    return e


def gep(f, op):
    """index operand of the element address"""
    if op[0] == "v" and f.insts[op[1]].op == "getelementptr" and len(f.insts[op[1]].args) == 2:
        o = f.insts[op[1]].args[1]
        while o[0] == "v" and f.insts[o[1]].op in ("sext", "zext", "trunc"):
            o = f.insts[o[1]].args[0]
        return o
    return None


def takes_layer(p, S, f, k):
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "ValidateLayer" and ("a", k) in i.args:
            return True
        if i.op == "icmp":
            es = [S.expr(f, a) for a in i.args]
            if ("arg", k) in es and any(contains(e, ("fld", ("this",), "n_lyrs_")) for e in es):
                return True
    return False


# ---- searching the sorted positions
def search(p, S, rep):
    rep.rule("a search that halves the range between two cursors starts with a range that covers the array, and stays in it")
    n = 0
    for f in p.project():
        if "::data_raster::" not in p.q(f.name):
            continue
        nm = p.q(f.name).split("::")[-1]
        seen = set()
        for i in f.all_insts():
            if i.op != "load":
                continue
            a = S.expr(f, i.args[0])
            if a[0] != "idx" or a in seen or not (a[1][0] == "ld" and thisfld(a[1][1], ("pos_idx_",)) or a[1][0] == "ld" and a[1][1][0] == "idx"):
                continue
            seen.add(a)
            r = halves(a[2])
            if r is None:
                continue
            lo, hi = r
            facts = S.facts(f, i.blk)
            closed = any(t in facts for t in (("sle", lo, hi), ("sge", hi, lo)))
            open_ = any(t in facts for t in (("slt", lo, hi), ("sgt", hi, lo)))
            if not (closed or open_):
                continue
            n += 1
            ph = f.insts.get(hi[1])
            loops = f.natural_loops()
            body = loops.get(ph.blk, set())
            P = Poly()
            want = ("bin", "sub", ("ld", ("fld", ("this",), "n_cells_")), ("c", 1)) if closed and not open_ else ("ld", ("fld", ("this",), "n_cells_"))
            bad = None
            for v, pb in ph.args:
                if pb in body:
                    continue
                for v2, b2 in grid.split(f, v, pb):
                    e = S.expr(f, v2)
                    try:
                        d = add(P.poly(e), P.poly(want), -1)
                    except Exception:
                        continue
                    if set(d) <= {()} and d.get((), 0) != 0:
                        bad = "ends at %s" % show(e, f)
            pl = f.insts.get(lo[1])
            for v, pb in pl.args:
                if pb in body:
                    continue
                for v2, b2 in grid.split(f, v, pb):
                    e = S.expr(f, v2)
                    if e[0] == "c" and e[1] != 0:
                        bad = "starts at %s" % show(e, f)
            rep.ob(bad is None, "search in %s" % nm, i.where(), "%s: the range that is searched %s" % (nm, "is the whole array" if bad is None else bad))
    rep.count("searches", n)


def halves(e):
    """(low, high) cursors of which e is the middle"""
    e = peel(e)
    if e[0] == "bin" and e[1] == "add":
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            a, b = peel(a), peel(b)
            if a[0] == "phi" and b[0] == "bin" and b[1] in ("sdiv", "udiv", "lshr", "ashr") and b[3] in (("c", 2), ("c", 1)):
                d = peel(b[2])
                if d[0] == "bin" and d[1] == "sub" and peel(d[3]) == a and peel(d[2])[0] == "phi":
                    return a, peel(d[2])
    if e[0] == "bin" and e[1] in ("sdiv", "udiv", "lshr", "ashr"):
        d = peel(e[2])
        if d[0] == "bin" and d[1] == "add" and peel(d[2])[0] == "phi" and peel(d[3])[0] == "phi":
            return peel(d[2]), peel(d[3])
    return None
