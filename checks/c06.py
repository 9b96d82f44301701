"""C06: for every accessor and every way a cell/layer argument can lie outside the raster (or the raster can be empty),
reachability under that assumption shows that no array element of the raster is touched and NoData / a negative
position is what comes back."""
from raster import *
from sym import subst, show
from effects import path_of
from poly import is_const, cval

TECH = "IR reachability under assumed out-of-range facts (conditional constant propagation with linear integer facts, interprocedural)"
NOTE = "Decides, for every accessor and every way an argument can be out of range, that no element access is reachable; helper functions are followed. Trusts clang IR, the header map holding integral NROWS/NCOLS."

API = [  # member, parameter type shape, roles of the parameters, result
    ("GetValue", ("int", "int", "int"), ("row", "col", "lyr"), "nodata"),
    ("GetValue", ("int", "int", "*&"), ("row", "col", None), None),
    ("SetValue", ("int", "int", "T", "int"), ("row", "col", None, "lyr"), None),
    ("GetPosition", ("int", "int"), ("row", "col"), "negative"),
    ("GetValueByIndex", ("int", "int"), ("idx", "lyr"), "nodata"),
    ("GetValueByIndex", ("int", "*&"), ("idx", None), None),
    ("IsNoData", ("int", "int", "int"), ("row", "col", "lyr"), None),
    ("GetStatistics", ("string", "int"), (None, "lyr"), None),
]
BOUND = {"row": NROWS, "col": NCOLS, "idx": NCELLS, "lyr": NLYRS}
PROTECTED = ("raster_", "raster_2d_", "pos_data_", "pos_idx_", "stats_2d_")


def shape(f):
    out = []
    for n, name, ty in uparams(f):
        t = ty.replace("const ", "")
        if t.endswith("*&"):
            t = "*&"
        out.append(t)
    return out


def matches(sh, want):
    return len(sh) == len(want) and all(w == "T" or s == w for s, w in zip(sh, want))


def provides(R, E, w, arr, facts, binding, depth=0):
    """the instruction gives the object its array, although the object may hold no data"""
    p, S, f = R.p, R.s, w.fn
    if w.op == "store":
        return S.expr(f, w.args[1]) == fld(arr)[1] and w.args[0][0] != "null"
    if w.op != "call" or not w.callee or p.q(w.callee).split("::")[-1].startswith(("Release", "~")):
        return False
    es = [S.expr(f, a) for a in w.args]
    if fld(arr)[1] in es:
        return True
    g = p.fns.get(w.callee)
    if g is None or not g.blocks or not g.this or ("this",) not in es[:2] or depth > 6 or not any(r == ("this",) and q and q[0][1:] == arr and len(q) == 1 for r, q in E.summary(g)):
        return False
    nb = tuple(R.rexpr(f, x, binding) for x in w.args)
    r = R.run(g, facts, nb)
    return any(provides(R, E, x, arr, facts, nb, depth + 1) for b in r.blocks for x in g.blocks[b])


def provided(R, E, f0, facts, chain, i, arr):
    """on the way to the access the array is made first"""
    binding = R.bind(f0)
    for site in chain + [i]:
        f = site.fn
        if site.op == "call" and any(R.s.expr(f, a) == fld(arr)[1] for a in site.args):
            return True  # the array is what the callee makes
        r = R.run(f, facts, binding)
        for w in f.all_insts():
            if w.id != site.id and w.blk in r.blocks and (w.blk == site.blk and w.idx < site.idx or w.blk != site.blk and site.blk in f.reach(w.blk)) and provides(R, E, w, arr, facts, binding):
                return True
        binding = tuple(R.rexpr(f, x, binding) for x in site.args) if site.op == "call" else None
    return False


def touches(R, f, facts, binding, chain, depth=0, seen=None, only=PROTECTED, skip=None):
    """first element access of a protected array reachable under the facts: (inst, expr, call chain)"""
    seen = seen if seen is not None else set()
    k = (f.name, binding)
    if k in seen or depth > 6:
        return None
    seen.add(k)
    r = R.run(f, facts, binding)
    for b in sorted(r.blocks):
        for i in f.blocks[b]:
            if i.op in ("load", "store"):
                a = i.args[0] if i.op == "load" else i.args[1]
                for e in R.e.resolve(f, a):
                    x = subst(e, f, binding)
                    if x is None:
                        continue
                    root, path = path_of(x)
                    if root == ("this",) and path and path[0][1:] in only and path[-1] == "[]" and "*" in path and not (skip and skip(chain, i)):
                        return i, x, chain
            elif i.op == "call" and i.callee in R.p.fns and not R.noreturn_call(f, b):
                g = R.p.fns[i.callee]
                if not g.file.startswith(R.p.repo):
                    continue
                nb = tuple(R.rexpr(f, x, binding) for x in i.args)
                # only calls that work on this raster
                t = touches(R, g, facts, nb, chain + [i], depth + 1, seen, only, skip)
                if t:
                    return t
    return None


def ret_exprs(R, f, facts):
    """expressions returned on the blocks reachable under the facts"""
    r = R.run(f, facts)
    out = set()

    def walk(op, seen):
        if op in seen:
            return
        seen.add(op)
        if op[0] == "v" and f.insts[op[1]].op == "phi":
            ph = f.insts[op[1]]
            for v, b in ph.args:
                if (b, ph.blk) in r.edges:
                    walk(v, seen)
            return
        if op[0] == "v" and f.insts[op[1]].op == "call" and f.insts[op[1]].callee in R.p.fns:
            # result of another accessor: its own results under the same assumption
            i = f.insts[op[1]]
            v = R.eval(f, op, facts, R.bind(f), r, {}, i.blk)
            if v is not None:
                for x in v:
                    out.add(("c", x))
                return
        out.add(R.s.expr(f, op))
    for b in r.blocks:
        t = f.term(b)
        if t.op == "ret" and t.args:
            walk(t.args[0], set())
    return out


def check(ctx, rep):
    p, R = ctx.prog(), ctx.reach()
    rep.rule("under each assumption 'argument out of range' or 'raster holds no data' made at the entry of an accessor, no load or store of an element of "
             "raster_, raster_2d_, pos_data_, pos_idx_ or a layer statistic is reachable, also through the functions it calls, and the result is NoData / negative")
    n = 0
    for inst in ("<int, int>", "<float, int>"):
        for name, want, roles, result in API:
            fs = [f for f in members(p, name, inst) if matches(shape(f), want)]
            if len(fs) != 1:
                continue
            f = fs[0]
            n += 1
            ups = uparams(f)
            cases = []
            null2 = [("eq", fld("raster_"), ("null",)), ("eq", fld("raster_2d_"), ("null",))]
            if inst == "<int, int>" or True:
                cases.append(("the raster holds no 1D data", [("eq", fld("raster_"), ("null",)), ("false", fld("is_2draster"))]))
                cases.append(("the raster holds no 2D data", [("eq", fld("raster_2d_"), ("null",)), ("true", fld("is_2draster"))]))
            for (k, pn, ty), role in zip(ups, roles):
                if not role:
                    continue
                a = ("arg", k)
                lo = ("c", 1 if role == "lyr" else 0)
                hi = BOUND[role]
                cases.append(("%s %s %s" % (pn, "<", lo[1]), [("slt", a, lo)]))
                if role == "lyr":
                    cases.append(("%s > number of layers" % pn, [("sgt", a, hi)]))
                else:
                    cases.append(("%s >= number of %s" % (pn, {"row": "rows", "col": "columns", "idx": "cells"}[role]), [("sge", a, hi)]))
            for what, fx in cases:
                # both the single-layer and the multi-layer form of the raster are covered
                F = R.facts(fx)
                t = touches(R, f, F, R.bind(f), [])
                key = "%s(%s)|%s" % (name, ",".join(want), what)
                where = "%s:%d" % (f.shortfile, f.line)
                if t:
                    i, x, chain = t
                    via = " via " + " -> ".join(p.q(c.callee).split("::")[-1] for c in chain) if chain else ""
                    rep.ob(False, key, i.where(), "%s(%s): when %s, the element %s is still accessed%s" % (name, ", ".join(u[1] for u in ups), what, show(x, f), via))
                    continue
                if result and "no " not in what or result:
                    bad = []
                    for e in ret_exprs(R, f, F):
                        if result == "nodata" and e == fld("no_data_value_"):
                            continue
                        if result == "nodata" and e[0] == "call" and e[1].split("::")[-1] in ("GetNoDataValue", "GetValueByIndex", "GetValue"):
                            continue
                        if result == "negative" and e[0] == "c" and e[1] < 0:
                            continue
                        bad.append(e)
                    if bad:
                        rep.ob(False, key + "|result", where, "%s: when %s, the result may be %s instead of %s" % (name, what, show(bad[0], f), result))
                        continue
                rep.ob(True, key, where, "%s: %s -> no element touched%s" % (name, what, ", result " + result if result else ""))
            accepts(rep, R, p, f, name, want, ups, roles)
    rep.count("accessors", n)
    rep.need(n, 16, "cell accessors")
    empty(ctx, rep, p, R)
    negatives(ctx, rep, p, R)


def empty(ctx, rep, p, R):
    """operations on the whole raster do not touch the array that a raster without data does not have"""
    rep.rule("under the assumption 'the raster holds no data' made at the entry of a public operation that does not itself provide the data, no load or store of an element of the missing array is reachable")
    E = ctx.effects()
    n = 0
    for inst in ("<int, int>", "<float, int>"):
        for f in members(p, None, inst):
            name = p.q(f.name).split("::")[-1]
            if f.acc in (0, 1, 2) or name == "clsRasterData" or name.startswith("~"):
                continue
            for arr, flag, what in (("raster_", "false", "1D"), ("raster_2d_", "true", "2D")):
                F = R.facts([("eq", fld(arr), ("null",)), (flag, fld("is_2draster"))])
                t = touches(R, f, F, R.bind(f), [], only=(arr,), skip=lambda chain, i: any(provided(R, E, f, F, chain, i, a) for a in ("raster_", "raster_2d_")))
                n += 1
                key = "%s|no %s data" % (name, what)
                via = " via " + " -> ".join(p.q(c.callee).split("::")[-1] for c in t[2]) if t and t[2] else ""
                rep.ob(not t, key, t[0].where() if t else f.where(), "%s: when the raster holds no %s data, %s" % (name, what, "the element %s is still accessed%s" % (show(t[1], f), via) if t else "no element of it is accessed"))
    rep.count("public operations without data", n)
    rep.need(n, 60, "public operations")


def accepts(rep, R, p, f, name, want, ups, roles):
    """the first and last row, column, cell and layer are inside: the accessor reaches the data for them"""
    if name == "GetStatistics":
        return
    base = [("ne", fld("raster_"), ("null",)), ("false", fld("is_2draster"))]
    inside = {}
    for (k, pn, ty), role in zip(ups, roles):
        if role:
            lo = ("c", 1 if role == "lyr" else 0)
            inside[k] = (pn, role, lo)
    for k, (pn, role, lo) in inside.items():
        for side in ("first", "last"):
            fx = list(base)
            for k2, (pn2, role2, lo2) in inside.items():
                a, hi = ("arg", k2), BOUND[role2]
                last = hi if role2 == "lyr" else ("bin", "sub", hi, ("c", 1))
                if k2 == k:
                    fx.append(("eq", a, lo2 if side == "first" else last))
                fx.append(("sge", a, lo2))
                fx.append(("sle", a, last))
            F = R.facts(fx)
            key = "%s(%s)|%s %s" % (name, ",".join(want), side, pn)
            where = "%s:%d" % (f.shortfile, f.line)
            if name == "GetPosition":
                r = R.run(f, F)
                ok = None in r.rets or any(v >= 0 for v in r.rets)
            else:
                ok = touches(R, f, F, R.bind(f), []) is not None
            rep.ob(ok, key, where, "%s: the %s %s of a raster is %s" % (name, side, {"row": "row", "col": "column", "idx": "cell", "lyr": "layer"}[role],
                                                                  "accepted" if ok else "rejected although it lies inside"))


def negatives(ctx, rep, p, R):
    """a looked-up position is used as an element index only where its error results are excluded"""
    rep.rule("where the result of GetPosition indexes the raster, each negative result that GetPosition can give under the conditions holding there is excluded before")
    n = 0
    for f in members(p):
        for i in f.all_insts():
            if i.op not in ("load", "store"):
                continue
            a = i.args[0] if i.op == "load" else i.args[1]
            e = R.s.expr(f, a)
            root, path = path_of(e)
            if not (root == ("this",) and path and path[0][1:] in PROTECTED and "[]" in path):
                continue
            for c in calls_in(e, "GetPosition"):
                gi = [g for g in members(p, "GetPosition") if len(g.params) == len(c) - 2]
                inst = [j for j in f.all_insts() if j.op == "call" and j.callee in p.fns and R.s.expr(f, ("v", j.id)) == c]
                if not inst:
                    continue
                g = p.fns[inst[0].callee]
                n += 1
                here = [x for x in R.s.facts(f, i.blk)]
                r = R.run(g, R.facts(here), c[2:])
                for v in sorted(x for x in r.rets if x is not None and x < 0):
                    rr = R.run(f, R.facts([("eq", c, ("c", v))]))
                    ok = i.blk not in rr.blocks
                    rep.ob(ok, "%s|position %d|%s" % (p.q(f.name).split("::")[-1], v, path[0]), i.where(),
                           "%s: the element %s is %s when GetPosition reports %d" % (p.q(f.name).split("::")[-1], show(e, f), "not accessed" if ok else "accessed even", v))
    rep.count("positions used as index", n)


def calls_in(e, last):
    out = []
    if isinstance(e, tuple):
        if e and e[0] == "call" and e[1].split("::")[-1] == last:
            out.append(e)
        for x in e[1:]:
            out += calls_in(x, last)
    return out
