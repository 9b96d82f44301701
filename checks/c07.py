"""C07: cell <-> coordinate conversions as polynomials over the header. The forward conversion must be the grid formula;
each inverse conversion, applied to an arbitrary point of an arbitrary cell (first, last, or any), must not be able to
reject it and must return that cell; points outside or on the outer border must be rejected or bounded by an integer test."""
from fractions import Fraction
from raster import *
from sym import subst, show
from poly import Poly, add, const, is_const, cval, mul, atom, key as pkey
from grid import pair_results, split, map_bases, uleaves, unpack
from effects import repl
from core import AnalysisBroken

TECH = "symbolic polynomial normal form of the conversions over the IR, composition of forward and inverse, reachability under assumed positions"
NOTE = "Decides agreement of all conversions on one grid for symbolic header, cell and in-cell offset (real arithmetic; nine offsets per cell corner/centre) and that outside points cannot yield an index >= the limits. Rounding at the exact border is only required to stay inside the raster (integer test)."

ROW, COL = ("opq", "ROW"), ("opq", "COL")


def header_syms(M):
    g = lambda k: ("mapval", M, ("str", k))
    return g("XLLCENTER"), g("YLLCENTER"), g("CELLSIZE"), ("f2i", g("NROWS")), ("f2i", g("NCOLS"))


def B(o, a, b):
    return ("bin", o, a, b)


def F(x):
    return ("f", repr(float(x)))


def check(ctx, rep):
    p, R = ctx.prog(), ctx.reach()
    S = R.s
    P = R.P
    rep.rule("forward conversion == (xll + col*size, yll + (rows-1-row)*size) as polynomials; inverse(forward(row, col) + offset inside the cell) is reachable only with result (row, col); "
             "a returned row/column is guarded by row < rows, column < columns (or handed to the validated cell look-up)")
    ov = {}
    this_h = ("fld", ("this",), "headers_")
    xn, yn = RC + "::GetXllCenter", RC + "::GetYllCenter"
    ov[xn] = lambda a: ("mapval", ("fld", a[0], "headers_"), ("str", "XLLCENTER"))
    ov[yn] = lambda a: ("mapval", ("fld", a[0], "headers_"), ("str", "YLLCENTER"))
    # the getters themselves
    for inst in ("<int, int>", "<float, int>"):
        for nm, k, kc in (("GetXllCenter", "XLLCENTER", "XLLCORNER"), ("GetYllCenter", "YLLCENTER", "YLLCORNER")):
            for f in members(p, nm, inst):
                getter(rep, p, R, f, nm, k, kc)
    S.override.update(ov)
    S.cache.clear(); S.summ.clear(); R.cache.clear()
    n = 0
    for inst in ("<int, int>", "<float, int>"):
        for f in members(p, "GetCoordinateByRowCol", inst):
            n += 1
            forward(rep, p, R, f)
        for f in members(p, "GetPositionByCoordinate", inst):
            n += 1
            inverse(rep, p, R, f, pair=True)
        for f in members(p, "GetPosition", inst):
            ups = uparams(f)
            if [u[2].replace("const ", "") for u in ups] == ["double", "double"]:
                n += 1
                inverse(rep, p, R, f, pair=False)
            elif [u[2].replace("const ", "") for u in ups] == ["float", "float"]:
                n += 1
                forwards_to(rep, p, S, f)
    rep.count("conversions", n)
    rep.need(n, 8, "coordinate conversions")


def getter(rep, p, R, f, nm, k, kc):
    h = ("fld", ("this",), "headers_")
    kv, kcv = ("mapval", h, ("str", k)), ("mapval", h, ("str", kc))
    cs = ("mapval", h, ("str", "CELLSIZE"))
    for what, facts, want in (
            ("the header has " + k, [("true", ("has", h, ("str", k)))], kv),
            ("the header has only " + kc, [("false", ("has", h, ("str", k))), ("true", ("has", h, ("str", kc)))],
             B("fadd", kcv, B("fmul", F(0.5), cs)))):
        FX = R.facts(facts)
        r = R.run(f, FX)
        vals = []
        for b in r.blocks:
            t = f.term(b)
            if t.op == "ret":
                vals += [R.s.expr(f, o) for o in R.leaves(f, t.args[0], r)]
        ok = bool(vals) and all(R.P.poly(v) == R.P.poly(want) for v in vals)
        rep.ob(ok, "%s|%s" % (nm, what), "%s:%d" % (f.shortfile, f.line), "%s: when %s, the result is %s" % (nm, what, ", ".join(show(v, f) for v in vals[:3])))


def forward(rep, p, R, f):
    S, P = R.s, R.P
    ups = uparams(f)
    row, col = ("arg", ups[0][0]), ("arg", ups[1][0])
    XLL, YLL, CS, NR, NC = header_syms(("fld", ("this",), "headers_"))
    rs = pair_results(p, S, f)
    if not rs:
        raise AnalysisBroken("no resulting pair found in GetCoordinateByRowCol")
    wx = P.poly(B("fadd", XLL, B("fmul", col, CS)))
    wy = P.poly(B("fadd", YLL, B("fmul", B("sub", B("sub", NR, ("c", 1)), row), CS)))
    for i, a, b in rs:
        for which, op, want in (("x", a, wx), ("y", b, wy)):
            for o, blk in split(f, op, i.blk):
                e = S.expr(f, o)
                rep.ob(P.poly(e) == want, "forward|" + which, i.where(), "the %s coordinate of cell (row, col) is %s" % (which, show(e, f)))


def results(p, R, f, pair):
    """[(inst, row operand, column operand)] ; constants are rejections"""
    if pair:
        return pair_results(p, R.s, f)
    out = []
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee) == RC + "::GetPosition" and len(i.args) == 3:
            out.append((i, i.args[1], i.args[2]))
    return out


def inverse(rep, p, R, f, pair):
    S, P = R.s, R.P
    ups = uparams(f)
    ax, ay = ups[0][0], ups[1][0]
    name = "GetPositionByCoordinate" if pair else "GetPosition(x, y)"
    bases = map_bases(S, f, "XLLCENTER")
    if len(bases) != 1:
        raise AnalysisBroken("%s: %d header maps used for the origin" % (name, len(bases)))
    XLL, YLL, CS, NR, NC = header_syms(bases[0])
    res = results(p, R, f, pair)
    hits = [x for x in res if not all(R.s.expr(f, o)[0] == "c" for o in x[1:])]
    if not hits:
        raise AnalysisBroken("%s: no computed row and column found" % name)
    g1, g2 = B("sub", B("sub", NC, ("c", 1)), COL), B("sub", B("sub", NR, ("c", 1)), ROW)
    base = [("sge", COL, ("c", 0)), ("sge", g1, ("c", 0)), ("sge", ROW, ("c", 0)), ("sge", g2, ("c", 0)), ("sge", CS, ("c", 1)),
            ("sge", B("mul", COL, CS), ("c", 0)), ("sge", B("mul", g1, CS), ("c", 0)), ("sge", B("mul", ROW, CS), ("c", 0)), ("sge", B("mul", g2, CS), ("c", 0)),
            ("true", ("ld", ("fld", ("this",), "initialized_")))]
    E = Fraction(7, 16)
    where = "%s:%d" % (f.shortfile, f.line)

    def bind(dx, dy):
        x = B("fadd", XLL, B("fmul", B("fadd", COL, F(dx)), CS))
        y = B("fadd", YLL, B("fmul", B("fsub", B("sub", B("sub", NR, ("c", 1)), ROW), F(dy)), CS))
        b = list(R.bind(f))
        b[ax], b[ay] = x, y
        return tuple(b)
    # inside
    offs = [(dx, dy) for dx in (0, -E, E) for dy in (0, -E, E)]
    for dx, dy in offs:
        bd = bind(dx, dy)
        half = Fraction(1, 2)
        cell = []
        for cv, d in ((ROW, dy), (COL, dx)):
            q = B("fadd", cv, F(half + d))
            cell.append(("eq", ("f2i", q), cv))
            for fl in ("llvm.floor.f64", "floor", "llvm.trunc.f64", "trunc", "std::floor"):
                cell.append(("eq", ("f2i", ("call", fl, q)), cv))
        FX = R.facts(base + cell)
        r = R.run(f, FX, bd)
        key = "%s|inside %s %s" % (name, float(dx), float(dy))
        pt = "a point at (%.2f, %.2f) cell sizes from the centre of cell (row, col)" % (float(dx), float(dy))
        bad = rejects(p, R, f, res, r, bd, pair)
        if bad:
            rep.ob(False, "%s|rejects inside" % name, bad, "%s: %s may be reported as outside" % (name, pt))
            continue
        ok = True
        live = [h for h in hits if h[0].blk in r.blocks]
        for i, ro, co in live:
            for what, op, want, d in (("row", ro, ROW, dy), ("column", co, COL, dx)):
                for o, ob in uleaves(f, op, r.edges):
                    e = R.rexpr(f, o, bd)
                    if e[0] == "c" and e[1] < 0:
                        continue  # a rejection, judged above
                    if e[0] == "c":
                        ok = False
                        rep.ob(False, "%s|%s constant" % (name, what), i.where(), "%s: the %s of %s is the constant %s" % (name, what, pt, e[1]))
                        continue
                    q = trunc_arg(e)
                    w = add(P.poly(want), const(Fraction(1, 2) + d))
                    if q is None or P.poly(q) != w:
                        if q is not None and P.poly(q) == add(w, const(-Fraction(1, 2))) and is_round(e):
                            continue
                        ok = False
                        rep.ob(False, "%s|%s formula" % (name, what), i.where(),
                               "%s: for %s the returned %s is %s, which is not that cell's %s" % (name, pt, what, show(R.s.expr(f, o), f), what))
        if not live:
            ok = False
            rep.ob(False, "%s|no result" % name, where, "%s: %s never gets a cell" % (name, pt))
        if ok:
            rep.ob(True, key, where, "%s returns (row, col) for %s" % (name, pt))
    # outside and outer border
    for i, ro, co in hits:
        if not pair:
            rep.ob(True, "%s|validated" % name, i.where(), "row and column are handed to the validated look-up")
            continue
        for what, op, N, side in (("row", ro, NR, "y"), ("column", co, NC, "x")):
            for o, blk in uleaves(f, op):
                e = S.expr(f, o)
                if e[0] == "c":
                    continue
                FX = R.facts([("sge", e, N)])
                r = R.run(f, FX)
                dead = lambda: i.blk not in r.blocks or o not in [x[0] for x in uleaves(f, op, r.edges)]
                rep.ob(dead(), "%s|%s upper" % (name, what), i.where(),
                       "%s: the returned %s %s is below the number of %ss" % (name, what, show(e, f), what))
                FX = R.facts([("slt", e, ("c", 0))])
                r = R.run(f, FX)
                ok = dead()
                if not ok:
                    b2 = bind(*((0, -Fraction(3, 2)) if what == "row" else (-Fraction(3, 2), 0)))
                    fx = [x for x in base]
                    fx += [("eq", ROW, ("c", 0))] if what == "row" else [("eq", COL, ("c", 0))]
                    fx += [("eq", B("mul", ROW if what == "row" else COL, CS), ("c", 0))]
                    r = R.run(f, R.facts(fx), b2)
                    ok = dead()
                rep.ob(ok, "%s|%s lower" % (name, what), i.where(), "%s: a point before the first %s cannot return the %s %s" % (name, what, what, show(e, f)))


def trunc_arg(e):
    if e[0] == "f2i":
        q = e[1]
        while q[0] == "call" and q[1].split("::")[-1] in ("floor", "trunc", "llvm.floor.f64", "llvm.trunc.f64") and len(q) == 3:
            q = q[2]
        return q
    return None


def is_round(e):
    return False


def rejects(p, R, f, res, r, bd, pair):
    """where a rejecting result depends on an undecided comparison of the point"""
    rej = set()
    starts = []
    for b in r.blocks:
        t = f.term(b)
        if t.op == "ret":
            starts += [(x, b) for i, *ops in res for x in ops if i is t] if pair else [(t.args[0], b)]
    for op, b in starts:
        seen, st = set(), [op]
        while st:
            x = unpack(f, st.pop()) if pair else st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "v" and f.insts[x[1]].op == "phi":
                ph = f.insts[x[1]]
                for v, pb in ph.args:
                    if (pb, ph.blk) in r.edges:
                        if v[0] == "c" and v[1] < 0:
                            rej.add(pb)
                        else:
                            st.append(v)
            elif x[0] == "c" and x[1] < 0:
                rej.add(b)
    if not rej:
        return None
    X = set(rej)
    ch = True
    while ch:
        ch = False
        for b in r.blocks:
            if b in X:
                continue
            ss = [s for s in f.succ(b) if (b, s) in r.edges]
            if ss and all(s in X for s in ss):
                X.add(b)
                ch = True
    if 0 in X:
        return "%s:%d" % (f.shortfile, f.line)
    for (a, s) in r.edges:
        if a not in X and s in X:
            for op, blk in split(f, f.term(a).args[0], a):
                e = R.rexpr(f, op, bd)
                if mentions(e):
                    return f.term(a).where()
    return None


def mentions(e):
    if not isinstance(e, tuple):
        return False
    return e in (ROW, COL) or any(mentions(x) for x in e)


def forwards_to(rep, p, S, f):
    """GetPosition(float, float) hands both arguments on in order"""
    ups = uparams(f)
    ok = False
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee) == RC + "::GetPosition" and len(i.args) == 3:
            ok = S.expr(f, i.args[1]) == ("arg", ups[0][0]) and S.expr(f, i.args[2]) == ("arg", ups[1][0])
    rep.ob(ok, "GetPosition(float, float)", "%s:%d" % (f.shortfile, f.line), "the float overload converts (x, y) exactly like the double overload")
