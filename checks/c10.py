"""C10: the geo-referencing written is the one read back; sub-grids keep the position of their cells."""
import ascio
import grid
import c24
from poly import Poly, key as pkey
from paths import Walker
from raster import RC
from sym import show, contains

TECH = "composition of the writer's affine transform with the reader's header formulas in a polynomial normal form; extraction of the header formulas of sub-grids and constructors; path walk over the header updates"
NOTE = ("Covers WriteSingleGeotiff/ReadRasterFileByGdal for every instantiated cell type, ReadAscFile and the text writer, the sub-grid headers, the constructors that take a geometry, and "
        "the header update helpers. GDAL stores and returns a geotransform unchanged (assumed). The GridFS metadata is C18's, the cell values are C08's and C21's.")
NODATA = "NODATA_VALUE"


def strip(e):
    while e[0] in ("f2i", "i2f", "zx", "sx", "cast"):
        e = e[1]
    return e


def subst(e, m):
    if not isinstance(e, tuple):
        return e
    r = m(e)
    if r is not None:
        return r
    return tuple(subst(x, m) for x in e)


def sname(p, f):
    return p.q(f.name).split("::")[-1]


def inst_of(f):
    d = f.dem or ""
    k = d.find("<")
    return d[k:d.find(">", k) + 1] if 0 <= k < d.find("(") else ""


def same(P, a, b):
    try:
        return pkey(P.poly(whole(a))) == pkey(P.poly(whole(b)))
    except Exception:
        return False


def whole(e):
    """numbers of rows and columns are whole numbers: the conversion to int and back changes nothing"""
    return subst(e, lambda x: strip(x) if x[:1] == ("f2i",) and strip(x)[0] == "mapval" and strip(x)[2] in (("str", "NROWS"), ("str", "NCOLS")) else None)


def gt_array(S, f):
    """local double[6] of the function and the elements stored to it"""
    out = {}
    arr = [i for i in f.all_insts() if i.op == "alloca" and i.d.get("at") == "[6 x double]"]
    for a in arr:
        st = {}
        for i in f.all_insts():
            if i.op != "store":
                continue
            e = S.expr(f, i.args[1])
            base, k = None, None
            if e[0] == "idx" and e[1] == ("loc", a.id, f.name) and e[2][0] == "c":
                base, k = e[1], e[2][1]
            elif e == ("loc", a.id, f.name):
                base, k = e, 0
            if base:
                st.setdefault(k, []).append((i, S.expr(f, i.args[0])))
        for k, L in st.items():
            # a value that is always overwritten later on does not count
            st[k] = [x for x in L if not any(y is not x and f.idominates(x[0], y[0]) for y in L)] if len(L) > 1 else L
        out[a.id] = st
    return out


def gdal_calls(p, f, name):
    return [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee) == name]


def leaves(S, f, op):
    return [S.expr(f, o) for o, b in grid.split(f, op, None)]


def writer(p, S, rep, f):
    """checks the calls of a GDAL writer; returns (geotransform {k: expr}, header map)"""
    nm = sname(p, f) + inst_of(f)
    cr = gdal_calls(p, f, "GDALDriver::Create")
    g = {k: v for k, v in gt_array(S, f).items() if len(v) >= 2}
    if len(g) != 1:
        rep.viol("%s transform" % sname(p, f), f.where(), "%s: sets no geotransform" % nm)
        return None
    st = list(g.values())[0]
    tr = {}
    for k in range(6):
        if len(st.get(k, [])) != 1:
            rep.viol("%s transform %d" % (sname(p, f), k), f.where(), "%s: element %d of the geotransform is set %d times" % (nm, k, len(st.get(k, []))))
            return None
        tr[k] = st[k][0][1]
    # handed to the data set after it is complete
    aid = list(g)[0]
    ic = [i for i in f.all_insts() if i.op == "call" and not i.callee and len(i.args) >= 2 and touches(S, f, i, aid)]
    for k in range(6):
        i = st[k][0][0]
        ok = bool(ic) and all(f.idominates(i, c) for c in ic)
        rep.ob(ok, "%s transform handed over" % sname(p, f), i.where(), "%s: geotransform element %d is set %s" % (nm, k, "before the transform is handed over" if ok else "too late or the transform is never handed over"))
    maps = []
    for e in list(tr.values()):
        for k in ("XLLCENTER", "YLLCENTER", "CELLSIZE", "NROWS", "NCOLS"):
            grid.collect(e, k, maps)
    handed = set(i.id for i in ic)
    late = skipped(p, f, handed)
    rep.ob(late is None, "%s transform on every path" % sname(p, f), (late or f).where(), "%s: %s" % (nm, "success is returned only after the transform was handed over" if late is None else "success is returned on a path that hands over no transform"))
    ms = sorted(set(show(m[1]) if m and m[0] == "mapval" else show(m) for m in maps))
    rep.ob(len(ms) == 1, "%s one header" % sname(p, f), f.where(), "%s: the geotransform comes from %s" % (nm, ", ".join(ms)))
    if len(ms) != 1:
        return None
    M = maps[0][1] if maps[0] and maps[0][0] == "mapval" else maps[0]
    at = lambda k: ("mapval", M, ("str", k))
    P = Poly()
    sizes(p, S, rep, f, nm, P, at("NCOLS"), at("NROWS"), cr, 1)
    # NoData
    band = [i for i in f.all_insts() if i.op == "call" and not i.callee and len(i.args) == 3 and i.args[-1][0] == "fn" or i.op == "call" and not i.callee]
    nd = []
    for i in band:
        for a in i.args[:2]:
            e = S.expr(f, a)
            if e[0] in ("phi", "mapval", "select") and isdouble(f, a):
                nd.append((i, a))
    for i, a in nd:
        L = leaves(S, f, a)
        ok = any(strip(e) == at(NODATA) for e in L) and all(strip(e) == at(NODATA) or strip(e)[0] in ("f", "c") or strip(e)[0] == "call" and "DefaultNoData" in strip(e)[1] for e in L)
        rep.ob(ok, "%s NoData" % sname(p, f), i.where(), "%s: the NoData value of the band is %s" % (nm, " or ".join(sorted(set(show(e)[:50] for e in L)))))
    if nd:
        late = skipped(p, f, set(i.id for i, a in nd))
        rep.ob(late is None, "%s NoData on every path" % sname(p, f), (late or f).where(), "%s: %s" % (nm, "success is returned only after the NoData value was set" if late is None else "success is returned on a path that sets no NoData value"))
    exactly(p, S, f, rep, [(k, st[k][0][0].args[0], st[k][0][0]) for k in range(6)] + [(NODATA, a, i) for i, a in nd], nm)
    if not nd:
        rep.viol("%s NoData" % sname(p, f), f.where(), "%s: hands no NoData value of the header to the band" % nm)
    return tr, M


def skipped(p, f, calls):
    """a return of success reached without any of the calls"""
    bad = []

    def step(i, st, env, w):
        if i.id in calls:
            return None
        if i.op == "ret":
            v = w.val(i.args[0], env) if i.args else None
            if v is None or v & 1:
                bad.append(i)
            return None
        return [(st, None)]
    w = Walker(f, 40000)
    w.run([(0, 0, {}, 0)], step)
    return bad[0] if bad else None


ROUND = {"fptrunc": "is rounded to a float", "fptosi": "is cut to a whole number", "fptoui": "is cut to a whole number"}


def exactly(p, S, f, rep, vals, nm):
    """real-valued header entries are carried without loss: no conversion to a narrower type on the way"""
    for k, op, at in vals:
        seen, todo, bad = set(), [op], None
        while todo:
            o = todo.pop()
            if o in seen or o[0] != "v":
                continue
            seen.add(o)
            i = f.insts[o[1]]
            if i.op in ROUND and not (i.op != "fptrunc" and whole_size(S, f, i)):
                bad = i
            if i.op in ROUND or i.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fpext", "select", "freeze", "sitofp", "uitofp"):
                todo += list(i.args)
            elif i.op == "phi":
                todo += [v for v, b in i.args]
            elif i.op == "load":
                a = i.args[0]  # an element of a local array: what was stored there
                root = S.root(f, a)
                if root is not None:
                    for j in f.all_insts():
                        if j.op == "store" and S.expr(f, j.args[1]) == S.expr(f, a) and j.args[0][0] == "v":
                            todo.append(j.args[0])
        rep.ob(bad is None, "%s %s exact" % (sname(p, f), k), (bad or at).where(), "%s: the value of %s %s" % (nm, k if isinstance(k, str) else "geotransform element %d" % k, ROUND[bad.op] if bad else "is carried in full"))


def whole_size(S, f, i):
    e = strip(S.expr(f, i.args[0]))
    return e[0] == "mapval" and e[2] in (("str", "NROWS"), ("str", "NCOLS"))


def isdouble(f, a):
    return a[0] == "v" and f.insts[a[1]].ty == "double"


def touches(S, f, i, aid):
    return any(contains(S.expr(f, a), ("loc", aid, f.name)) or hasloc(S.expr(f, a), aid, f.name) for a in i.args)


def hasloc(e, aid, fn):
    if not isinstance(e, tuple):
        return False
    if e[:1] == ("loc",) and e[1] == aid and e[2] == fn:
        return True
    return any(hasloc(x, aid, fn) for x in e)


def sizes(p, S, rep, f, nm, P, nc, nr, cr, mode):
    for i in cr:
        a = [strip(S.expr(f, x)) for x in i.args]
        rep.ob(a[2] == nc and a[3] == nr, "%s file size" % sname(p, f), i.where(), "%s: the file is created %s wide and %s high" % (nm, show(a[2])[:60], show(a[3])[:60]))
        rep.ob(a[4] == ("c", 1) or a[4][:2] == ("c", 1), "%s bands" % sname(p, f), i.where(), "%s: the file is created with %s band" % (nm, show(a[4])))
    n = 0
    for i in gdal_calls(p, f, "GDALRasterBand::RasterIO"):
        a = [strip(S.expr(f, x)) for x in i.args]
        n += 1
        ok = a[1][0] == "c" and a[1][1] == mode
        rep.ob(ok, "%s direction" % sname(p, f), i.where(), "%s: the cells are %s" % (nm, "written" if a[1][1] else "read"))
        ok = all(x[0] == "c" and x[1] == 0 for x in (a[2], a[3])) and a[4] == nc and a[5] == nr
        rep.ob(ok, "%s window" % sname(p, f), i.where(), "%s: the window is (%s, %s) %s x %s" % (nm, show(a[2]), show(a[3]), show(a[4])[:50], show(a[5])[:50]))
        rep.ob(a[7] == nc and a[8] == nr, "%s buffer size" % sname(p, f), i.where(), "%s: the buffer is %s wide and %s high" % (nm, show(a[7])[:50], show(a[8])[:50]))
        sp = [x for x in a[10:12] if not (x[0] == "c" and x[1] == 0)]
        rep.ob(not sp, "%s buffer spacing" % sname(p, f), i.where(), "%s: the buffer has no gaps" % nm)
    return n


def reader(p, S, f):
    """({header key: expr}, geotransform array)"""
    g = [a for a in gt_array(S, f)]
    hw = {}
    for k, e, op, i, m in grid.header_writes(p, S, f):
        hw.setdefault(k, []).append((e, op, i))
    return g, hw


def compose(p, S, rep, tr, M, f, wname):
    nm = sname(p, f) + inst_of(f)
    P = Poly()
    g, hw = reader(p, S, f)
    at = lambda k: ("mapval", M, ("str", k))
    n = 0

    def m(e):
        if e[0] == "ld" and e[1][0] == "idx" and e[1][1][0] == "loc" and e[1][1][1] in g and e[1][2][0] == "c":
            return tr[e[1][2][1]]
        if e[0] == "ld" and e[1][0] == "loc" and e[1][1] in g:
            return tr[0]
        if e[0] == "call" and e[1].split("::")[-1] in ("GetXSize", "GetRasterXSize"):
            return at("NCOLS")
        if e[0] == "call" and e[1].split("::")[-1] in ("GetYSize", "GetRasterYSize"):
            return at("NROWS")
        return None
    for k in ("NCOLS", "NROWS", "CELLSIZE", "XLLCENTER", "YLLCENTER"):
        if k not in hw:
            rep.viol("%s %s" % (sname(p, f), k), f.where(), "%s: does not set header entry %s" % (nm, k))
            continue
        for e, op, i in hw[k]:
            n += 1
            c = subst(e, m)
            ok = same(P, c, at(k))
            rep.ob(ok, "%s %s" % (sname(p, f), k), i.where(), "%s: %s = %s%s" % (nm, k, show(e)[:110], ", which gives back the %s that %s wrote" % (k, wname) if ok else
                   "; for a file written by %s that is %s" % (wname, show(c)[:160])))
    for e, op, i in hw.get(NODATA, []):
        n += 1
        L = leaves(S, f, op)
        ok = bool(L) and all(strip(x)[0] in ("icall", "f", "c") or strip(x)[0] == "call" and ("NoData" in strip(x)[1]) for x in L) and any(strip(x)[0] == "icall" for x in L)
        rep.ob(ok, "%s NoData" % sname(p, f), i.where(), "%s: NoData becomes %s" % (nm, " or ".join(sorted(set(show(x)[:40] for x in L)))))
    if NODATA not in hw:
        rep.viol("%s NoData" % sname(p, f), f.where(), "%s: does not set the NoData value of the header" % nm)
    exactly(p, S, f, rep, [(k, op, i) for k in ("CELLSIZE", "XLLCENTER", "YLLCENTER", NODATA) for e, op, i in hw.get(k, [])], nm)
    for aid, st in gt_array(S, f).items():
        if not any(hasloc(e, aid, f.name) for k in hw for e, op, i in hw[k]):
            continue
        got = [i for i in f.all_insts() if i.op == "call" and touches(S, f, i, aid)]
        for k in st:
            for i, e in st[k]:
                ok = e[0] in ("c", "f") or not any(f.idominates(c, i) for c in got)
                rep.ob(ok, "%s transform kept" % sname(p, f), i.where(), "%s: element %d of the transform that was read is %s" % (nm, k, "kept" if ok else "changed to %s" % show(e)[:60]))
    cellcount(p, S, rep, f, hw, nm)
    xs = [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] in ("GetXSize",)]
    ys = [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] in ("GetYSize",)]
    if xs and ys:
        sizes(p, S, rep, f, nm, P, S.expr(f, ("v", xs[0].id)), S.expr(f, ("v", ys[0].id)), [], 0)
    return n


def cellcount(p, S, rep, f, hw, nm):
    """a full grid has columns x rows cells"""
    if not all(k in hw for k in ("NCOLS", "NROWS", "CELLSNUM")):
        return 0
    P = Poly()
    n = 0
    for e, op, i in hw["CELLSNUM"]:
        pl = P.poly(whole(strip(e)))
        ok = False
        for c, _, _ in hw["NCOLS"]:
            for r, _, _ in hw["NROWS"]:
                if pkey(P.poly(("bin", "mul", whole(strip(c)), whole(strip(r))))) == pkey(pl):
                    ok = True
        n += 1
        rep.ob(ok, "%s CELLSNUM" % sname(p, f), i.where(), "%s: the number of cells is %s%s" % (nm, show(e)[:80], "" if ok else ", not columns times rows"))
    return n


def tail(S, e):
    return show(strip(e))


def subgrids(p, S, rep):
    P = Poly()
    n = 0
    for f in p.project():
        q = p.q(f.name)
        if "::data_raster::" not in q:
            continue
        hw = {}
        for k, e, op, i, m in grid.header_writes(p, S, f):
            hw.setdefault((show(m), k), []).append((e, i))
        for mm in sorted(set(m for m, k in hw)):
            have = {k: hw[(mm, k)] for m, k in hw if m == mm}
            if not all(k in have for k in ("NCOLS", "NROWS", "XLLCENTER", "YLLCENTER", "CELLSIZE")):
                continue
            nc, nr = have["NCOLS"][0][0], have["NROWS"][0][0]
            pc, pr = P.poly(nc), P.poly(nr)
            sc = span(pc)
            sr = span(pr)
            if sc is None or sr is None:
                continue
            i = have["NCOLS"][0][1]
            nm = sname(p, f)
            for k, s, pl in (("NCOLS", sc, pc), ("NROWS", sr, pr)):
                n += 1
                ok = pl.get((), 0) == 1
                rep.ob(ok, "%s sub-grid %s" % (nm, k), have[k][0][1].where(), "%s: the number of %s from %s to %s is the difference plus %s" % (
                    nm, "columns" if k == "NCOLS" else "rows", show(s[1]), show(s[0]), pl.get((), 0)))
            cs = strip(have["CELLSIZE"][0][0])
            x = P.poly(have["XLLCENTER"][0][0])
            # x = base + first column * cs
            n += 1
            ok, why = linear(P, x, cs, [(sc[1], 1)])
            rep.ob(ok, "%s sub-grid XLLCENTER" % nm, have["XLLCENTER"][0][1].where(), "%s: XLLCENTER = %s%s" % (nm, show(have["XLLCENTER"][0][0])[:120], "" if ok else "; expected an origin plus first column times cell size"))
            y = P.poly(have["YLLCENTER"][0][0])
            n += 1
            ok, why = linear(P, y, cs, [(sr[0], -1)], True)
            rep.ob(ok, "%s sub-grid YLLCENTER" % nm, have["YLLCENTER"][0][1].where(), "%s: YLLCENTER = %s%s" % (nm, show(have["YLLCENTER"][0][0])[:120], "" if ok else "; expected an origin plus (rows of the whole grid - 1 - last row) times cell size"))
    return n


def span(pl):
    """(upper, lower) of a polynomial  upper - lower + c"""
    up = [m for m, c in pl.items() if c == 1 and len(m) == 1]
    lo = [m for m, c in pl.items() if c == -1 and len(m) == 1]
    if len(up) == 1 and len(lo) == 1 and len([m for m in pl if m]) == 2:
        return up[0][0], lo[0][0]
    return None


def linear(P, pl, cs, terms, rows=False):
    """pl == base + cs * (terms [+ rows - 1])"""
    pcs = P.poly(cs)
    if len(pcs) != 1:
        return False, "cell size"
    (cm, cc), = pcs.items()
    if cc != 1 or len(cm) != 1:
        return False, "cell size"
    a = cm[0]
    lin = {}
    rest = {}
    for m, c in pl.items():
        if a in m:
            l = list(m)
            l.remove(a)
            lin[tuple(l)] = c
        else:
            rest[m] = c
    for t, c in terms:
        if lin.pop((t,), 0) != c:
            return False, "factor"
    if rows:
        if lin.pop((), 0) != -1:
            return False, "minus one"
        one = [m for m, c in lin.items() if c == 1 and len(m) == 1]
        if len(one) != 1 or len(lin) != 1:
            return False, "rows"
        lin = {}
    if lin:
        return False, "extra"
    return len(rest) == 1 and list(rest.values()) == [1], "base"


ARGS = {"headers_": None}
WANT = {"XLLCENTER": 1, "YLLCENTER": 2}


def getheader(p, S, rep):
    """arguments at the calls of SubsetPositions::GetHeader, by the meaning the parameters have in it"""
    n = 0
    for g in p.project():
        if not p.q(g.name).endswith("SubsetPositions::GetHeader"):
            continue
        P = Poly()
        need = {}
        for k, e, op, i, m in grid.header_writes(p, S, g):
            par = params(e)
            if k in ("CELLSIZE", NODATA) and strip(e)[0] in ("arg", "a"):
                need[strip(e)[1]] = k
        for k, e, op, i, m in grid.header_writes(p, S, g):
            if k in ("XLLCENTER", "YLLCENTER"):
                pl = P.poly(e)
                for m2, c in pl.items():
                    if len(m2) == 1 and m2[0][0] in ("arg", "a") and c == 1 and need.get(m2[0][1]) != "CELLSIZE":
                        need[m2[0][1]] = k
                    if len(m2) == 2 and k == "YLLCENTER":
                        for x in m2:
                            if x[0] in ("arg", "a") and need.get(x[1]) != "CELLSIZE":
                                need[x[1]] = "NROWS"
        for c in p.callers().get(g.name, []):
            f = c.fn
            if not p.q(f.name).startswith(RC):
                continue
            for k, want in sorted(need.items()):
                if k >= len(c.args):
                    continue
                n += 1
                L = [strip(e) for e in leaves(S, f, c.args[k])]
                ok = all(means(e, want) for e in L)
                rep.ob(ok, "%s hands %s to GetHeader" % (sname(p, f), want), c.where(), "%s: %s of a sub-grid is derived from %s" % (sname(p, f), want, " or ".join(show(e)[:60] for e in L)))
    return n


def means(e, want):
    if e[0] == "mapval" and e[2] == ("str", want):
        return True
    getter = {"XLLCENTER": "GetXllCenter", "YLLCENTER": "GetYllCenter", "CELLSIZE": "GetCellWidth", "NROWS": "GetRows", NODATA: "GetNoDataValue"}[want]
    if e[0] == "call" and e[1].split("::")[-1] == getter:
        return True
    return want == NODATA and contains_nd(e)


def contains_nd(e):
    return e[0] == "ld" and e[1][0] == "fld" and e[1][2] == "no_data_value_"


def params(e):
    out = []

    def w(x):
        if isinstance(x, tuple):
            if x[:1] in (("arg",), ("a",)) and len(x) > 1:
                out.append(x[1])
            for y in x:
                w(y)
    w(e)
    return out


# parameters of the constructors that take a geometry, by name
PN = {"cols": "NCOLS", "rows": "NROWS", "dx": "CELLSIZE", "xll": "XLLCENTER", "yll": "YLLCENTER", "nodata": NODATA}
ORD = {"T*": ["data", "cols", "rows", "nodata", "dx", "xll", "yll"], "T**": ["data", "cols", "rows", "nlayers", "nodata", "dx", "xll", "yll"]}


def ctors(p, S, rep):
    n = 0
    for f in p.project():
        q = p.q(f.name)
        if q != RC + "::clsRasterData":
            continue
        hw = {}
        for k, e, op, i, m in grid.header_writes(p, S, f):
            if k:
                hw.setdefault(k, []).append((e, i))
        ar = f.dem[f.dem.find("(", f.dem.find("clsRasterData(")):]
        lay = None
        d = f.dem
        k0 = d.rfind("clsRasterData(")
        first = d[k0 + 14:].split(",")[0].strip()
        if first.endswith("**"):
            lay = ORD["T**"]
        elif first.endswith("*"):
            lay = ORD["T*"]
        if lay is None or "::" in first or len(f.params) < len(lay):
            continue
        deleg = [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee) == q and i.args and S.expr(f, i.args[0]) == ("this",)]
        pos = {PN[x]: k + 1 for k, x in enumerate(lay) if x in PN}
        if deleg:
            for i in deleg:
                for k in range(1, len(lay) + 1):
                    if k >= len(i.args):
                        continue
                    n += 1
                    e = strip(S.expr(f, i.args[k]))
                    rep.ob(is_arg(e, k), "constructor forwards %s" % lay[k - 1], i.where(), "constructor from %s: forwards %s as %s" % (first, show(e)[:40], lay[k - 1]))
            continue
        for k, a in sorted(pos.items()):
            if k not in hw:
                rep.viol("constructor %s" % k, f.where(), "constructor from %s: header entry %s is not set" % (first, k))
                continue
            for e, i in hw[k]:
                n += 1
                ok = is_arg(strip(e), a) or k == NODATA and contains_nd(strip(e))
                rep.ob(ok, "constructor %s" % k, i.where(), "constructor from %s: header entry %s = %s (parameter %d is the %s)" % (first, k, show(e)[:40], a, k))
    return n


def updates(p, S, rep):
    """UpdateHeader, CopyHeader...: on every path the key ends up with the given value"""
    n = 0
    for f in p.project():
        q = p.q(f.name)
        b = q.split("::")[-1]
        if not q.startswith("ccgl::data_raster::") or b not in ("UpdateHeader", "UpdateStrHeader", "UpdateStringMap"):
            continue
        n += 1
        bad = []
        if len(f.params) < 3:
            continue
        tgt = ("arg", 0)

        def sets(i):
            if i.op == "store":
                a = S.expr(f, i.args[1])
                if a[0] == "mapat" and is_arg(a[1], 0) and is_arg(a[2], 1):
                    return is_arg(strip(S.expr(f, i.args[0])), 2) or "arg2" in show(S.expr(f, i.args[0]))
            if i.op == "call" and i.callee:
                nm = p.q(i.callee)
                last = nm.split("::")[-1]
                if last in ("operator=", "assign") and i.args:
                    a = S.expr(f, i.args[0])
                    if contains(a, ("mapat",)) or show(a).startswith("mapat"):
                        return "arg2" in show(S.expr(f, i.args[1]))
                if last == "insert_or_assign" and nm.startswith("std::map"):
                    return True
                if last in ("emplace", "insert") and nm.startswith("std::map"):
                    for kind, fact in [(x[0], x[1]) for x in S.facts(f, i.blk) if isinstance(x, tuple) and len(x) >= 2]:
                        if kind == "false" and fact[0] == "has":
                            return True
            return False

        def step(i, st, env, wk):
            if sets(i):
                return [(1, None)]
            if i.op == "ret":
                if not st:
                    bad.append(i)
                return None
            return [(st, None)]
        wk = Walker(f)
        wk.run([(0, 0, {}, 0)], step, None)
        if wk.overflow:
            continue
        rep.ob(not bad, "%s sets the entry" % b, f.where(), "%s: %s" % (b, "the entry has the given value on every path" if not bad else "a path leaves the entry without the given value"))
    return n


def is_arg(e, k):
    return e in (("arg", k), ("a", k))


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("reader formulas composed with the writer's geotransform give back the header: NCOLS, NROWS, CELLSIZE, XLLCENTER, YLLCENTER, for all values; the transform has no rotation")
    rep.rule("the file and every cell transfer cover exactly NCOLS x NROWS from (0, 0); the band gets the header's NoData value and the reader takes it from the band")
    rep.rule("text header: CORNER keywords move by exactly half a cell to the stored centre, CENTER keywords do not; the text writer emits the value its keyword means")
    rep.rule("a sub-grid of columns a..b and rows c..d has b-a+1 columns, d-c+1 rows, origin x + a*cellsize and y + (rows-1-d)*cellsize")
    rep.rule("an operation that gives a raster a number of cells or layers that does not come from its header also gives it to the header, and no copied header replaces it afterwards; a header written with data of another length says so")
    ws, rs = [], []
    for f in p.project():
        if "::data_raster::" not in p.q(f.name):
            continue
        if gdal_calls(p, f, "GDALDriver::Create"):
            ws.append(f)
        elif gt_array(S, f):
            rs.append(f)
    rep.need(len(ws), 1, "functions that create GDAL files")
    rep.need(len(rs), 1, "functions that read a geotransform")
    first = None
    for f in ws:
        r = writer(p, S, rep, f)
        if r is None:
            continue
        tr, M = r
        for k in (2, 4):
            e = strip(tr[k])
            rep.ob(e[0] in ("f", "c") and float(e[1]) == 0, "rotation %d" % k, f.where(), "%s: geotransform element %d is %s" % (sname(p, f), k, show(e)))
        if first is None:
            first = (tr, M, sname(p, f))
        else:
            P = Poly()
            for k in range(6):
                a = subst(tr[k], lambda e: ("mapval", first[1], e[2]) if e[0] == "mapval" else None)
                rep.ob(same(P, a, first[0][k]), "transform %d of all writers" % k, f.where(), "%s%s: geotransform element %d = %s" % (sname(p, f), inst_of(f), k, show(tr[k])[:90]))
    n = 0
    if first:
        for f in rs:
            n += compose(p, S, rep, first[0], first[1], f, first[2])
        rep.need(n, 5, "header formulas of the GDAL reader")
    rep.count("reader formulas composed", n)
    rep.count("GDAL writers", len(ws))
    rep.count("GDAL readers", len(rs))
    # text
    na = 0
    for f in p.project():
        if p.q(f.name).endswith("::ReadAscFile"):
            t, words = ascio.reader(p, S, f)
            for w, m in sorted(t.items()):
                if None in [x for s in m.values() for x in s]:
                    continue
                for k, s in m.items():
                    if not s or k not in ("XLLCENTER", "YLLCENTER"):
                        continue
                    na += 1
                    rep.ob(s == {"CORNER" in w}, "text %s shift" % w, f.where(), "ReadAscFile: %s is stored as %s %s" % (w, k, "moved by half a cell" if True in s else "unchanged"))
            for k, e, op, i, m in grid.header_writes(p, S, f):
                if k not in ("XLLCENTER", "YLLCENTER"):
                    continue
                for o, b in grid.split(f, op, None):
                    e2 = S.expr(f, o)
                    ok = shift(e2)
                    if ok is None:
                        continue
                    na += 1
                    rep.ob(ok, "text shift of %s" % k, i.where(), "ReadAscFile: %s = %s" % (k, show(e2)[:80]))
            hw = {}
            for k, e, op, i, m in grid.header_writes(p, S, f):
                hw.setdefault(k, []).append((e, op, i))
            exactly(p, S, f, rep, [(k, op, i) for k in ("CELLSIZE", "XLLCENTER", "YLLCENTER", NODATA) for e, op, i in hw.get(k, [])], "ReadAscFile")
            cellcount(p, S, rep, f, hw, "ReadAscFile")
    rep.count("text corner conversions", na)
    c24.vocabulary(p, S, rep)
    ng = subgrids(p, S, rep)
    rep.count("sub-grid formulas", ng)
    rep.count("arguments of sub-grid headers", getheader(p, S, rep))
    nk = ctors(p, S, rep)
    rep.count("constructor header entries", nk)
    rep.count("header update helpers", updates(p, S, rep))
    nc = counts(p, S, rep)
    rep.count("numbers of cells and layers set", nc)
    rep.need(nc, 6, "numbers of cells and layers set")


COUNTS = {"n_cells_": "CELLSNUM", "n_lyrs_": "LAYERS"}
HEADERS = ("fld", ("this",), "headers_")


def after(f, i):
    """blocks that can be reached from i's end"""
    out, work = set(), [i.blk]
    while work:
        b = work.pop()
        for s in f.succ(b):
            if s not in out:
                out.add(s)
                work.append(s)
    return out


def source(e):
    """the object that a number was asked of"""
    e = strip(e)
    if e[0] == "ld":
        e = e[1]
    if e[0] == "fld" and e[2] in COUNTS and e[1] != ("this",):
        return e[1]
    if e[0] == "call" and len(e) > 2 and e[1].split("::")[-1] in ("GetCellNumber", "GetLayers", "GetValidNumber", "GetDataLength"):
        return e[2]
    return None


def counts(p, S, rep):
    """the header of a raster has the number of cells and layers of the raster"""
    n = 0
    for f in p.project():
        q = p.q(f.name)
        if "::clsRasterData::" not in q or not f.this:
            continue
        nm = q.split("::")[-1]
        sets, writes, copies, fills = [], {}, [], []
        hw = grid.header_writes(p, S, f)
        for k, e, op, i, m in hw:
            if strip(m) in (HEADERS, ("ld", HEADERS)):
                writes.setdefault(k, []).append(i)
        for i in f.all_insts():
            if i.op == "store":
                a = S.expr(f, i.args[1])
                if a[0] == "fld" and a[1] == ("this",) and a[2] in COUNTS:
                    e = strip(S.expr(f, i.args[0]))
                    if e[0] == "c" and e[1] < 0 or contains(e, ("mapval",)) and ("str", COUNTS[a[2]]) in tuple(flat(e)) or e[0] == "ld" and contains(e, ("mapit", "mapfind")) or foundin(e):
                        continue
                    sets.append((a[2], source(e), i))
            elif i.op == "call" and i.callee:
                b = p.q(i.callee).split("::")[-1]
                es = [S.expr(f, a) for a in i.args]
                if b == "CopyHeader" and len(es) == 2 and es[1] == HEADERS:
                    copies.append((i, es[0]))
                elif b not in ("UpdateHeader",) and not p.q(i.callee).startswith("std::") and HEADERS in es[1:] + es[:1] and b != "CopyHeader":
                    fills.append(i)
                for e in es[1:]:
                    if e[0] == "fld" and e[1] == ("this",) and e[2] in COUNTS and b.startswith("Get") and "::clsRasterData::" in p.q(i.callee) and not compared(S, f, i, e):
                        sets.append((e[2], es[0] if es else None, i))
                if b == "WriteStreamDataAsGridfs":
                    n += streamed(p, S, rep, f, nm, i, hw) + stored(p, S, rep, f, nm, i, hw)
        alias = {}
        for i in f.all_insts():
            if i.op == "store":
                a = S.expr(f, i.args[1])
                if a[0] == "fld" and a[1] == ("this",) and i.args[0][0] == "a":
                    alias[("ld", a)] = S.expr(f, i.args[0])

        def same(e):
            if not isinstance(e, tuple):
                return e
            if e in alias:
                return alias[e]
            return tuple(same(x) for x in e)
        copies = [(c, same(e)) for c, e in copies]
        sets = [(m, same(src), i) for m, src, i in sets]
        for m, src, i in sets:
            k = COUNTS[m]
            n += 1
            bs = after(f, i)

            def later(x, i=i, bs=bs):
                return x.blk in bs or x.blk == i.blk and x.idx > i.idx
            ws = writes.get(k, [])
            def origin(c):
                e = c[1]
                while e[0] in ("fld", "ld"):
                    e = e[1] if e[0] == "ld" or e[0] == "fld" and e[2] == "headers_" else ("stop", e)
                return e[1] if e[0] == "stop" else e
            fromsrc = [c for c in copies if src is not None and (origin(c) == src or origin(c) == ("ld", src) or ("ld", origin(c)) == src or show(src) and show(src) in show(c[1]))]
            bad = None
            if not any(later(w) for w in ws) and not any(later(c[0]) or i.blk in after(f, c[0]) or c[0].blk == i.blk for c in fromsrc) and not (fills and src is None and i.op == "store" and S.expr(f, i.args[0])[0] == "c"):
                # set in the header before, with the same value
                val = S.expr(f, i.args[0]) if i.op == "store" else None
                if not any(kk == k and strip(e) == strip(val or ()) for kk, e, op, x, mm in hw if val):
                    bad = "is not given to the header's %s" % k
            if bad is None:
                for c in copies:
                    if later(c[0]) and c not in fromsrc and not any(w.blk in after(f, c[0]) or w.blk == c[0].blk and w.idx > c[0].idx for w in ws):
                        bad = "is not in the header that is copied afterwards at %s" % c[0].where()
            rep.ob(bad is None, "%s count of %s" % (nm, m), i.where(), "%s: %s %s" % (nm, m, bad or "and the header's %s agree" % k))
    return n


def compared(S, f, i, e):
    """the number was found to be what the call gives"""
    return any(x[0] == "eq" and ("ld", e) in x[1:] for x in S.facts(f, i.blk))


def flat(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            yield from flat(x)


def foundin(e):
    """the value of an entry that was looked up"""
    return any(x[:1] == ("fld",) and x[2:3] == ("second",) for x in flat(e) if x)


def streamed(p, S, rep, f, nm, i, hw):
    """the header written with data that are not the raster's own has their number of cells"""
    g = p.fns.get(i.callee)
    if g is None or not f.this:
        return 0
    ms = [S.expr(f, a) for a in i.args]
    ms = [e for e in ms if e[0] == "loc"]
    mine = [(k, x) for k, e, op, x, m in hw if strip(m) in ms or m in ms]
    cp = [x for x in f.all_insts() if x.op == "call" and x.callee and p.q(x.callee).split("::")[-1] == "CopyHeader" and S.expr(f, x.args[1]) in ms]
    if not cp:
        return 0
    ok = any(k == "CELLSNUM" for k, x in mine)
    rep.ob(ok, "%s cells of what is stored" % nm, i.where(), "%s: the header stored with the data %s" % (nm, "gets their number of cells" if ok else "keeps the raster's number of cells, whatever is stored"))
    return 1


KNOWN = ("CopyHeader", "UpdateHeader", "GetHeader", "WriteStreamDataAsGridfs")


def stored(p, S, rep, f, nm, i, hw):
    """cells times layers in a header of its own is the length of the data stored with it"""
    ms = [e for e in (S.expr(f, a) for a in i.args) if e[0] == "loc"]
    before = lambda x: x.blk == i.blk and x.idx < i.idx or x.blk != i.blk and i.blk in f.reach(x.blk)
    for x in f.all_insts():
        if x.op == "call" and x.callee and p.q(x.callee).startswith("ccgl") and p.q(x.callee).split("::")[-1] not in KNOWN and any(S.expr(f, a) in ms and is_map(p, x, k) for k, a in enumerate(x.args)):
            return 0
    lens = [a for a in i.args if a[0] == "v" and f.insts[a[1]].ty in ("i32", "i64") or a[0] == "c"]
    if len(lens) != 1:
        return 0
    ls = [strip(e) for e in vleaves(S, f, lens[0])]
    n = 0
    for m in ms:
        w = [(k, strip(e), x) for k, e, op, x, h in hw if (strip(h) == m or h == m) and before(x)]
        lay = [e for k, e, x in w if k == "LAYERS"] or [("ld", ("fld", ("this",), "n_lyrs_"))]
        one = not any(k == "LAYERS" for k, e, x in w)
        for k, e, x in w:
            if k != "CELLSNUM":
                continue
            cs = [strip(c) for c in cleaves(S, f, e)]
            if not all(plain(c) for c in cs + ls + lay):
                continue
            n += 1
            fits = lambda c, l: any(c == ("bin", "sdiv", l, y) for y in lay) or any(samepoly(("bin", "mul", c, y), l) for y in lay) or one and samepoly(c, l)
            ok = all(any(fits(c, l) for l in ls) for c in cs) and (not f.dominates(x.blk, i.blk) or all(any(fits(c, l) for c in cs) for l in ls))
            rep.ob(ok, "%s size of what is stored" % nm, x.where(), "%s: CELLSNUM = %s %s" % (nm, show(e, f), "times the layers is the length of the data" if ok else "times LAYERS = %s is not the length of the data, %s" % (show(lay[0], f), " or ".join(show(l, f) for l in ls))))
    return n


def is_map(p, x, k):
    g = p.fns.get(x.callee)
    if g is None or not g.blocks:
        return True
    j = k - (1 if g.this else 0) - (1 if g.sret else 0)
    return not (0 <= j and 1 + j < len(g.dity)) or "map" in str(g.dity[1 + j])


def vleaves(S, f, a, seen=None):
    seen = set() if seen is None else seen
    if a in seen:
        return []
    seen.add(a)
    if a[0] == "v":
        i = f.insts[a[1]]
        if i.op == "phi":
            return [x for v, b in i.args for x in vleaves(S, f, v, seen)]
        if i.op == "select":
            return vleaves(S, f, i.args[1], seen) + vleaves(S, f, i.args[2], seen)
        if i.op in ("sext", "zext", "trunc"):
            return vleaves(S, f, i.args[0], seen)
    return [S.expr(f, a)] if a[0] != "undef" else []


def cleaves(S, f, e):
    while e[0] == "cast":
        e = e[-1]
    if e[0] == "phi" and isinstance(e[1], int) and e[2] == f.name:
        return vleaves(S, f, ("v", e[1]))
    if e[0] in ("sel", "select") and len(e) == 4:
        return cleaves(S, f, e[2]) + cleaves(S, f, e[3])
    return [e]


def plain(e):
    if not isinstance(e, tuple):
        return True
    if e and e[0] in ("phi", "call", "sel", "select", "?"):
        return False
    return all(plain(x) for x in e[1:])


def samepoly(a, b):
    P = Poly()
    try:
        return P.poly(strip(a)) == P.poly(strip(b))
    except Exception:
        return False


def shift(e):
    """half-cell shifts: base + 0.5 * size; None when no shift is made"""
    P = Poly()
    try:
        pl = P.poly(e)
    except Exception:
        return None
    if len(pl) < 2:
        return None
    cs = sorted(pl.values())
    return len(pl) == 2 and cs == [0.5, 1]
