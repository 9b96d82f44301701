"""C08: cell data types agree across names, conversions, readers and writers."""
import re
import grid
from paths import Walker
from poly import Poly
from sym import show

TECH = "table extraction (constant propagation through the conversion functions, branch-fact tables of readers and writers) and comparison of every row with the C++ type"
NOTE = "RasterDataType conversions, ReadRasterFileByGdal, WriteSingleGeotiff, ReadGridFsFile, WriteStreamDataAsGridfs, all instantiations; what GDAL does with a buffer of the announced type is outside."

# name: (bytes, kind)
TY = {"UINT8": (1, "u"), "INT8": (1, "s"), "UINT16": (2, "u"), "INT16": (2, "s"), "UINT32": (4, "u"), "INT32": (4, "s"),
      "UINT64": (8, "u"), "INT64": (8, "s"), "FLOAT": (4, "f"), "DOUBLE": (8, "f")}
TI = {"_ZTIh": "UINT8", "_ZTIa": "INT8", "_ZTIc": "INT8", "_ZTIt": "UINT16", "_ZTIs": "INT16", "_ZTIj": "UINT32", "_ZTIi": "INT32",
      "_ZTIm": "UINT64", "_ZTIy": "UINT64", "_ZTIl": "INT64", "_ZTIx": "INT64", "_ZTIf": "FLOAT", "_ZTId": "DOUBLE"}
NAMES = {"UCHAR": "UINT8", "CHAR": "INT8"}
GDT = {"GDT_Byte": (1, "UINT8"), "GDT_UInt16": (2, "UINT16"), "GDT_Int16": (3, "INT16"), "GDT_UInt32": (4, "UINT32"), "GDT_Int32": (5, "INT32"),
       "GDT_Float32": (6, "FLOAT"), "GDT_Float64": (7, "DOUBLE"), "GDT_UInt64": (12, "UINT64"), "GDT_Int64": (13, "INT64"), "GDT_Int8": (14, "INT8")}
CODE = {t: c for c, t in GDT.values()}
BYCODE = {c: t for c, t in GDT.values()}
CPP = {"unsigned char": "UINT8", "signed char": "INT8", "char": "INT8", "unsigned short": "UINT16", "short": "INT16", "unsigned int": "UINT32", "int": "INT32",
       "unsigned long": "UINT64", "unsigned long long": "UINT64", "long": "INT64", "long long": "INT64", "float": "FLOAT", "double": "DOUBLE"}
FMAX = 3.4028234663852886e+38


def limits(t):
    n, k = TY[t]
    if k == "u":
        return 0, 2 ** (8 * n) - 1
    if k == "s":
        return -2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1
    return None, None


def nodata(t):
    lo, hi = limits(t)
    k = TY[t][1]
    return hi if k == "u" else lo if k == "s" else -FMAX


class W(Walker):
    def val(self, op, env, depth=0):
        if op[0] == "f":
            try:
                return float(op[1])
            except ValueError:
                return None
        return Walker.val(self, op, env, depth)


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("the five conversion functions (type -> identifier -> name -> identifier, GDAL type, default NoData) agree with the C++ types for every identifier; anything else is Unknown")
    rep.rule("a buffer read from or written to GDAL, or stored in GridFS, has the element size, element type and announced type of the identifier that selected it; every identifier has a row in every reader and writer")
    rep.rule("range tests and replaced NoData values of a conversion are the limits and the default NoData value of the type written")
    ids = tables(p, S, rep)
    n = 0
    for f in p.project():
        q = p.q(f.name).split("::")[-1]
        if q == "ReadRasterFileByGdal":
            n += 1
            read_gdal(p, S, f, ids, rep)
        elif q == "WriteSingleGeotiff":
            n += 1
            write_tiff(p, S, f, ids, rep)
        elif q == "ReadGridFsFile":
            n += 1
            read_gridfs(p, S, f, ids, rep)
        elif q == "WriteStreamDataAsGridfs":
            n += 1
            write_gridfs(p, S, f, ids, rep)
        own_type(p, S, f, rep)
    rep.count("readers and writers", n)
    rep.need(n, 4, "readers and writers of typed cells")


# ---- the conversion functions

def find(p, name):
    for f in p.project():
        if p.q(f.name).split("::")[-1] == name:
            return f
    return None


def outcomes(S, f, env, calls):
    """values a table function may return under an environment; calls(inst) -> 0/1/None decides the tests"""
    out = set()

    def step(i, st, e, w):
        if i.op == "call":
            r = calls(i)
            if r is not None:
                return [(st, {("v", i.id): r})]
            if i.callee and "basic_string" in i.callee and len(i.args) > 1 and f.sret:
                s = S.expr(f, i.args[1])
                if s[0] == "str" and i.args[0][0] == "a":
                    return [(s[1], None)]
        if i.op == "ret":
            out.add(st if f.sret else w.val(i.args[0], e) if i.args else None)
            return None
        return [(st, None)]
    w = W(f)
    w.run([(0, 0, env, "")], step)
    return out


def tables(p, S, rep):
    ids = {}
    fs = {n: find(p, n) for n in ("TypeToRasterDataType", "RasterDataTypeToString", "StringToRasterDataType", "DefaultNoDataByType", "CvtToGDALDataType")}
    for n in list(fs):
        rep.need(1 if fs[n] else 0, 1, "conversion function " + n)
    f = fs["TypeToRasterDataType"]

    def types(ti):
        def calls(i):
            if "type_info" in (i.callee or "") and len(i.args) == 2:
                es = [S.expr(f, a) for a in i.args]
                if not any(x[0] == "glob" for x in es):
                    es = [("glob", a[1]) if a[0] == "g" else e for a, e in zip(i.args, es)]
                g = [x[1] for x in es if x[0] == "glob"]
                if g:
                    r = g[0] == ti
                    return int(not r if "ne" in i.callee.split("type_info")[1][:3] else r)
            return None
        return outcomes(S, f, {}, calls)
    for ti in sorted(TI):
        r = types(ti)
        t = TI[ti]
        v = list(r)[0] if len(r) == 1 else None
        if t in ids and v != ids[t] and v == 0 and ti in ("_ZTIy", "_ZTIx", "_ZTIm", "_ZTIl"):
            continue  # the other spelling of a 64-bit integer
        if t not in ids or ids[t] == 0:
            ids[t] = v
        rep.ob(v is not None and (v == ids[t] and v != 0 or ti in ("_ZTIy", "_ZTIx") and v == 0), "type %s" % ti, f.where(), "TypeToRasterDataType: the C++ type %s (%s) has identifier %s" % (ti, t, sorted(map(str, r))))
    used = {}
    for t, v in ids.items():
        used.setdefault(v, []).append(t)
    for v, ts in used.items():
        rep.ob(len(ts) == 1, "identifier %s" % v, f.where(), "TypeToRasterDataType: identifier %s stands for %s" % (v, ", ".join(ts)))
    r = types("_ZTISs")
    rep.ob(r == {0}, "type other", f.where(), "TypeToRasterDataType: a type that is no cell type has identifier %s" % sorted(map(str, r)))

    g = fs["RasterDataTypeToString"]
    for t, v in sorted(ids.items()):
        r = outcomes(S, g, {("a", 1): v}, lambda i: None)
        rep.ob(r == {t}, "name of %s" % t, g.where(), "RasterDataTypeToString: the type %s is called %s" % (t, ", ".join(sorted(map(str, r)))))
    s = fs["StringToRasterDataType"]

    def names(text):
        def calls(i):
            if (p.q(i.callee or "") or "").split("::")[-1] == "StringMatch":
                x = [S.expr(s, a) for a in i.args]
                x = [e[1] for e in x if e[0] == "str"]
                return int(bool(x) and x[0].upper() == text.upper())
            return None
        return outcomes(S, s, {}, calls)
    for text, t in [(t, t) for t in TY] + sorted(NAMES.items()) + [(n, c[1]) for n, c in sorted(GDT.items())]:
        r = names(text)
        rep.ob(r == {ids[t]}, "identifier of name %s" % text, s.where(), "StringToRasterDataType: the name %s is understood as identifier %s (expected %s)" % (text, ", ".join(sorted(map(str, r))), ids[t]))
    r = names("?")
    rep.ob(r == {0}, "identifier of unknown name", s.where(), "StringToRasterDataType: an unknown name is understood as identifier %s" % ", ".join(sorted(map(str, r))))
    for fn, want, what in ((fs["DefaultNoDataByType"], nodata, "default NoData"), (fs["CvtToGDALDataType"], CODE.get, "GDAL type")):
        for t, v in sorted(ids.items()):
            r = outcomes(S, fn, {("a", 0): v}, lambda i: None)
            ok = len(r) == 1 and same(list(r)[0], want(t))
            rep.ob(ok, "%s of %s" % (what, t), fn.where(), "%s: the %s of %s is %s (expected %s)" % (fn.dem.split("(")[0].split("::")[-1], what, t, ", ".join(map(str, r)), want(t)))
        r = outcomes(S, fn, {("a", 0): 0}, lambda i: None)
        ok = len(r) == 1 and same(list(r)[0], -9999 if what[0] == "d" else 0)
        rep.ob(ok, "%s of Unknown" % what, fn.where(), "%s: an unknown type has the %s %s" % (fn.dem.split("(")[0].split("::")[-1], what, ", ".join(map(str, r))))
    rep.count("cell types", len(ids))
    return ids


def same(a, b):
    if a is None or b is None:
        return False
    return float(a) == float(b)


def own_type(p, S, f, rep):
    """a template instantiation asks for the identifier of its own cell type"""
    m = re.search(r"<([a-z ]+?)[,>]", f.dem)
    if not m or m.group(1) not in CPP:
        return
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "TypeToRasterDataType" and i.args[0][0] == "g":
            t = TI.get(i.args[0][1])
            want = CPP[m.group(1)]
            rep.ob(t == want, "own type in %s" % p.q(f.name), i.where(), "%s: cells of type %s are taken for %s" % (f.dem.split("(")[0][-60:], m.group(1), t))


# ---- rows of readers and writers

def selector(S, f, blk, head):
    """identifier (or GDAL code) a block is selected by: constants that the value of a call named head is known to equal"""
    out = set()
    for x in S.facts(f, blk):
        if x[0] == "eq" and len(x) == 3:
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if b[0] == "c" and chosen(S, f, a, head):
                    out.add(b[1])
        elif x[0] == "in" and len(x[2]) == 1 and chosen(S, f, x[1], head):
            v = list(x[2])[0]
            out.add(v[1] if isinstance(v, tuple) else v)
    return list(out)[0] if len(out) == 1 else None


def chosen(S, f, a, head):
    """the expression is the value asked for (or the own one where none is asked for)"""
    if iscall(a, head):
        return True
    if a[0] == "phi" and isinstance(a[1], int):
        es = [S.expr(f, y) for y, _ in grid.split(f, ("v", a[1]), None)]
        return any(iscall(e, head) for e in es) and all(iscall(e, head + ("TypeToRasterDataType",)) or e[0] == "c" for e in es)
    return False


def iscall(e, names):
    return isinstance(e, tuple) and e[0] == "call" and e[1].split("::")[-1] in names


def factor(P, e, size):
    """the byte count is elements x size: (constant factor, rest)"""
    q = P.poly(e)
    cs = set(q.values())
    if len(cs) == 1:
        c = list(cs)[0]
        return c
    return None


def pointee(f, n):
    """element type of the n-th parameter, from its declaration"""
    m = params(f)
    if n >= len(m):
        return None
    t = re.sub(r"\bconst\b|\*|&|\[[^\]]*\]", " ", m[n])
    return CPP.get(" ".join(t.split()))


def params(f):
    d = f.dem
    depth, end = 0, None
    for k in range(len(d) - 1, -1, -1):
        if d[k] == ")" and depth == 0 and end is None:
            end = k
            depth = 1
        elif end is not None and d[k] == ")":
            depth += 1
        elif end is not None and d[k] == "(":
            depth -= 1
            if depth == 0:
                return split(d[k + 1:end])
    return []


def split(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def root_call(S, f, op):
    """the allocations a pointer operand may come from"""
    out = []
    for x, b in grid.split(f, strip(f, op), None):
        x = strip(f, x)
        if x[0] == "v":
            i = f.insts[x[1]]
            if i.op == "load":
                e = S.expr(f, x)
                if iscall(e, ("CPLMalloc",)):
                    out += [j for j in f.all_insts() if j.op == "call" and S.expr(f, ("v", j.id)) == e and j.callee and p_last(j) == "CPLMalloc"]
                    continue
                fw = i.args[0]
                if fw[0] == "v" and f.insts[fw[1]].op == "alloca":
                    for u in f.uses().get(fw, []):
                        if u.op == "store" and u.args[1] == fw:
                            out += root_call(S, f, u.args[0])
                continue
            out.append(i)
        elif x[0] == "a":
            out.append(x)
    return out


def p_last(i):
    return (i.callee or "").split("::")[-1]


def base(f, op):
    """what an address is based on, through element steps and casts"""
    while op[0] == "v" and f.insts[op[1]].op in ("getelementptr", "bitcast"):
        op = f.insts[op[1]].args[0]
    return op


def strip(f, op):
    while op[0] == "v" and f.insts[op[1]].op in ("bitcast", "freeze"):
        op = f.insts[op[1]].args[0]
    return op


def is_raster_io(p, i):
    return i.op == "call" and i.callee and p.q(i.callee).endswith("::RasterIO")


def read_gdal(p, S, f, ids, rep):
    P = Poly()
    name = "ReadRasterFileByGdal"
    byid = {v: t for t, v in ids.items()}
    KEY = ("GetRasterDataType", "GDALGetRasterDataType")
    rows = {}
    for i in f.all_insts():
        if not is_raster_io(p, i) or S.expr(f, i.args[1])[:2] != ("c", 0):
            continue
        k = selector(S, f, i.blk, KEY)
        t = BYCODE.get(k)
        ty = S.expr(f, i.args[9])
        if iscall(ty, KEY):
            got = k
        else:
            got = ty[1] if ty[0] == "c" else None
        if t is None:
            # not selected by the type of the band: the type asked for decides
            t = BYCODE.get(got)
            if t is None:
                continue
        else:
            rep.ob(got == k, "%s %s type" % (name, t), i.where(), "%s: a band of type %s is read as GDAL type %s" % (name, t, BYCODE.get(got, got)))
        allocs = [j for j in root_call(S, f, i.args[6]) if not isinstance(j, tuple) and p_last(j) in ("CPLMalloc", "VSIMalloc", "malloc")]
        for j in allocs:
            c = factor(P, S.expr(f, j.args[0]), TY[t][0])
            rep.ob(c is not None and c >= TY[t][0], "%s %s buffer" % (name, t), j.where(), "%s: the buffer of a band of type %s has %s bytes per cell (needs %s)" % (name, t, c, TY[t][0]))
        rows.setdefault(t, []).append(i)
    for t in TY:
        if t == "INT8" and t not in rows:
            continue
        rep.ob(t in rows, "%s reads %s" % (name, t), f.where(), "%s: bands of type %s %s" % (name, t, "are read" if t in rows else "are not read"))
    # element type handed on, and the identifier reported
    typed = {}
    for i in f.all_insts():
        if i.op == "call" and i.callee in p.fns and p.q(i.callee).split("::")[-1] == "Initialize1DArray" and len(i.args) == 3:
            src = pointee(p.fns[i.callee], 2)
            if "*" not in params(p.fns[i.callee])[2]:
                continue
            k = selector(S, f, i.blk, KEY)
            t = BYCODE.get(k)
            if t is None or src is None:
                continue
            typed.setdefault(t, []).append((src, i))
            ok = src == t or t == "UINT8" and src == "INT8"
            rep.ob(ok, "%s %s elements" % (name, t), i.where(), "%s: the cells of a band of type %s are taken as %s" % (name, t, src))
    rt = [k for k, x in enumerate(f.params) if x.get("n") == "in_type"]
    for i in f.all_insts():
        if i.op != "store":
            continue
        v, ad = S.expr(f, i.args[0]), S.expr(f, i.args[1])
        if ad[0] != "arg" or v[0] != "c" or "RasterDataType" not in (params(f) + [""] * 8)[ad[1]]:
            continue
        k = selector(S, f, i.blk, KEY)
        t = BYCODE.get(k)
        if t is None:
            continue
        got = byid.get(v[1])
        if t == "UINT8":
            # unsigned, or signed when the cells are taken as signed
            near = [s for s, j in typed.get(t, []) if j.blk == i.blk or f.dominates(j.blk, i.blk) or f.dominates(i.blk, j.blk)]
            ok = got == "UINT8" and near and all(s == "UINT8" for s in near) or got == "INT8" and near and "INT8" in near
        else:
            ok = got == t
        rep.ob(bool(ok), "%s %s reported" % (name, t), i.where(), "%s: a band of type %s is reported as %s" % (name, t, got))
    rep.count("GDAL read rows", len(rows))
    # undefined NoData: the default of the reported type
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "DefaultNoDataByType":
            e = S.expr(f, i.args[0])
            ok = e[0] == "ld" and e[1][0] == "arg" or e[0] == "phi"
            rep.ob(ok or e[0] != "c", "%s default NoData" % name, i.where(), "%s: a missing NoData value is taken from the type reported" % name)
    for k, e, op, i, m in grid.header_writes(p, S, f):
        if k != "NODATA_VALUE":
            continue
        for x, b in grid.split(f, op, None):
            if x[0] not in ("c", "f"):
                continue
            t = BYCODE.get(selector(S, f, b, KEY)) if b is not None else None
            ok = t is not None and same(x[1], nodata(t))
            rep.ob(ok, "%s default NoData constant" % name, i.where(), "%s: where a band has no NoData value the header gets %s%s" % (name, x[1], ", the default of %s" % t if ok else ", which is not the default of every type"))


def write_tiff(p, S, f, ids, rep):
    P = Poly()
    name = "WriteSingleGeotiff"
    byid = {v: t for t, v in ids.items()}
    KEY = ("RasterDataTypeInOptionals", "StringToRasterDataType")
    # (a) rows of the conversion
    m = re.search(r"<([a-z ]+?)[,>]", f.dem)
    own = CPP.get(m.group(1)) if m else None
    rows, bufs = {}, {}
    for i in f.all_insts():
        if i.op == "call" and p_last(i) in ("CPLMalloc", "malloc"):
            t = byid.get(selector(S, f, i.blk, KEY))
            if t is None:
                continue
            c = factor(P, S.expr(f, i.args[0]), TY[t][0])
            rep.ob(c is not None and c >= TY[t][0], "%s %s buffer" % (name, t), i.where(), "%s: the buffer of %s cells has %s bytes per cell (needs %s)" % (name, t, c, TY[t][0]))
            bufs[i.id] = t
    for i in f.all_insts():
        t = byid.get(selector(S, f, i.blk, KEY))
        if t is None:
            continue
        if i.op == "store":
            root = base(f, i.args[1])
            if root[0] == "v" and root[1] in bufs:
                rows.setdefault(t, []).append(i)
                cell_store(S, f, i, t, name, rep)
        elif i.op in ("fcmp", "icmp"):
            compare(S, f, i, t, name, rows, rep)
    for t in TY:
        got = rows.get(t)
        rep.ob(bool(got), "%s converts to %s" % (name, t), f.where(), "%s: cells %s" % (name, "are converted to %s" % t if got else "cannot be converted to %s" % t))
        if got and TY[t][1] != "f":
            for what in ("cell", "NoData"):
                for end in ("low", "high"):
                    if what == "cell" and (what, end) not in got and within(own, t, end):
                        continue  # no cell of this type can be beyond that end
                    rep.ob((what, end) in got, "%s %s %s %s" % (name, t, what, end), f.where(), "%s: the %s %s tested against the %s end of %s" % (name, what, "is" if (what, end) in got else "is not", "lower" if end == "low" else "upper", t))
            rep.ob("replaced" in got, "%s %s replaced" % (name, t), f.where(), "%s: a NoData value outside %s is replaced by its default" % (name, t))
            st = [i for i in got if not isinstance(i, (tuple, str))]
            sent = any(x[0] in ("c", "f") or nodata_value(S, f, x) for i in st for x, b in grid.split(f, i.args[0], None))
            rep.ob(sent, "%s %s sentinel" % (name, t), f.where(), "%s: cells without data %s the NoData value of the file when cells are converted to %s" % (name, "get" if sent else "do not get", t))
            for test in [x[2] for x in got if isinstance(x, tuple) and len(x) == 3 and x[0] == "cell"]:
                refused(p, S, f, test, t, name, rep)
    rep.count("conversion rows", len(rows))
    # (b) the type announced with each buffer
    announced(p, S, f, ids, bufs, KEY, name, rep)


def within(own, t, end):
    lo, hi = limits(own) if own else (None, None)
    if lo is None:
        return False
    return lo >= limits(t)[0] if end == "low" else hi <= limits(t)[1]


def nodata_value(S, f, op):
    """the stored value is a conversion of the NoData value of the header or of its replacement"""
    while op[0] == "v" and f.insts[op[1]].op in ("fptosi", "fptoui", "trunc", "sext", "zext", "fptrunc", "fpext", "bitcast", "freeze"):
        op = f.insts[op[1]].args[0]
    return any(e[0] == "mapval" and e[2] == ("str", "NODATA_VALUE") or e[0] == "call" and "DefaultNoData" in e[1] for e in [S.expr(f, x) for x, b in grid.split(f, op, None)])


def counted(w, i, env):
    """small sums are followed (up to 2)"""
    if i.op == "add" and i.ty in ("i32", "i64", "i8", "i16"):
        a, b = w.val(i.args[0], env), w.val(i.args[1], env)
        if isinstance(a, int) and isinstance(b, int):
            return {("v", i.id): max(-2, min(a + b, 2))}
        return {("v", i.id): None} if ("v", i.id) in env else None
    return None


def konst(f, op):
    """the constant that a conversion of a constant yields"""
    if op[0] != "v":
        return op
    i = f.insts[op[1]]
    if i.op not in ("sitofp", "uitofp", "sext", "zext", "fpext", "fptrunc", "bitcast", "freeze", "trunc"):
        return op
    a = konst(f, i.args[0])
    if a[0] not in ("c", "f"):
        return op
    n = int(i.ty[1:]) if i.ty[0] == "i" and i.ty[1:].isdigit() else None
    if i.op in ("sitofp", "uitofp"):
        v = a[1]
        if i.op == "uitofp" and v < 0:
            v += 1 << a[2]
        return ("f", float(v))
    if i.op in ("sext", "zext") and a[0] == "c":
        v = a[1] + (1 << a[2]) if i.op == "zext" and a[1] < 0 else a[1]
        return ("c", v, n)
    if i.op in ("fpext", "fptrunc") and a[0] == "f" or i.op in ("bitcast", "freeze"):
        return a
    return op


def refused(p, S, f, test, t, name, rep):
    """once a cell was found to be out of range nothing is written"""
    a, b = [konst(f, x) for x in test.args]
    ab = a, b
    if a[0] in ("c", "f"):
        a, b = b, a
    c = float(b[1]) if b[0] == "f" else b[1]
    if b[0] == "c" and test.d["p"][0] == "u" and c < 0:
        c += 1 << b[2]
    lo, hi = limits(t)
    # `x < lo` and `x > hi` say out of range, `x >= lo` and `x <= hi` say in range
    pr = test.d["p"][-2:]
    if ab[0][0] in ("c", "f"):
        pr = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[pr]
    m = abs(float(c) - float(lo)) <= abs(float(c) - float(hi))
    out = 1 if (pr == "lt" and m or pr == "gt" and not m) else 0
    env = {("v", test.id): out}
    for h, body in f.natural_loops().items():
        if test.blk in body:
            for j in f.blocks[h]:
                if j.op == "phi" and j.ty in ("i32", "i64", "i16", "i8", "i1"):
                    for v, pb in j.args:
                        if pb not in body and v[0] == "c":
                            env[("v", j.id)] = v[1]
    hit = []
    w = Walker(f, 20000)

    def step(i, st, en, w):
        if is_raster_io(p, i) and S.expr(f, i.args[1])[:2] == ("c", 1):
            hit.append(i)
            return None
        if i.op == "ret":
            return None
        return [(st, counted(w, i, en))]
    w.run([(test.blk, test.idx + 1, env, 0)], step)
    if w.overflow:
        return
    rep.ob(not hit, "%s %s refused" % (name, t), test.where(), "%s: a raster with a cell outside %s is %s" % (name, t, "refused" if not hit else "written all the same"))


def cell_store(S, f, i, t, name, rep):
    n, k = TY[t]
    v = i.args[0]
    ty = i.ty if i.ty != "void" else None
    if v[0] == "c":
        w = v[2] // 8 if len(v) > 2 and v[2] else n
        rep.ob(w == n, "%s %s width" % (name, t), i.where(), "%s: a %s cell is stored in %s bytes" % (name, t, w))
        val = v[1] % (1 << 8 * n)
        if k != "f":
            rep.ob(val == nodata(t) % (1 << 8 * n), "%s %s cell NoData" % (name, t), i.where(), "%s: NoData cells of a %s raster are stored as %s (default NoData is %s)" % (name, t, v[1], nodata(t)))
        return
    if v[0] == "f":
        rep.ob(same(v[1], nodata(t)), "%s %s cell NoData" % (name, t), i.where(), "%s: NoData cells of a %s raster are stored as %s" % (name, t, v[1]))
        return
    if v[0] != "v":
        return
    x = f.insts[v[1]]
    w = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8}.get(x.ty)
    if w is None:
        return
    fl = x.ty in ("float", "double")
    rep.ob(w == n and fl == (k == "f"), "%s %s width" % (name, t), i.where(), "%s: a %s cell is stored as %s" % (name, t, x.ty))
    if x.op in ("fptosi", "fptoui"):
        rep.ob((x.op == "fptoui") == (k == "u"), "%s %s sign" % (name, t), i.where(), "%s: cells are converted to a %s integer for %s" % (name, "signed" if x.op == "fptosi" else "unsigned", t))


def compare(S, f, i, t, name, rows, rep):
    """range tests of a cell or of the NoData value"""
    lo, hi = limits(t)
    if lo is None:
        return
    a, b = [konst(f, x) for x in i.args]
    pr = i.d["p"]
    if b[0] not in ("c", "f"):
        a, b = b, a
        pr = {"olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole", "slt": "sgt", "sgt": "slt", "ult": "ugt", "ugt": "ult", "sle": "sge", "sge": "sle", "ule": "uge", "uge": "ule"}.get(pr, pr)
    if b[0] not in ("c", "f") or pr in ("oeq", "une", "eq", "ne", "one"):
        return
    e = S.expr(f, a)
    while e[0] in ("i2f", "fpext", "sext", "zext"):
        e = e[1]
    if e[0] == "ld" and S_is_cell(e):
        what = "cell"
    elif e[0] in ("mapval",) and e[2] == ("str", "NODATA_VALUE"):
        what = "NoData"
    else:
        return
    v = float(b[1]) if b[0] == "f" else b[1]
    if b[0] == "c" and pr[0] == "u" and v < 0:
        v += 1 << b[2]
    low = pr[1:] in ("lt", "ge")
    want = lo if low else hi
    small = b[0] == "c" and i_width(f, a) and float(want) != float(v)
    ok = float(v) == float(want) or b[0] == "f" and abs(float(v) - want) <= abs(want) * 1e-6
    rep.ob(ok, "%s %s %s %s limit" % (name, t, what, "lower" if low else "upper"), i.where(), "%s: the %s is tested against %s for %s (its %s limit is %s)" % (name, what, b[1], t, "lower" if low else "upper", want))
    rows.setdefault(t, []).append((what, "low" if low else "high"))
    rows[t].append((what, "test", i))
    if what == "NoData":
        # the replacement: constants merged with the NoData value in this row
        for j in f.all_insts():
            if j.op == "phi" and j.ty == "double" and byfact(S, f, j.blk, i.blk):
                es = [(S.expr(f, x), x) for x, bb in j.args]
                if any(y == e for y, x in es):
                    for y, x in es:
                        if x[0] in ("f", "c"):
                            ok = same(x[1], nodata(t))
                            rep.ob(ok, "%s %s new NoData" % (name, t), j.where(), "%s: NoData is replaced by %s for %s (its default is %s)" % (name, x[1], t, nodata(t)))
                            rows[t].append("replaced")
                        elif iscall(y, ("DefaultNoDataByType",)):
                            rows[t].append("replaced")


def byfact(S, f, b, a):
    return f.dominates(a, b) and selector(S, f, a, ("RasterDataTypeInOptionals", "StringToRasterDataType")) == selector(S, f, b, ("RasterDataTypeInOptionals", "StringToRasterDataType"))


def i_width(f, a):
    return True


def S_is_cell(e):
    """an element of the values argument"""
    ad = e[1]
    return ad[0] == "idx" and ad[1][0] == "arg" or ad[0] == "arg"


def announced(p, S, f, ids, bufs, KEY, name, rep):
    """walk to every transfer: the type announced is the type the buffer holds"""
    byid = {v: t for t, v in ids.items()}
    m = re.search(r"<([a-z ]+?)[,>]", f.dem)
    own = CPP.get(m.group(1)) if m else None
    res = []

    def edge(b, s, st, env):
        same_, last, opt, made = st
        for x in S.edge_facts(f, b, s):
            if x[0] == "eq" and len(x) == 3:
                for u, v in ((x[1], x[2]), (x[2], x[1])):
                    if v[0] == "c" and chosen(S, f, u, KEY):
                        opt = v[1]
                    if iscall(u, KEY) and iscall(v, ("TypeToRasterDataType",)):
                        same_ = True
        return (same_, last, opt, made)

    def step(i, st, env, w):
        if i.op == "call" and i.id in bufs:
            st = (st[0], i.id, st[2], st[3])
        if i.op == "call" and i.callee and p.q(i.callee) == "GDALDriver::Create" and len(i.args) > 5:
            st = st[:3] + (i.id,)
        if is_raster_io(p, i) and S.expr(f, i.args[1])[:2] == ("c", 1):
            res.append((i, st, dict(env)))
            return None
        return [(st, None)]
    keep = set()
    for i in f.all_insts():
        if i.op == "phi" and i.ty in ("i8", "i32", "i1", "ptr") and not any(i.blk == h for h in f.natural_loops()):
            keep.add(("v", i.id))
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] in KEY + ("TypeToRasterDataType",):
            keep.add(("v", i.id))
    w = Walker(f, keep=keep, limit=40000)
    w.run([(0, 0, {}, (False, None, None, None))], step, edge)
    n = 0

    def meant(ty, same_, opt):
        """the type a GDAL type argument stands for on the walked path"""
        te = S.expr(f, ty)
        if te[0] == "c":
            return BYCODE.get(te[1])
        if ty[0] == "v" and f.insts[ty[1]].op == "call":
            op = f.insts[ty[1]].args[0]
            e = resolve(S, f, op, opt)
            if e == "own" or e is not None and iscall(e, ("TypeToRasterDataType",)):
                return own
            if e is not None and iscall(e, KEY):
                return own if same_ and (opt is None or byid.get(opt) == own) else byid.get(opt)
            if e is not None and e[0] == "c":
                return byid.get(e[1])
        return None
    for i, (same_, last, opt, made), env in res:
        n += 1
        # which identifier is announced
        got = meant(i.args[9], same_, opt)
        if made is not None:
            m2 = meant(f.insts[made].args[5], same_, opt)
            rep.ob(m2 == got, "%s creates the announced type" % name, f.insts[made].where(), "%s: the file is created as %s and filled with %s cells" % (name, m2 or "a type that need not be theirs", got))
        roots = root_call(S, f, i.args[6])
        direct = any(isinstance(r, tuple) and r[0] == "a" for r in roots)
        conv = any(not isinstance(r, tuple) for r in roots)
        if direct and not conv:
            holds = own
        elif conv:
            holds = bufs.get(last)
        else:
            holds = None
        rep.ob(got is not None and got == holds, "%s announces %s" % (name, "its own type" if direct else "the converted type"), i.where(),
               "%s: a buffer of %s cells is announced to GDAL as %s" % (name, holds, got or "a type that need not be its own"))
    rep.ob(n > 0, "%s writes" % name, f.where(), "%s: cells are written" % name)
    if w.overflow:
        rep.assumptions.append("%s: walk cut off" % f.dem[:60])
    rep.count("announced types", n)


def resolve(S, f, op, opt):
    """expression of an operand on the walked path (phis by the values remembered)"""
    for _ in range(8):
        op = strip(f, op)
        if op[0] == "v" and f.insts[op[1]].op == "phi":
            leaves = grid.split(f, op, None)
            es = [S.expr(f, x) for x, b in leaves]
            es = list(dict.fromkeys(es))
            if len(es) == 1:
                return es[0]
            # a phi of the identifier asked for and the own one
            if all(iscall(e, ("TypeToRasterDataType", "RasterDataTypeInOptionals", "StringToRasterDataType")) for e in es):
                asked = [e for e in es if not iscall(e, ("TypeToRasterDataType",))]
                return "own" if opt == 0 else asked[0]
            return None
        return S.expr(f, op)
    return None


def read_gridfs(p, S, f, ids, rep):
    name = "ReadGridFsFile"
    byid = {v: t for t, v in ids.items()}
    KEY = ("StringToRasterDataType", "RasterDataTypeInOptionals")
    rows = {}
    for i in f.all_insts():
        if i.op == "call" and i.callee in p.fns and p.q(i.callee).split("::")[-1] == "Initialize1DArray" and len(i.args) == 3:
            g = p.fns[i.callee]
            if "*" not in params(g)[2]:
                continue
            t = byid.get(selector(S, f, i.blk, KEY))
            src = pointee(g, 2)
            rep.ob(t is not None and src == t, "%s %s elements" % (name, t or "unknown"), i.where(), "%s: data stored as %s are taken as %s" % (name, t or "a type that is not known", src))
            if t is None:
                continue
            rows[t] = i
            sz = sizes(S, f, i.blk)
            whole = exact(S, f, i.blk)
            rep.ob(whole, "%s whole data" % name, i.where(), "%s: the length of the data %s a whole number of cells" % (name, "is known to be" if whole else "need not be"))
            rep.ob(TY[t][0] in sz, "%s %s size" % (name, t), i.where(), "%s: %s cells are expected to have %s bytes (found a test for %s)" % (name, t, TY[t][0], sorted(sz) or "none"))
    for t in TY:
        rep.ob(t in rows, "%s reads %s" % (name, t), f.where(), "%s: data of type %s %s" % (name, t, "are read" if t in rows else "are not read"))
    rep.count("GridFS read rows", len(rows))


def rem(e):
    return isinstance(e, tuple) and e[:1] == ("bin",) and e[1] in ("srem", "urem")


def exact(S, f, blk):
    """the division that gave the size of a cell has no remainder"""
    def zero(facts):
        return any(x[0] == "eq" and len(x) == 3 and any(rem(a) and b == ("c", 0) for a, b in ((x[1], x[2]), (x[2], x[1]))) for x in facts)

    def nonzero(facts):
        return any(x[0] == "ne" and len(x) == 3 and any(rem(a) and b == ("c", 0) for a, b in ((x[1], x[2]), (x[2], x[1]))) for x in facts)
    facts = S.facts(f, blk)
    if zero(facts):
        return True
    for x in facts:
        if x[0] == "eq" and len(x) == 3:
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if b[0] == "c" and b[1] in (1, 2, 4, 8):
                    if a[0] == "phi" and isinstance(a[1], int):
                        j = f.insts[a[1]]
                        for v, pb in j.args:
                            if v[0] == "c" and v[1] == 0 and (nonzero(S.facts(f, pb)) or nonzero(S.edge_facts(f, pb, j.blk))):
                                return True
                    if a[0] == "sel" and "rem" in repr(a[1]):
                        return True
                if a[0] == "bin" and a[1] == "mul" or b[0] == "bin" and b[1] == "mul":
                    return True
    return False


def sizes(S, f, blk):
    out = set()
    for x in S.facts(f, blk):
        if x[0] == "eq" and len(x) == 3:
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if b[0] == "c" and b[1] in (1, 2, 4, 8) and not iscall(a, ("StringToRasterDataType", "RasterDataTypeInOptionals")):
                    if a[0] in ("phi", "bin", "sel"):
                        if a[0] == "phi":
                            es = [S.expr(f, y) for y, _ in grid.split(f, ("v", a[1]), None)] if isinstance(a[1], int) else []
                            if not any(e[0] == "bin" for e in es):
                                continue
                        out.add(b[1])
    return out


def refused_unknown(p, S, f, KEY, name, rep):
    """nothing is stored for a name that is no type: some test of the type asked for, or of the converted data, was passed"""
    hit = []

    def known(x):
        if x[0] == "eq" and len(x) == 3:
            for u, v in ((x[1], x[2]), (x[2], x[1])):
                if iscall(u, KEY) and (v[0] == "c" and v[1] != 0 or iscall(v, ("TypeToRasterDataType",))):
                    return True
        if x[0] == "ne" and len(x) == 3:
            return any(iscall(u, KEY) and v == ("c", 0) for u, v in ((x[1], x[2]), (x[2], x[1])))
        return False

    def edge(b, s, st, env):
        for sc, c, pol in f.cond_edges(b):
            if sc == s and c is not None and c[0] == "v" and not pol:
                x = f.insts[c[1]]
                while x.op in ("trunc", "zext", "freeze") and x.args[0][0] == "v":
                    x = f.insts[x.args[0][1]]
                if x.op == "call" and x.callee and p.q(x.callee).split("::")[-1] == "empty":
                    return 1
        return 1 if any(known(x) for x in S.edge_facts(f, b, s)) else st

    def step(i, st, env, w):
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "WriteStreamData":
            if not st:
                hit.append(i)
            return None
        return [(st, None)]
    w = Walker(f, 60000, keep=set())
    w.run([(0, 0, {}, 0)], step, edge)
    rep.ob(not hit, "%s unknown type" % name, (hit[0] if hit else f).where(), "%s: data are stored only for a type that is known" % name if not hit else "%s: data can be stored under a type that is not known" % name)


def write_gridfs(p, S, f, ids, rep):
    P = Poly()
    name = "WriteStreamDataAsGridfs"
    byid = {v: t for t, v in ids.items()}
    KEY = ("StringToRasterDataType", "RasterDataTypeInOptionals")
    rows = {}
    for i in f.all_insts():
        t = byid.get(selector(S, f, i.blk, KEY))
        if t is None:
            continue
        if i.op == "call" and i.callee and p.q(i.callee) in ("std::vector::resize",):
            c = factor(P, S.expr(f, i.args[1]), TY[t][0])
            rep.ob(c is not None and c == TY[t][0], "%s %s buffer" % (name, t), i.where(), "%s: %s cells are given %s bytes each (%s)" % (name, t, c, TY[t][0]))
        if i.op == "store":
            ad = S.expr(f, i.args[1])
            if ad[0] == "idx" and ad[1][0] == "call" and ad[1][1].split("::")[-1] in ("operator[]", "data", "front", "at"):
                cell_store(S, f, i, t, name, rep)
                rows[t] = i
                if len(ad) > 3:
                    rep.ob(ad[3] == TY[t][0], "%s %s stride" % (name, t), i.where(), "%s: %s cells are stored %s bytes apart" % (name, t, ad[3]))
        if i.op == "call" and i.callee in p.fns and p.q(i.callee).split("::")[-1] == "ConvertToBytes":
            m = re.search(r"ConvertToBytes<([a-z ]+)[,>]", p.fns[i.callee].dem)
            src = CPP.get(m.group(1)) if m else None
            rows[t] = i
            rep.ob(src == t, "%s %s elements" % (name, t), i.where(), "%s: cells are converted to %s for %s" % (name, src, t))
    for t in TY:
        rep.ob(t in rows, "%s writes %s" % (name, t), f.where(), "%s: cells %s" % (name, "are converted to %s" % t if t in rows else "cannot be converted to %s" % t))
    # unconverted: the type stored is the own one
    m = re.search(r"<([a-z ]+?)[,>]", f.dem)
    own = CPP.get(m.group(1)) if m else None
    for i in f.all_insts():
        if i.op == "store" and S.expr(f, i.args[0])[0] == "arg" and S.expr(f, i.args[1])[0] == "loc":
            facts = S.facts(f, i.blk)
            ok = any(x[0] == "eq" and len(x) == 3 and any(iscall(a, KEY) for a in x[1:]) and any(iscall(a, ("TypeToRasterDataType",)) for a in x[1:]) for x in facts)
            if own and S.expr(f, i.args[0])[1] == 3:
                rep.ob(ok, "%s own type" % name, i.where(), "%s: the cells are stored as they are %s" % (name, "when the type asked for is their own" if ok else "though another type may be asked for"))
        if own and i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "WriteStreamData" and len(i.args) > 3:
            for x, b in grid.split(f, i.args[3], None):
                q = P.poly(S.expr(f, x))
                if len(q) == 1 and any(("arg", 4) == y for m_ in q for y in m_):
                    c = list(q.values())[0]
                    rep.ob(c == TY[own][0], "%s own length" % name, i.where(), "%s: %s cells stored as they are count %s bytes each" % (name, own, c))
    refused_unknown(p, S, f, KEY, name, rep)
    rep.count("GridFS write rows", len(rows))
