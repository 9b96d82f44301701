"""C24: the text-raster writers and the reader share one vocabulary, one unit per keyword and one NoData value."""
import ascio
import grid
from poly import Poly, key as pkey, add, const, mul
from paths import Walker
from raster import RC
from sym import show, contains

TECH = "extraction of the emitted stream contents and of the keyword/value table of the reader (path walk over one header line per keyword), compared key by key; must-follow analysis for cell values and the NoData field"
NOTE = ("Covers ReadAscFile, WriteAscHeaders, WriteSingleAsc and OutputAscFile and every function that comes to emit header keywords or cell values, and "
        "every place that sets the NoData value of a raster. That the cells are the right ones is C21's; formatting of digits is the C++ library's.")
READER = "ccgl::data_raster::ReadAscFile"
SPAN = {"XLLCENTER": "XLLCENTER", "YLLCENTER": "YLLCENTER"}
NODATA = "NODATA_VALUE"


def widen(e):
    while e[0] in ("f2i", "i2f", "zx", "sx", "cast"):
        e = e[1]
    return e


def dem(p, f):
    return p.q(f.name).split("::")[-1]


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("each keyword that a writer emits is one that the reader takes, followed by the header value that the reader stores for it (shifted by half a cell exactly for corner keywords); all six are emitted, with all digits of a double")
    rep.rule("cell values are emitted as numbers with all digits of their type, separated by blanks, after the header of the same file, exactly one per cell, and cells without data as the NoData value of that header")
    rep.rule("wherever a raster's NoData value is set, its header entry is the same value")
    hwriters = vocabulary(p, S, rep)
    nc = 0
    for f in p.project():
        if "::data_raster::" not in p.q(f.name):
            continue
        calls = [i for i in f.all_insts() if i.op == "call" and i.callee in hwriters]
        if not calls and f.name not in hwriters:
            continue
        nc += cells(p, S, rep, f, calls, hwriters)
    rep.count("cell insertions", nc)
    rep.need(nc, 2, "places that emit cell values")
    pairing(p, S, rep)


def vocabulary(p, S, rep):
    """the reader's keyword table and the header of every writer against it; the writers found"""
    tables = {}
    for f in p.project():
        if p.q(f.name) == READER or p.q(f.name).endswith("::ReadAscFile"):
            t, words = ascio.reader(p, S, f)
            tables[f.name] = (f, t)
    rep.need(len(tables), 1, "instances of the text raster reader")
    table = {}
    for n, (f, t) in sorted(tables.items()):
        for w, m in sorted(t.items()):
            if None in [x for s in m.values() for x in s]:
                continue
            corner = "CORNER" in w
            rep.ob(len(m) == 1, "reader %s" % w, f.where() if hasattr(f, "where") else f.name,
                   "%s: keyword %s %s" % (dem(p, f), w, "sets one header entry, %s" % list(m)[0] if len(m) == 1 else "sets %s" % (sorted(m) or "nothing")))
            for k, s in m.items():
                ok = s == {corner} or not s
                rep.ob(ok, "reader shift %s" % w, f.where(), "%s: the value of %s is %s half a cell" % (dem(p, f), w, "moved by" if True in s else "not moved by") + ("" if ok else ", which is wrong for this keyword"))
                base = w.replace("CORNER", "CENTER")
                rep.ob(k == base, "reader key %s" % w, f.where(), "%s: the value of %s becomes header entry %s" % (dem(p, f), w, k))
                if ok and k == base:
                    table[w] = (k, corner)
    rep.count("keywords the reader accepts", len(table))
    rep.need(len(table), 6, "keywords of the text reader with a known header entry")
    # ---- the writers
    hwriters = {}
    nk = 0
    for f in p.project():
        if "::data_raster::" not in p.q(f.name):
            continue
        ins = ascio.insertions(p, S, f)
        kw = [x for x in ins if x[2] == "text" and isword(x[3])]
        if len(kw) < 2:
            continue
        hwriters[f.name] = f
        nk += headers(p, S, rep, f, ins, kw, table)
    rep.count("header keywords emitted", nk)
    rep.need(nk, 6, "header keywords emitted by writers")
    return hwriters


def isword(t):
    t = t.strip()
    return len(t) > 3 and t.upper() == t and t.replace("_", "").isalpha()


def headers(p, S, rep, f, ins, kw, table):
    P = Poly()
    name = dem(p, f)
    seen = set()
    # digits
    for i, s, kind, d in ins:
        if kind == "precision" and d is not None:
            rep.ob(d == 0 or d >= 17, "%s header digits %d" % (name, d), i.where(), "%s: the header is written with %d digits%s" % (name, d, "" if d >= 17 else ", a double needs 17"))
    for i, s, kind, word in kw:
        w = word.strip()
        where = i.where()
        rep.ob(w in table, "%s emits %s" % (name, w), where, "%s: emits the keyword %s, which the reader %s" % (name, w, "accepts" if w in table else "does not know"))
        # the value: the next number of the same stream
        nxt = [x for x in ins if x[1] == s and x[0] is not i and f.idominates(i, x[0]) and x[2] in ("number", "char", "string")]
        between = [x for x in ins if x[1] == s and x[0] is not i and f.idominates(i, x[0]) and x[2] == "text" and isword(x[3])]
        v = None
        for x in nxt:
            if all(f.idominates(x[0], y[0]) for y in nxt if y is not x) and not any(f.idominates(b[0], x[0]) for b in between):
                v = x
        if w not in table:
            continue
        seen.add(w)
        if v is None or v[2] != "number":
            rep.viol("%s value of %s" % (name, w), where, "%s: the keyword %s is not followed by a number" % (name, w))
            continue
        key, corner = table[w]
        e = S.expr(f, v[3])
        ok = matches(P, e, key, corner)
        rep.ob(ok, "%s value of %s" % (name, w), v[0].where(), "%s: after %s comes %s%s" % (name, w, show(e)[:80], "" if ok else ", but the reader takes it as header entry %s%s" % (key, " minus half a cell" if corner else "")))
        if key not in ("NCOLS", "NROWS"):
            prec = [x for x in ins if x[1] == s and x[2] == "precision" and (x[3] or 0) >= 17 and f.idominates(x[0], v[0])]
            rep.ob(bool(prec), "%s digits of %s" % (name, w), v[0].where(), "%s: the value of %s is written with %s" % (name, w, "all digits" if prec else "the default 6 digits, so it is not what the header holds"))
        sep = [x for x in ins if x[1] == s and x[2] == "text" and f.idominates(i, x[0]) and f.idominates(x[0], v[0]) and x[3].strip() == "" and x[3]] or word != word.rstrip()
        rep.ob(bool(sep), "%s blank after %s" % (name, w), where, "%s: a blank %s between %s and its value" % (name, "stands" if sep else "is missing", w))
    got = set(table[w][0] for w in seen)
    for key in ("NCOLS", "NROWS", "XLLCENTER", "YLLCENTER", "CELLSIZE", NODATA):
        if key in got:
            rep.ob(True, "%s has %s" % (name, key), f.where(), "%s: emits header entry %s" % (name, key))
        elif not any(k == "string" for i, s, k, d in ins):
            rep.viol("%s has %s" % (name, key), f.where(), "%s: never emits header entry %s" % (name, key))
    return len(seen)


def matches(P, e, key, corner):
    e = widen(e)
    if not corner:
        return e[0] == "mapval" and e[2] == ("str", key)
    xs = []
    collect(e, key, xs)
    if not xs:
        return False
    m = xs[0][1]
    want = add(P.poly(("mapval", m, ("str", key))), P.poly(("mapval", m, ("str", "CELLSIZE"))), -0.5)
    try:
        return pkey(P.poly(e)) == pkey(want)
    except Exception:
        return False


def collect(e, key, out):
    if isinstance(e, tuple):
        if e and e[0] == "mapval" and e[2] == ("str", key):
            out.append(e)
        for x in e:
            collect(x, key, out)


def is_elem(S, e):
    """an element of an array member or array parameter"""
    if e[0] != "ld":
        return False
    return contains(e[1], ("idx",)) or e[1][0] == "phi"  # a cursor that walks an array


def cells(p, S, rep, f, calls, hwriters):
    name = dem(p, f)
    ins = ascio.insertions(p, S, f)
    loops = f.natural_loops()
    n = 0
    ctor = {}
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee) in ("std::basic_ofstream::basic_ofstream", "std::basic_ofstream::open", "std::basic_fstream::basic_fstream"):
            s = ascio.stream_of(p, S, f, i.args[0])
            ctor.setdefault(s, []).append(i)
    num = []
    for x in ins:
        i, s, kind, d = x
        if kind not in ("number", "char") or not [h for h, L in loops.items() if i.blk in L]:
            continue
        e = S.expr(f, d)
        ee = widen(e)
        if ee[0] == "mapval" or ee[0] == "c":
            if f.name in hwriters:
                continue
        num.append(x)
        n += 1
        key = "%s cell" % name
        rep.ob(kind == "number", key + " as number", i.where(), "%s: cell values are %s" % (name, "inserted as numbers" if kind == "number" else "inserted as characters, which the reader cannot read back"))
        what = ee
        nod = what[0] == "ld" and what[1][0] == "fld" and what[1][2] == "no_data_value_" or what[0] == "mapval" and what[2] == ("str", NODATA)
        ok = nod or is_elem(S, what) or what[0] in ("phi", "select", "call", "icall", "a", "arg")
        rep.ob(ok, key + " value", i.where(), "%s: what is written for a cell is %s%s" % (name, show(e)[:60], "" if ok else ", neither a cell value nor the NoData value of the header"))
        # digits
        ty = valty(f, d)
        need = {"double": 17, "float": 9}.get(ty)
        if need:
            prec = [y for y in ins if y[1] == s and y[2] == "precision" and y[3] is not None]
            dom = [y for y in prec if f.idominates(y[0], i)]
            ok = bool(dom) and all(y[3] >= need for y in prec)
            rep.ob(ok, key + " digits", i.where(), "%s: %s cell values are written with %s" % (name, ty, "all %d digits" % need if ok else "fewer than %d digits" % need))
        # blank after
        sep = [y for y in ins if y[1] == s and (y[2] == "text" and y[3] and y[3][0] in " \t\n" or y[2] == "endl") and follows(f, i, y[0])]
        rep.ob(bool(sep), key + " separator", i.where(), "%s: a blank %s each value" % (name, "follows" if sep else "is missing after"))
        # header of the same file
        h = [c for c in calls if f.idominates(c, i)]
        own = f.name in hwriters
        rep.ob(bool(h) or own, key + " header first", i.where(), "%s: the header %s the cell values" % (name, "is written before" if h or own else "is not always written before"))
        for c in h:
            fe = S.expr(f, c.args[0])
            for o in ctor.get(s, []):
                if len(o.args) < 2:
                    continue
                oe = S.expr(f, o.args[1])
                same = show(fe) in show(oe)
                if not f.idominates(c, o):
                    continue
                others = [c2 for c2 in h if c2 is not c and show(S.expr(f, c2.args[0])) in show(oe)]
                rep.ob(same or bool(others), key + " same file", o.where(), "%s: cell values go to %s, the header to %s" % (name, show(oe)[:50], show(fe)[:50]))
                if len(o.args) > 2:
                    m = mode(S.expr(f, o.args[2]))
                    rep.ob(m is None or m & 1, key + " appended", o.where(), "%s: the file is opened %s" % (name, "to append to the header" if m is None or m & 1 else "anew, which drops the header written before"))
            if contains(S.expr(f, c.args[1]), ("fld",)) is False and nod and what[0] == "ld":
                rep.viol(key + " nodata header", c.where(), "%s: cells without data are written as no_data_value_ but the header is %s, not the header of the raster" % (name, show(S.expr(f, c.args[1]))[:50]))
    once(p, S, rep, f, name, num, loops)
    return n


def mode(e):
    if e[0] == "c":
        return e[1]
    if e[0] == "call" and e[1].split("::")[-1] == "operator|" and all(x[0] == "c" for x in e[2:4]):
        return e[2][1] | e[3][1]
    return None


def valty(f, op):
    if op[0] == "v":
        return f.insts[op[1]].ty
    return None


def follows(f, a, b):
    """b comes after a before anything can branch away"""
    return f.idominates(a, b) or b.blk in f.reach(a.blk) and False


def once(p, S, rep, f, name, num, loops):
    """exactly one value per iteration of the innermost loop that holds the insertions"""
    ids = set(x[0].id for x in num)
    inner = {}
    for x in num:
        hs = sorted((len(L), h) for h, L in loops.items() if x[0].blk in L)
        inner.setdefault(hs[0][1], []).append(x)
    for h, xs in inner.items():
        L = loops[h]
        bad = []

        def step(i, st, env, wk):
            if i.id in ids:
                if st >= 1:
                    bad.append((i, "more than one value"))
                    return None
                return [(st + 1, None)]
            return [(st, None)]

        def edge(b, s, st, env):
            if s == h:
                if st == 0:
                    bad.append((f.blocks[b][-1], "no value"))
                return None
            if s not in L:
                return None
            return st
        wk = Walker(f)
        starts = []
        for s in f.succ(h):
            if s in L:
                starts.append((s, 0, {}, 0))
        if h in L and any(x[0].blk == h for x in xs):
            starts = [(h, 0, {}, 0)]
        wk.run(starts, step, edge)
        if wk.overflow:
            continue
        w = bad[0][0].where() if bad else xs[0][0].where()
        rep.ob(not bad, "%s one value per cell" % name, w, "%s: %s is written for %s" % (name, bad[0][1] if bad else "exactly one value", "some cell" if bad else "every cell"))


def pairing(p, S, rep):
    n = 0
    for f in p.project():
        q = p.q(f.name)
        if not q.startswith(RC + "::"):
            continue
        name = q.split("::")[-1]
        hw = [(i, e) for k, e, op, i, m in grid.header_writes(p, S, f) if k == NODATA and m == ("fld", ("this",), "headers_")]
        st = []
        for i in f.all_insts():
            if i.op == "store":
                a = S.expr(f, i.args[1])
                if a[0] == "fld" and a[2] == "no_data_value_" and a[1] == ("this",):
                    st.append((i, S.expr(f, i.args[0])))
        cp = [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "CopyHeader" and S.expr(f, i.args[1]) == ("fld", ("this",), "headers_")]
        for i, v in st:
            n += 1
            v = widen(v)
            fromhdr = v[0] == "mapval" and v[2] == ("str", NODATA) or contains(v, ("deref", "iter", "mapat", "mapval")) or "second" in show(v)
            same = any(widen(e) == v or widen(e) == ("ld", ("fld", ("this",), "no_data_value_")) for j, e in hw)
            other = None
            if v[0] == "ld" and v[1][0] == "fld" and v[1][2] == "no_data_value_":
                other = show(v[1][1])
            copied = other is not None and any(other in show(S.expr(f, c.args[0])) for c in cp)
            init = v[0] == "call" and v[1].split("::")[-1].startswith("DefaultNoData") and not cp
            ok = fromhdr or same or copied or init
            rep.ob(ok, "%s sets no_data_value_" % name, i.where(), "%s: no_data_value_ becomes %s%s" % (name, show(v)[:60], "" if ok else " while the header keeps another NoData value"))
        for c in cp:
            n += 1
            after = [i for i, v in st if i.blk in f.reach(c.blk) or i.blk == c.blk and i.idx > c.idx]
            aft2 = [i for i, e in hw if i.blk in f.reach(c.blk) or i.blk == c.blk and i.idx > c.idx]
            src = show(S.expr(f, c.args[0]))
            twin = [v for i, v in st if widen(v)[0] == "ld" and widen(v)[1][0] == "fld" and show(widen(v)[1][1]) in src]
            ok = bool(after or aft2 or twin)
            rep.ob(ok, "%s takes over a header" % name, c.where(), "%s: after the header is copied %s" % (name, "its NoData entry and no_data_value_ are made the same" if ok else "no_data_value_ may differ from its NoData entry"))
        for i, e in hw:
            n += 1
            e = widen(e)
            self_ = e == ("ld", ("fld", ("this",), "no_data_value_"))
            ok = self_ or any(widen(v) == e for j, v in st)
            rep.ob(ok, "%s writes the NoData entry" % name, i.where(), "%s: the NoData entry of the header becomes %s%s" % (name, show(e)[:60], "" if ok else " but no_data_value_ does not"))
        # arrays handed to the writers with the raster's header
        if name in ("PrepareCombSubsetData", "PrepareSubsetData"):
            for i in f.all_insts():
                if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "Initialize1DArray" and len(i.args) > 2:
                    v = widen(S.expr(f, i.args[2]))
                    if v[0] in ("fld", "loc"):
                        v = ("ld", v)
                    n += 1
                    ok = "no_data_value_" in show(v)
                    rep.ob(ok, "%s background" % name, i.where(), "%s: cells outside the subsets are filled with %s%s" % (name, show(v)[:50], "" if ok else ", not with the NoData value of the header"))
        for i in f.all_insts():
            if i.op == "call" and i.callee and p.q(i.callee).endswith("SubsetPositions::GetHeader"):
                n += 1
                v = [show(widen(S.expr(f, a))) for a in i.args]
                ok = any("no_data_value_" in x or NODATA in x or "GetNoData" in x for x in v)
                rep.ob(ok, "%s subset header" % name, i.where(), "%s: the header of the subset is given %s" % (name, "the raster's NoData value" if ok else "another NoData value than the raster's"))
    rep.count("places that set a NoData value or header", n)
    rep.need(n, 6, "places that set a NoData value")
