"""C21: one address per cell: row*NCOLS+column, the position arrays, layer-1; loops stay inside the arrays."""
import compact
import grid
from domains import Domains
from poly import Poly, add, const, mul, key as pkey
from sym import show, contains

TECH = "index-kind inference (row, column, cell, layer) from branch facts, member arrays and value origins, checked at every array access, row-major address and position store"
NOTE = ("Every load and store through an array in ccgl::data_raster, every address computed with the number of rows or columns, every store into a position array, every call that takes a (row, column) "
        "pair. An index whose bound or origin cannot be determined is not judged. ")
CELLS = ("raster_", "raster_2d_", "pos_idx_", "pos_data_")
SUB = ("global_", "local_pos_", "local_posidx_", "data_", "data2d_")
POS2 = ("pos_data_", "local_pos_")
TWO_D = ("raster_2d_", "data2d_")
PAIRS = {"GetPosition": (1, 2), "ValidateRowCol": (1, 2), "GetCoordinateByRowCol": (1, 2), "GetValue": (1, 2), "SetValue": (1, 2), "IsNoData": (1, 2)}


def strip(e):
    while e[0] in ("f2i", "i2f", "zx", "sx", "cast"):
        e = e[1]
    return e


def hdr(e):
    e = strip(e)
    if e[0] == "mapval" and e[2][0] == "str":
        return e[2][1]
    return None


def sname(p, f):
    return p.q(f.name).split("::")[-1]


def member(e):
    """('raster_', owner) for a loaded array member"""
    if e[0] == "ld" and e[1][0] == "fld":
        return e[1][2], e[1][1]
    return None, None


def located(e):
    """("row" or "col", object, header) of one half of what GetPositionByCoordinate gives back"""
    e = strip(e)
    k = "row"
    if e[0] == "bin" and e[1] in ("lshr", "ashr") and e[3] == ("c", 32):
        k, e = "col", strip(e[2])
    if e[0] == "call" and e[1].endswith("::GetPositionByCoordinate") and len(e) == 6:
        return k, e[2], e[5]
    return None


def extent(s):
    """owner of the grid a number of rows or columns belongs to: the map it was looked up in"""
    s = strip(s)
    return s[1] if s[0] == "mapval" else None


def elsewhere(x, s):
    """a position in one grid is combined with the number of columns of another"""
    w, m = located(x), extent(s)
    if w is None or m is None:
        return None
    own = m[0] == "fld" and m[1] == w[1]
    if w[2] == ("null",):
        return None if own or m[0] not in ("fld", "arg") else "the position is one in the raster's own extent, the number of columns is that of another header"
    return "the position is one in the extent of %s, the number of columns is that of another header" % show(w[2])[:30] if m != w[2] and (own or m[0] in ("fld", "arg")) else None


class Kinds:
    def __init__(self, p, S, f):
        self.p, self.S, self.f = p, S, f
        self.P = Poly()
        self.fc = {}
        self.vec = None
        self.posloc = set()
        for i in f.all_insts():
            if i.op == "call" and i.callee and "Position" in p.q(i.callee).split("::")[-1]:
                for a in i.args:
                    e = S.expr(f, a)
                    if e[0] == "loc":
                        self.posloc.add(e)

    def lt(self, blk):
        """polynomials D of the facts D >= 0"""
        r = self.fc.get(blk)
        if r is None:
            r = []
            for x in self.S.facts(self.f, blk):
                if len(x) != 3:
                    continue
                o, a, b = x
                if o in ("sgt", "ugt", "sge", "uge"):
                    a, b = b, a
                    o = {"sgt": "slt", "ugt": "slt", "sge": "sle", "uge": "sle"}[o]
                if o in ("slt", "ult", "sle", "ule") and isinstance(a, tuple) and isinstance(b, tuple):
                    try:
                        d = add(self.P.poly(strip(b)), self.P.poly(strip(a)), -1)
                    except Exception:
                        continue
                    r.append(add(d, const(1), -1) if o in ("slt", "ult") else d)
            self.fc[blk] = r
        return r

    def ub(self, e, blk):
        """strict upper bounds (polynomials) that the branch facts give for e"""
        out = []
        try:
            pe = self.P.poly(strip(e))
        except Exception:
            return out
        ms = [m for m in pe if m]
        if not ms or all(x[0] != "phi" and False for m in ms for x in m):
            return out
        for d in self.lt(blk):
            if all(d.get(m, 0) == -pe[m] for m in ms):
                b = add(add(d, pe), const(1))
                if not any(m in b for m in ms):
                    out.append(b)
        return out

    def pushes(self):
        if self.vec is None:
            self.vec = {}
            for i in self.f.all_insts():
                if i.op == "call" and i.callee and self.p.q(i.callee).split("::")[-1] in ("emplace_back", "push_back") and len(i.args) == 2:
                    v = self.S.expr(self.f, i.args[0])
                    o = grid.refval(self.S, self.f, i.args[1], i)
                    e = self.S.expr(self.f, o) if o is not None else None
                    ad = self.S.expr(self.f, i.args[1])
                    if e is None or ad[0] == "loc" and len([s for s in self.f.uses().get(i.args[1], []) if s.op == "store"]) > 1:
                        e = ("ld", ad)
                    self.vec.setdefault(v, []).append((e, i.blk))
        return self.vec

    def kind(self, e, blk, depth=0):
        e = strip(e)
        if depth > 6:
            return None
        w = located(e)
        if w:
            return w[0]
        if e[0] == "ld":
            a = e[1]
            k = None
            if a[0] == "idx" and a[2][0] == "c" and a[2][1] in (0, 1):
                base, k = a[1], a[2][1]
            elif a[0] == "ld":
                base, k = a, 0
            if k is not None and base[0] == "ld" and base[1][0] == "idx":
                arr = self.settled(base[1][1])
                n, o = member(arr)
                if n in POS2 or arr[0] == "ld" and arr[1] in self.posloc:
                    return "col" if k else "row"
            if a[0] == "call" and a[1].split("::")[-1] in ("at", "operator[]") and len(a) == 4:
                ks = set(self.kind(x, b, depth + 1) for x, b in self.pushes().get(a[2], []))
                if len(ks) == 1:
                    return ks.pop()
        if e[0] == "bin" and e[1] in ("sdiv", "udiv", "srem", "urem"):
            h = hdr(e[3])
            if h == "NCOLS":
                return "row" if "div" in e[1] else "col"
            if h == "NROWS":
                return "(column of a column-major address)" if "div" in e[1] else "(row of a column-major address)"
            return None
        ks = set()
        for b in self.ub(e, blk):
            n = self.single(b)
            if n == "NROWS":
                ks.add("row")
            elif n == "NCOLS":
                ks.add("col")
        if len(ks) == 1:
            return ks.pop()
        if e[0] == "bin" and e[1] in ("sub", "add"):
            k = self.kind(e[2], blk, depth + 1)
            if k and (e[1] == "sub" or self.kind(e[3], blk, depth + 1) in (None, k)):
                o = member(e[3])[0]
                if o and ("row" in o) != (k == "row") and ("row" in o or "col" in o):
                    return "(%s minus %s)" % ({"row": "row", "col": "column"}.get(k, k), o)
                return k
        return None

    def settled(self, e):
        """the array a local pointer stands for where it is not null"""
        if e[0] != "phi" or e[1] not in self.f.insts:
            return e
        es = set(self.S.expr(self.f, v) for v, b in grid.split(self.f, ("v", e[1]), None) if v[0] not in ("null", "undef", "zero"))
        return es.pop() if len(es) == 1 else e

    def single(self, b):
        """name of the header entry or member a bound stands for"""
        ms = [m for m in b if m]
        if len(ms) == 1 and len(ms[0]) == 1 and b[ms[0]] == 1 and not b.get((), 0):
            a = strip(ms[0][0])
            return hdr(a) or (a[1][2] if a[0] == "ld" and a[1][0] == "fld" else None)
        return None


def words(k):
    return {"row": "a row", "col": "a column"}.get(k, k)


def sizes(e):
    """name of the quantity a factor stands for: NCOLS, NROWS, layers, width or height of a range"""
    e = strip(e)
    h = hdr(e)
    if h in ("NCOLS", "NROWS"):
        return h
    if h == "LAYERS":
        return "layers"
    n = member(e)[0]
    if n in ("n_lyrs_", "n_lyrs"):
        return "layers"
    if n in ("n_cells_", "n_cells") or h == "CELLSNUM":
        return "cells"
    if e[0] == "bin" and e[1] == "mul" and set((sizes(e[2]), sizes(e[3]))) == {"NCOLS", "NROWS"}:
        return "cells"
    if n in ("n_rows_", "n_cols_", "n_rows", "n_cols"):
        return "NROWS" if "row" in n else "NCOLS"
    # a span: upper - lower + 1 of members that name rows or columns
    if e[0] == "bin" and e[1] in ("add", "sub"):
        ns = set()

        def w(x):
            if isinstance(x, tuple):
                if x[:1] == ("fld",):
                    ns.add(x[2])
                    return
                for y in x:
                    w(y)
        w(e)
        t = set("row" if "row" in n else "col" if "col" in n else None for n in ns)
        if t == {"row"}:
            return "NROWS"
        if t == {"col"}:
            return "NCOLS"
    return None


def linear(e):
    """(x, size expression, y) of  x*size + y"""
    e = strip(e)
    if e[0] != "bin" or e[1] != "add":
        return None
    for m, y in ((e[2], e[3]), (e[3], e[2])):
        m = strip(m)
        if m[0] == "bin" and m[1] == "mul":
            a, b = m[2], m[3]
            sa, sb = sizes(a), sizes(b)
            if sb and not sa:
                return a, b, y
            if sa and not sb:
                return b, a, y
    return None


TWINS = {"pos_data_": "pos_idx_", "pos_idx_": "pos_data_", "local_pos_": "local_posidx_", "local_posidx_": "local_pos_"}
MAKERS = ("Initialize1DArray", "Initialize2DArray")


def together(p, S, rep, f, nm):
    """positions and indices of the valid cells come in pairs"""
    sets, handed = [], set()
    for i in f.all_insts():
        if i.op == "store":
            a = S.expr(f, i.args[1])
            if a[0] == "fld" and a[2] in TWINS:
                v = S.expr(f, i.args[0])
                if v[0] == "arg":
                    handed.add((a[1], a[2]))        # each is handed in by a call of its own
                if v[0] in ("null", "arg", "phi", "undef"):
                    continue
                sets.append((a[1], a[2], None, i))
        elif i.op == "call" and i.callee:
            b = p.q(i.callee).split("::")[-1]
            if b in MAKERS or b == "GetRasterPositionData":
                es = [S.expr(f, x) for x in i.args]
                for k, e in enumerate(es):
                    if e[0] == "fld" and e[2] in TWINS and k:
                        sets.append((e[1], e[2], es[0], i))
    n = 0
    for o, m, src, i in sets:
        if (o, m) in handed:
            continue
        twins = [t for t in sets if t[0] == o and t[1] == TWINS[m] and (f.idominates(t[3], i) or f.idominates(i, t[3]) or S.facts(f, t[3].blk) == S.facts(f, i.blk))]
        n += 1
        ok = bool(twins)
        rep.ob(ok, "%s without %s in %s" % (m, TWINS[m], nm), i.where(), "%s: %s is %s" % (nm, m, "set together with %s" % TWINS[m] if ok else "set but %s is not" % TWINS[m]))
        if ok and src is not None:
            same = [t for t in twins if t[2] is None or t[2] == src]
            n += 1
            rep.ob(bool(same), "source of %s and %s in %s" % (m, TWINS[m], nm), i.where(), "%s: %s and %s are %s" % (nm, m, TWINS[m], "from the same source" if same else "from %s and %s" % (show(src, f), show(twins[0][2], f))))
    return n


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("an address x*S+y has S = number of columns, x a row, y a column (or S = number of layers and y a layer index below it)")
    rep.rule("a position array holds rows in entry 0 and columns in entry 1, and (row, column) arguments are passed in that order")
    rep.rule("a counter that indexes a cell array is bounded by the number of cells of that array and starts at its first cell; a layer index is below the number of layers")
    rep.rule("valid cells, cells of the grid, cells of a subset and cells of the grid it spans are counted apart: an array is indexed with, made for and filled with what it holds, along every path")
    rep.rule("a copy between two arrays uses the same cell on both sides")
    rep.rule("the rows and columns of the valid cells and their indices are made or taken together, of the same number of cells or from the same raster")
    nl = na = npos = ncp = npair = nk = ns = nd = nt = 0
    pairs = takers(p, S, rep)
    LAYERED.clear()
    LAYERED.update(layertakers(p, S))
    nw = 0
    for f in p.project():
        q = p.q(f.name)
        if "::data_raster::" not in q:
            continue
        K = Kinds(p, S, f)
        nm = sname(p, f)
        lens = lengths(p, S, f, K)
        nt += together(p, S, rep, f, nm)
        for i in f.all_insts():
            if i.op == "add":
                nl += address(rep, S, f, K, nm, i)
            elif i.op in ("load", "store"):
                a = S.expr(f, i.args[-1])
                if a[0] == "idx":
                    na += access(rep, S, f, K, nm, i, a, lens)
                elif a[0] == "ld" and a[1][0] == "idx" and (i.op == "store" or i.ty != "ptr") and member(a[1][1])[0] in TWO_D:
                    m, o = member(a[1][1])
                    layer(rep, f, K, nm, i, ("c", 0), ("ld", ("fld", o, "n_lyrs_" if m == "raster_2d_" else "n_lyrs")), show(a)[:60])
                if i.op == "store":
                    npos += position(rep, S, f, K, nm, i, a)
                    ncp += copy(rep, S, f, K, nm, i, a)
            elif i.op == "icmp":
                nk += compare(rep, S, f, K, nm, i)
            elif i.op == "call" and i.callee:
                for k, d, w in LAYERED.get(i.callee, ()):
                    nw += 1
                    layer(rep, f, K, nm, i, shift(S.expr(f, i.args[k]), d), ("ld", ("fld", S.expr(f, i.args[0]), "n_lyrs_")), "call of %s" % p.q(i.callee).split("::")[-1], w)
                if i.callee in pairs:
                    npair += pair(rep, S, f, K, nm, i, p.q(i.callee).split("::")[-1], pairs[i.callee])
            elif i.op in ("sdiv", "srem", "udiv", "urem"):
                e = S.expr(f, ("v", i.id))
                if hdr(e[3]) == "NROWS" and "pos_idx_" in show(e[2]):
                    rep.viol("%s position in the grid" % nm, i.where(), "%s: a position in the grid is taken apart with the number of rows: %s" % (nm, show(e)[:80]))
        ns += shifts(p, S, rep, f, K, nm)
        D = Domains(p, S, f, K, hdr, strip)
        D.run()
        for x in sorted(D.judged):
            if x in D.found:
                i, t = D.found[x]
                rep.viol("%s domain" % nm, i.where(), "%s: %s" % (nm, t))
            else:
                rep.ob(True, "%s domain" % nm, f.insts[x].where(), "%s: index and array count the same cells" % nm)
        nd += len(D.judged)
        rep.count("functions whose paths were too many to follow", int(D.over))
    for n, w, m in ((nl, "row-major addresses", 10), (na, "array accesses", 60), (npos, "stores into position arrays", 6), (ncp, "copies between arrays", 8), (npair, "(row, column) arguments", 6), (nk, "comparisons of rows and columns", 1), (ns, "layers kept in between", 1), (nw, "layer arguments", 3), (nd, "indices compared with what their array counts", 1), (nt, "positions made or taken", 1)):
        rep.count(w, n)
    compact.flag(p, S, rep)
    compact.shift(p, S, rep)
    compact.layer(p, S, rep)
    compact.search(p, S, rep)
    rep.need(nl, 5, "row-major addresses")
    rep.need(na, 20, "indexed accesses of cell arrays")


def lengths(p, S, f, K):
    out = {}
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] in ("Initialize1DArray", "Initialize2DArray"):
            two = p.q(i.callee).endswith("Initialize2DArray")
            if len(i.args) < 3:
                continue
            a = S.expr(f, i.args[2 if two else 1])
            n = S.expr(f, i.args[0])
            c = S.expr(f, i.args[1]) if two else None
            out.setdefault(("ld", a), set()).add((strip(n), c))
    return out


def address(rep, S, f, K, nm, i):
    e = S.expr(f, ("v", i.id))
    r = linear(e)
    if r is None:
        return planes(rep, f, K, nm, i, e)
    x, s, y = r
    sz = sizes(s)
    if sz == "cells":
        b = [K.single(z) for z in K.ub(x, i.blk)]
        bad = any(z in ("n_lyrs_", "n_lyrs", "LAYERS") for z in b)
        rep.ob(not bad, "%s address" % nm, i.where(), "%s: address %s%s" % (nm, show(e)[:100], ": layer by layer, while layered data are stored cell by cell" if bad else ""))
        return 1
    if sz == "layers":
        b = K.ub(y, i.blk)
        bad = None
        if b:
            ok = any(same(K, x2, s) for x2 in b)
            names = [K.single(x2) for x2 in b]
            if not ok and any(n in ("NCOLS", "NROWS", "n_cells_", "n_cells", "CELLSNUM") for n in names):
                bad = "the part below the layers is bounded by %s" % [n for n in names if n][0]
            ps = K.P.poly(s)
            if not ok and any(set(add(x2, ps, -1)) == {()} and add(x2, ps, -1)[()] > 0 for x2 in b):
                bad = "the layer can reach the number of layers"
        rep.ob(bad is None, "%s address" % nm, i.where(), "%s: address %s%s" % (nm, show(e)[:100], "" if bad is None else ": " + bad))
        return 1
    if hdr(y) or strip(y)[0] == "c":
        return 0
    w = elsewhere(x, s) or elsewhere(y, s)
    if w:
        rep.viol("%s address" % nm, i.where(), "%s: address %s: %s" % (nm, show(e)[:100], w))
        return 1
    kx, ky = K.kind(x, i.blk), K.kind(y, i.blk)
    if kx is None and ky is None and sz == "NCOLS":
        rep.ob(True, "%s address" % nm, i.where(), "%s: address %s" % (nm, show(e)[:100]))
        return 1
    bad = None
    if sz == "NROWS":
        bad = "rows are multiplied with the number of rows"
    elif kx not in (None, "row"):
        bad = "%s is multiplied with the number of columns" % words(kx)
    elif ky not in (None, "col"):
        bad = "%s is added as the column" % words(ky)
    rep.ob(bad is None, "%s address" % nm, i.where(), "%s: address %s%s" % (nm, show(e)[:100], "" if bad is None else ": " + bad))
    return 1


def planes(rep, f, K, nm, i, e):
    """layer * cells + cell: layered data are stored cell by cell"""
    for m, y in ((e[2], e[3]), (e[3], e[2])):
        m = strip(m)
        if m[0] != "bin" or m[1] != "mul":
            continue
        lay = [any(layered(f, b) for b in K.ub(x, i.blk)) for x in (m[2], m[3])]
        if any(lay) and not all(lay):
            x, s = (m[2], m[3]) if lay[0] else (m[3], m[2])
            b = K.ub(y, i.blk)
            bad = any(same(K, z, s) for z in b) and not layered(f, K.P.poly(strip(s)))
            rep.ob(not bad, "%s address" % nm, i.where(), "%s: address %s%s" % (nm, show(e)[:100], ": layer by layer, while layered data are stored cell by cell" if bad else ""))
            return 1
    return 0


def layered(f, b):
    """a bound that is a number of layers, by the member or the parameter it comes from"""
    ms = [m for m in b if m]
    if len(ms) != 1 or len(ms[0]) != 1 or b[ms[0]] != 1 or b.get((), 0):
        return False
    a = strip(ms[0][0])
    if a[0] == "arg" and isinstance(a[1], int) and a[1] < len(f.params):
        return "lyr" in (f.params[a[1]]["n"] or "")
    return sizes(a) == "layers"


def same(K, b, s):
    try:
        return pkey(b) == pkey(K.P.poly(strip(s)))
    except Exception:
        return False


def access(rep, S, f, K, nm, i, a, lens):
    n = 0
    # second index of a 2D array
    if a[1][0] == "ld" and a[1][1][0] == "idx":
        m, o = member(a[1][1][1])
        if m in TWO_D:
            n += 1
            layer(rep, f, K, nm, i, a[2], ("ld", ("fld", o, "n_lyrs_" if m == "raster_2d_" else "n_lyrs")), show(a)[:60])
        return n
    m, o = member(a[1])
    ls = lens.get(a[1])
    if m in CELLS and o is not None:
        L = ("ld", ("fld", o, "n_cells_"))
    elif m in SUB:
        L = ("ld", ("fld", o, "n_cells"))
    elif ls and len(ls) == 1:
        L = list(ls)[0][0]
    else:
        return 0
    n += 1
    x = strip(a[2])
    w = wrong_index(m, o, x)
    if w:
        rep.viol("%s cell index" % nm, i.where(), "%s: %s[%s]: %s" % (nm, show(a[1])[:40], show(x)[:40], w))
        return n
    if x[0] == "c" or linear(x):
        r = linear(x)
        if r and ls and len(ls) == 1 and m not in CELLS:
            need = degree(K, r[0], r[1], i.blk)
            have = deg(K.P.poly(L))
            if need is not None:
                rep.ob(need <= have, "%s length" % nm, i.where(), "%s: %s is used like an array of %s x %s cells%s" % (nm, show(a[1])[:40], show(r[0])[:30], show(r[1])[:40],
                       "" if need <= have else ", but was created with %s" % show(L)[:60]))
        return n
    b = K.ub(x, i.blk)
    if not b:
        return n
    pl = K.P.poly(L)
    good = any(pkey(y) == pkey(pl) for y in b)
    bad = None
    if not good:
        for y in b:
            d = add(y, pl, -1)
            s = K.single(y)
            if m is None and s in ("n_cells_", "n_cells") and sizes(L) == "cells":
                bad = "counts the valid cells while the array has one entry for every cell of the grid"
            elif set(d) == {()}:
                bad = "reaches %d beyond the last cell" % d[()] if d[()] > 0 else "leaves out the last %d cells" % -d[()]
            elif m in CELLS + SUB and s in ("NROWS", "NCOLS", "n_lyrs_", "n_lyrs", "LAYERS") or s in ("NROWS", "NCOLS", "n_lyrs_", "n_lyrs", "LAYERS") and deg(pl) > 1:
                bad = "runs over %s only" % s
    if bad is None and good and x[0] == "phi":
        ph = f.insts.get(x[1])
        if ph is not None and ph.op == "phi":
            for v, bl in ph.args:
                if v[0] == "c" and v[1] > 0 and not any(bl in Lp and ph.blk == h for h, Lp in f.natural_loops().items()):
                    bad = "starts at cell %d" % v[1]
    rep.ob(bad is None, "%s cell index" % nm, i.where(), "%s: %s[%s] is an access to a cell%s" % (nm, show(a[1])[:40], show(x)[:40], "" if bad is None else ", but the index " + bad))
    return n


def wrong_index(m, o, x):
    """an index that was looked up in an array whose entries mean something else"""
    if x[0] != "ld" or x[1][0] != "idx":
        return None
    m2, o2 = member(x[1][1])
    if m in CELLS and m2 == "pos_idx_" and o2 == o:
        return "a position in the full grid used as index of a valid cell"
    if m in CELLS and m2 == "local_posidx_":
        return "a position in the sub-grid used as index of a valid cell"
    if m in SUB and m2 in ("global_", "local_posidx_", "pos_idx_"):
        return "an index of another array used for the cells of the subset"
    return None


def deg(pl):
    return max([len(m) for m in pl] or [0])


def degree(K, x, s, blk):
    bs = K.ub(x, blk)
    if not bs:
        return None
    return min(deg(b) for b in bs) + deg(K.P.poly(strip(s)))


LAYERED = {}


def shift(e, d):
    """e + d"""
    e = strip(e)
    if e[0] == "c":
        return ("c", e[1] + d)
    if e[0] == "bin" and e[1] in ("add", "sub") and e[3][0] == "c":
        d += e[3][1] if e[1] == "add" else -e[3][1]
        e = strip(e[2])
    return e if d == 0 else ("bin", "add" if d > 0 else "sub", e, ("c", abs(d)))


def layertakers(p, S):
    """{function: [(parameter, what to add to get the layer's index, element is written)]}: the parameters that say which layer of the object"""
    out = {}
    todo = True
    fs = [f for f in p.project() if "::data_raster::clsRasterData" in p.q(f.name) and f.this]
    while todo:
        todo = False
        for f in fs:
            got = {}
            for i in f.all_insts():
                found = []
                if i.op in ("load", "store"):
                    c = cellindex(S.expr(f, i.args[-1]))
                    if c and c[2] is not None and member(c[0]) == ("raster_2d_", ("this",)) and (i.op == "store" or i.ty != "ptr"):
                        found.append((c[2], 0, i.op == "store"))
                elif i.op == "call" and i.callee in out and S.expr(f, i.args[0]) == ("this",):
                    found += [(S.expr(f, i.args[k]), d, w) for k, d, w in out[i.callee]]
                for e, d, w in found:
                    e = shift(e, d)
                    b, d = (strip(e[2]), e[3][1] if e[1] == "add" else -e[3][1]) if e[0] == "bin" and e[1] in ("add", "sub") and e[3][0] == "c" else (e, 0)
                    if b[0] == "arg":
                        got.setdefault(b[1], set()).add((d, w))
            r = []
            for k, s in sorted(got.items()):
                if len(set(d for d, w in s)) == 1:
                    r.append((k, list(s)[0][0], any(w for d, w in s)))
            if r and out.get(f.name) != r:
                out[f.name] = r
                todo = True
    return out


def counts(f, K, i, pn):
    """the number of layers, and what it was set to before"""
    r = [pn]
    for x in f.all_insts():
        if x.op == "store" and K.single(pn) and f.idominates(x, i):
            a = K.S.expr(f, x.args[1])
            if a[0] == "fld" and a[2] == K.single(pn) and a[1] == ("this",):
                try:
                    r.append(K.P.poly(strip(K.S.expr(f, x.args[0]))))
                except Exception:
                    pass
    return r


def layer(rep, f, K, nm, i, k, n, text, writes=None):
    k = strip(k)
    pn = K.P.poly(n)
    if k[0] == "c":
        h = onelayer(f, K, i, pn, i.op == "store" if writes is None else writes)
        if h is not None:
            rep.ob(not h, "%s layer index" % nm, i.where(), "%s: layer index of %s%s" % (nm, text, " is %d for every layer that is gone through" % k[1] if h else ""))
        return
    b = K.ub(k, i.blk)
    bad = None
    if b:
        for q in counts(f, K, i, pn)[1:]:
            if any(set(add(y, q, -1)) <= {()} for y in b):
                pn = q
    if b and not any(pkey(y) == pkey(pn) for y in b):
        for y in b:
            d = add(y, pn, -1)
            if set(d) == {()} and d[()] > 0:
                bad = "can be the number of layers"
            elif K.single(y) in ("NROWS", "NCOLS", "n_cells_", "n_cells"):
                bad = "runs over %s" % K.single(y)
            elif set(d) == {()} and d[()] < 0:
                bad = "never is the last layer"
    if bad is None and b and any(pkey(y) == pkey(pn) for y in b) and k[0] == "phi":
        ph = f.insts.get(k[1])
        if ph is not None and ph.op == "phi" and not any(a[2][:2] == ("c", 0) for x, a in layered_accesses(f, K)):
            for v, bl in ph.args:
                if v[0] == "c" and 0 < v[1] < 1 << 30 and not any(bl in Lp and ph.blk == h for h, Lp in f.natural_loops().items()):
                    bad = "never is the first layer"
    # a 1-based layer number becomes an index by subtracting one
    if bad is None and k[0] == "bin" and k[1] in ("sub", "add") and k[3][0] == "c":
        off = -k[3][1] if k[1] == "sub" else k[3][1]
        lows = [d for d in K.lt(i.blk) if set(x for x in d if x) and all(d.get(m) == 1 for m in K.P.poly(k[2]) if m) and len([x for x in d if x]) == len([x for x in K.P.poly(k[2]) if x])]
        for d in lows:
            low = -d.get((), 0)          # k[2] >= low
            if low + off < 0:
                bad = "can be negative"
    rep.ob(bad is None, "%s layer index" % nm, i.where(), "%s: layer index of %s%s" % (nm, text, "" if bad is None else " " + bad))


def layered_accesses(f, K):
    """[(instruction, address)] of the elements of layered arrays"""
    if not hasattr(f, "_layacc"):
        f._layacc = []
        for i in f.all_insts():
            if i.op in ("load", "store"):
                a = K.S.expr(f, i.args[-1])
                c = cellindex(a)
                if c and c[2] is not None and member(c[0])[0] in TWO_D and (i.op == "store" or i.ty != "ptr"):
                    f._layacc.append((i, ("idx", c[0], strip(c[2]))))
            elif i.op == "call":
                for k, d, w in LAYERED.get(i.callee, ()):
                    f._layacc.append((i, ("idx", None, shift(K.S.expr(f, i.args[k]), d))))
    return f._layacc


def onelayer(f, K, i, pn, writes=False):
    """a fixed layer is used by every turn of a loop over the layers, and no other: True; None if it is in no such loop"""
    loops = f.natural_loops()
    mine = [(h, b) for h, b in loops.items() if i.blk in b]
    if not mine:
        return None
    inner = min(mine, key=lambda t: len(t[1]))[1]
    for h, body in mine:
        for ph in f.blocks[h]:
            if ph.op != "phi":
                continue
            e = K.S.expr(f, ("v", ph.id))
            nxt = [s for s in f.succ(h) if s in body]
            if e[0] == "phi" and any(pkey(y) == pkey(pn) for s in nxt for y in K.ub(e, s)):
                return writes or not any(x.blk in inner and any(z[:2] == e[:2] for z in phiset(a[2])) for x, a in layered_accesses(f, K))
    return None


def position(rep, S, f, K, nm, i, a):
    base, k = None, None
    if a[0] == "idx" and a[2][0] == "c" and a[2][1] in (0, 1):
        base, k = a[1], a[2][1]
    elif a[0] == "ld":
        base, k = a, 0
    if base is None or base[0] != "ld" or base[1][0] != "idx" or member(base[1][1])[0] not in POS2:
        return 0
    v = S.expr(f, i.args[0])
    if strip(v)[0] == "c":
        return 0
    kd = K.kind(v, i.blk)
    want = "col" if k else "row"
    rep.ob(kd in (None, want), "%s position %s" % (nm, want), i.where(), "%s: %s of a position array becomes %s%s" % (
        nm, "the column" if k else "the row", show(v)[:70], "" if kd in (None, want) else ", which is %s" % words(kd)))
    return 1


def phis(e, out, skip=()):
    if isinstance(e, tuple):
        if e[:1] == ("phi",):
            out.add(e)
            return
        for x in e:
            phis(x, out)


def cellindex(a):
    """(array, cell index, layer index) of an element address"""
    if a[0] == "idx":
        if a[1][0] == "ld" and a[1][1][0] == "idx":
            return a[1][1][1], a[1][1][2], a[2]
        return a[1], a[2], None
    if a[0] == "ld" and a[1][0] == "idx":
        return a[1][1], a[1][2], ("c", 0)
    return None


def compare(rep, S, f, K, nm, i):
    """rows are compared with rows"""
    if i.d.get("p") not in ("eq", "ne"):
        return 0
    a, b = K.kind(S.expr(f, i.args[0]), i.blk), K.kind(S.expr(f, i.args[1]), i.blk)
    if a is None or b is None:
        return 0
    rep.ob(a == b, "%s comparison" % nm, i.where(), "%s: %s is compared with %s" % (nm, words(a), words(b)))
    return 1


def offset(K, a, b):
    """constant a - b, or None"""
    try:
        d = add(K.P.poly(strip(a)), K.P.poly(strip(b)), -1)
    except Exception:
        return None
    return int(d.get((), 0)) if not [m for m in d if m] else None


def elem(e):
    """index of an element of a container held in a local variable"""
    if e[0] == "call" and e[1].split("::")[-1] in ("operator[]", "at") and len(e) == 4:
        return strip(e[3])
    return None


def shifts(p, S, rep, f, K, nm):
    """layers kept in a container meanwhile come back to the layer they were taken from"""
    got = {}
    for i in f.all_insts():
        if i.op != "store":
            continue
        a, v = S.expr(f, i.args[1]), strip(S.expr(f, i.args[0]))
        c = f.insts.get(i.args[0][1]) if i.args[0][0] == "v" else None
        if c is not None and c.op == "call" and c.callee in LAYERED and elem(a) is not None:
            for k, d, w in LAYERED[c.callee]:
                e = shift(S.expr(f, c.args[k]), d)
                if any(counter(K, f, z, i.blk) for z in phiset(e)):
                    d = offset(K, e, elem(a))
                    if d is not None:
                        got.setdefault("taken from", {}).setdefault(d, i)
        if v[0] != "ld":
            continue
        for one, two, way in ((a, v[1], "taken from"), (v[1], a, "put into")):
            c = cellindex(one)
            x = elem(two)
            if c is None or c[2] is None or member(c[0])[0] not in TWO_D or x is None:
                continue
            if one is a:
                way = "put into"
            else:
                way = "taken from"
            if not any(counter(K, f, z, i.blk) for z in phiset(c[2])):
                continue
            d = offset(K, c[2], x)
            if d is not None:
                got.setdefault(way, {}).setdefault(d, i)
    n = 0
    if len(got) == 2:
        n = 1
        ok = set(got["taken from"]) == set(got["put into"])
        i = list(got["put into"].values())[0]
        rep.ob(ok, "%s layers kept" % nm, i.where(), "%s: layers are taken out with shift %s and put back with shift %s" % (nm, sorted(got["taken from"]), sorted(got["put into"])))
    return n


def phiset(e):
    s = set()
    phis(e, s)
    return s


def counter(K, f, x, blk):
    return x[0] == "phi" and bool(K.ub(x, blk))


def copy(rep, S, f, K, nm, i, a):
    v = strip(S.expr(f, i.args[0]))
    if v[0] != "ld":
        return 0
    d, s = cellindex(a), cellindex(v[1])
    if d is None or s is None:
        return 0
    pd, ps = set(), set()
    phis(d[1], pd)
    phis(d[2], pd)
    phis(s[1], ps)
    phis(s[2], ps)
    if not all(counter(K, f, x, i.blk) for x in pd | ps):
        return 0
    pd = set(x for x in pd if counter(K, f, x, i.blk))
    ps = set(x for x in ps if counter(K, f, x, i.blk))
    if not pd or not ps:
        return 0
    bad = not (pd <= ps or ps <= pd)
    if not bad and d[2] is not None and s[2] is not None:
        # same layer on both sides
        l1, l2 = strip(d[2]), strip(s[2])
        if counter(K, f, l1, i.blk) and counter(K, f, l2, i.blk) and l1 != l2:
            bad = True
    # one-dimensional result of the layers of a cell
    if not bad and (d[2] is None) != (s[2] is None):
        two, oned = (d, s) if d[2] is not None else (s, d)
        if member(two[0])[0] in TWO_D and len(phiset(two[2])) == 1 and phiset(two[2]) == phiset(oned[1]) and not phiset(two[1]):
            o = offset(K, two[2], oned[1])
            if o not in (None, 0):
                bad = True
            if o is None:
                df = add(K.P.poly(strip(two[2])), K.P.poly(strip(oned[1])), -1)
                bad = any(x in phiset(two[2]) for m in df for x in m)
    # the same cell on both sides: an index into the position array and the plain counter must agree
    c1, c2 = strip(d[1]), strip(s[1])
    for x, y in ((c1, c2), (c2, c1)):
        if x[0] == "ld" and x[1][0] == "idx" and strip(x[1][2])[0] == "phi" and y[0] == "phi" and counter(K, f, y, i.blk) and strip(x[1][2]) != y:
            bad = True
    rep.ob(not bad, "%s copy" % nm, i.where(), "%s: %s = %s%s" % (nm, show(a)[:60], show(v)[:60], ": not the same cell on both sides" if bad else ""))
    return 1


def takers(p, S, rep):
    """functions with a (row, column) pair of parameters: the accessors and whatever passes its parameters on to one"""
    out = {}
    for f in p.project():
        b = p.q(f.name).split("::")[-1]
        if b in PAIRS and "clsRasterData" in p.q(f.name):
            r, c = PAIRS[b]
            if len(f.params) > c and all(f.dity[k + 1].replace("const ", "") == "int" for k in (r, c) if k + 1 < len(f.dity)):
                out[f.name] = (r, c)
    work = True
    while work:
        work = False
        for f in p.project():
            if f.name in out or "::data_raster::" not in p.q(f.name):
                continue
            got = set()
            for i in f.all_insts():
                if i.op == "call" and i.callee in out:
                    r, c = out[i.callee]
                    if len(i.args) <= max(r, c):
                        continue
                    a, b = S.expr(f, i.args[r]), S.expr(f, i.args[c])
                    if a[0] == "arg" and b[0] == "arg" and a != b:
                        got.add((a[1], b[1]))
            if len(got) == 1:
                out[f.name] = got.pop()
                work = True
    return out


def pair(rep, S, f, K, nm, i, b, rc):
    r, c = rc
    if len(i.args) <= c:
        return 0
    if not all(isint(f, i.args[k]) for k in (r, c)):
        return 0
    kr, kc = K.kind(S.expr(f, i.args[r]), i.blk), K.kind(S.expr(f, i.args[c]), i.blk)
    ws = [located(S.expr(f, i.args[k])) for k in (r, c)]
    obj = S.expr(f, i.args[0])
    if all(ws) and b in PAIRS and any(w[2] == ("null",) and w[1] != obj for w in ws):
        rep.viol("%s calls %s" % (nm, b), i.where(), "%s: the position in the extent of %s is looked up in %s" % (nm, show(ws[0][1])[:30], show(obj)[:30]))
        return 1
    ok = kr in (None, "row") and kc in (None, "col")
    rep.ob(ok, "%s calls %s" % (nm, b), i.where(), "%s: calls %s(%s, %s)%s" % (nm, b, show(S.expr(f, i.args[r]))[:40], show(S.expr(f, i.args[c]))[:40], "" if ok else ": row and column are exchanged"))
    return 1


def isint(f, a):
    if a[0] == "v":
        return f.insts[a[1]].ty in ("i32", "i64")
    if a[0] == "a":
        return dict(enumerate(f.params)).get(a[1], "i32") in ("i32", "i64") if isinstance(f.params, list) and f.params and isinstance(f.params[0], str) else True
    return a[0] == "c"
