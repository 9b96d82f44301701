"""C09: statistics skip NoData, and each name answers with its own figure of the requested layer."""
import grid
from sym import show

TECH = "recurrence classification of the accumulators (guard facts per update) and table extraction of name -> figure through the statistics maps"
NOTE = "all instantiations of BasicStatistics, CalculateStatistics, GetStatistics and the named wrappers; rounding of the sums is not modelled."

WANT = {"VALID_CELLNUMBER": "count", "MEAN": "mean", "MAX": "max", "MIN": "min", "STD": "std", "RANGE": "range"}
WRAP = {"GetAverage": "MEAN", "GetMaximum": "MAX", "GetMinimum": "MIN", "GetStd": "STD", "GetRange": "RANGE", "GetValidNumber": "VALID_CELLNUMBER"}


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("every statistic accumulated over the cells is updated with a cell only where that same cell is known not to equal the excluded value")
    rep.rule("each figure is the recurrence it is named for (count +1, sum of cells, running maximum and minimum started beyond all values, mean = sum/count, deviation = root of the squared distances from that mean over the count, range = maximum - minimum), over all cells and all layers, each layer with its own cells")
    rep.rule("the statistics maps receive each figure under its own name, from the cells, the length, the layer number and the NoData value of the raster")
    rep.rule("asking by name returns that name's entry, of the requested layer; recalculation forgets the old figures")
    table = {}
    n = 0
    for f in p.project():
        if p.q(f.name).split("::")[-1] != "BasicStatistics":
            continue
        n += 1
        two = len(f.params) == 5
        k = Classifier(p, S, f, two)
        slots = k.slots()
        name = "BasicStatistics(%s)" % ("2D" if two else "1D")
        for ix in range(6):
            c, where = slots.get(ix, ("nothing", f.where()))
            table.setdefault((two, ix), []).append((c, where, f))
        for why, where in k.bad:
            rep.ob(False, "%s %s" % (name, why), where, "%s: %s" % (name, why))
        rep.ob(not k.bad, "%s accumulators" % name, f.where(), "%s: %d updates of accumulators, all under the NoData test of their own cell" % (f.dem[:80], k.updates))
        rep.count("accumulator updates", k.updates)
    rep.count("instantiations", n)
    rep.need(n, 4, "instantiations of BasicStatistics")
    calculate(p, S, rep, table)
    getters(p, S, rep)
    wrappers(p, S, rep)


class Classifier:
    def __init__(self, p, S, f, two):
        self.p, self.S, self.f, self.two = p, S, f, two
        self.excl = ("arg", 4 if two else 3)
        self.out = ("arg", 3 if two else 2)
        self.bad = []
        self.updates = 0
        self.webs = {}
        self.cells = {}
        self.order = rpo(f)
        for i in f.all_insts():
            if i.op == "store":
                k = self.cell(S.expr(f, i.args[1]))
                if k:
                    self.cells.setdefault(k[0], []).append((i, k[1]))
        for k in self.cells:
            self.cells[k].sort(key=lambda x: (self.order.get(x[0].blk, 0), x[0].idx))
        self.busy = set()
        self.cache = {}

    # -- addresses
    def elem(self, e):
        """(row, layer) of a cell of the input, or None"""
        if self.two:
            if e[0] == "ld" and e[1][0] in ("idx", "ld", "arg"):
                a, j = at(e[1])
                if a is not None and a[0] == "ld":
                    b, i = at(a[1])
                    if b == ("arg", 0):
                        return (i, j)
            return None
        if e[0] == "ld":
            b, i = at(e[1])
            if b == ("arg", 0):
                return (i, None)
        return None

    def cell(self, ad):
        """((array, slot), layer) of an element of an array made here"""
        b, i = at(ad)
        if b is None:
            return None
        if not self.two:
            if fresh(b) and i[0] == "c":
                return (("res", i[1]), None)
            return None
        if b[0] == "ld":
            b2, k = at(b[1])
            if b2 is not None and fresh(b2) and k[0] == "c":
                return (("res", k[1]), i)
            if b[1][0] == "loc":
                return (("tmp", b[1]), i)
        if fresh(b):
            return (("tmp", b), i)
        return None

    # -- figures
    def slots(self):
        out = {}
        for k in self.cells:
            if k[0] == "res":
                out[k[1]] = (self.cell_class(k, None), self.cells[k][-1][0].where())
        return out

    def cell_class(self, key, at_inst):
        """class of what a cell holds at an instruction (or at the end)"""
        sts = self.cells.get(key, [])
        if at_inst is not None:
            me = self.order.get(at_inst.blk, 0)
            loops = [self.f.natural_loops()[h] for h in self.f.natural_loops() if at_inst.blk in self.f.natural_loops()[h]]
            sts = [s for s in sts if (self.order.get(s[0].blk, 0), s[0].idx) < (me, at_inst.idx) and s[0] is not at_inst]
        cur = None
        init, ups = None, []
        if key[0] == "tmp":
            for i in self.f.all_insts():
                if i.op == "call" and i.callee and self.p.q(i.callee).split("::")[-1] == "Initialize1DArray" and self.S.expr(self.f, i.args[1]) == key[1]:
                    init = num(self.S.expr(self.f, i.args[2]))
        for st, lay in sts:
            v = self.S.expr(self.f, st.args[0])
            v = strip(v)
            if v[0] in ("c", "f"):
                init, ups, cur = num(v), [], ("const", num(v))
                continue
            u = self.update(v, lambda e, s=st: self.same_cell(e, key), st.blk, lay, st)
            if u:
                ups.append(u)
                cur = self.combine(init, ups, st.where())
                continue
            c = self.figure(v, st, (key, cur), lay)
            cur, init, ups = c, None, []
        if cur and isinstance(cur, tuple) and cur[0] == "const":
            return "constant %s" % cur[1]
        return cur or "nothing"

    def same_cell(self, e, key):
        if e[0] != "ld":
            return False
        k = self.cell(e[1])
        return bool(k) and k[0] == key

    def web_class(self, op):
        """class of a phi web"""
        f, S = self.f, self.S
        web, inc = set(), []
        work = [op]
        while work:
            v = work.pop()
            if v in web:
                continue
            web.add(v)
            i = f.insts[v[1]]
            for x, b in i.args:
                if x[0] == "v" and f.insts[x[1]].op == "phi":
                    work.append(x)
                else:
                    inc.append((x, b, i.blk))
        key = frozenset(web)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = "unknown"
        exprs = [S.expr(f, w) for w in web]
        init, ups, other = None, [], None
        for x, b, blk in inc:
            v = strip(S.expr(f, x))
            if v[0] in ("c", "f"):
                if init is None:
                    init = num(v)
                elif init != num(v):
                    other = "unknown"
                continue
            u = self.update(v, lambda e: e in exprs, b, None, f.blocks[b][-1], succ=blk)
            if u:
                ups.append(u)
            else:
                other = self.figure(v, f.blocks[b][-1], None, None)
        if other and not ups:
            c = other
        elif other:
            c = "unknown"
        else:
            c = self.combine(init, ups, f.insts[op[1]].where())
        self.cache[key] = c
        return c

    def update(self, v, me, blk, lay, inst, succ=None):
        """kind of an update of an accumulator with a cell, or None"""
        el = None
        kind = None
        sgn, a, b = v[0], None, None
        if v[0] == "bin" and v[1] in ("add", "fadd"):
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                if me(strip(x)):
                    y = strip(y)
                    if num(y) == 1:
                        kind, el = "count", None
                    elif self.elem(y):
                        kind, el = "sum", y
                    else:
                        q = self.square(y)
                        if q:
                            kind, el = "sumsq", q[0]
                            if q[1] != "mean":
                                kind = "squares about %s" % q[1]
                        else:
                            return None
        elif v[0] == "call" and v[1].split("::")[-1] in ("max", "min", "fmax", "fmin") and len(v) == 4:
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                if me(strip(x)) and self.elem(strip(y)):
                    kind, el = v[1].split("::")[-1].lstrip("f"), strip(y)
        elif self.elem(v):
            facts = set(self.S.facts(self.f, blk))
            if succ is not None:
                facts |= set(self.S.edge_facts(self.f, blk, succ))
            for x in facts:
                if len(x) == 3 and x[0][1:] in ("lt", "gt", "le", "ge") or len(x) == 3 and x[0] in ("slt", "sgt", "ult", "ugt"):
                    l, r = strip(x[1]), strip(x[2])
                    less = x[0].endswith(("lt", "le"))
                    if l == v and me(r):
                        kind, el = ("min" if less else "max"), v
                    elif r == v and me(l):
                        kind, el = ("max" if less else "min"), v
            if kind is None:
                kind, el = "last cell", v
        if kind is None:
            return None
        self.updates += 1
        ty = inst.ty if succ is None else None
        if kind in ("sum", "sumsq"):
            if succ is None and inst.op == "store" and inst.args[0][0] == "v":
                ty = self.f.insts[inst.args[0][1]].ty
            elif succ is not None:
                ty = next((self.f.insts[i.id].ty for i in self.f.blocks[succ] if i.op == "phi" and any(b == blk and strip(self.S.expr(self.f, o)) == v for o, b in i.args)), None)
            if ty in ("float", "i8", "i16", "i32", "half"):
                self.bad.append(("the %s is kept in a type (%s) that cannot hold the sum of all cells" % (kind, ty), inst.where()))
        self.guard(kind, el, blk, succ, lay, inst)
        facts = set(self.S.facts(self.f, blk))
        if succ is not None:
            facts |= set(self.S.edge_facts(self.f, blk, succ))
        for x in facts:
            if len(x) == 3 and isinstance(x[1], tuple) and isinstance(x[2], tuple):
                l, r = strip(x[1]), strip(x[2])
                for a, b in ((l, r), (r, l)):
                    if self.elem(a) and b != self.excl and not me(b):
                        self.bad.append(("the %s takes in only the cells that pass a further test (%s)" % (kind.split()[0], x[0]), inst.where()))
                        return kind
        return kind

    def guard(self, kind, el, blk, succ, lay, inst):
        facts = set(self.S.facts(self.f, blk))
        if succ is not None:
            facts |= set(self.S.edge_facts(self.f, blk, succ))
        cells = []
        for x in facts:
            c = None
            if x[0] == "false" and x[1][0] == "call" and x[1][1].split("::")[-1] == "FloatEqual" and len(x[1]) == 4:
                c = (x[1][2], x[1][3])
            elif x[0] in ("ne", "une", "one") and len(x) == 3:
                c = (x[1], x[2])
            if c:
                for a, b in (c, c[::-1]):
                    if strip(b) == self.excl and self.elem(strip(a)):
                        cells.append(strip(a))
        if not cells:
            self.bad.append(("the %s is updated with cells not tested against NoData" % kind, inst.where()))
            return
        if el is not None and el not in cells:
            self.bad.append(("the %s takes another cell than the one tested against NoData" % kind, inst.where()))
            return
        for c in cells:
            i, j = self.elem(c)
            if lay is not None and j != lay:
                self.bad.append(("the %s of one layer is updated with the cells of another" % kind, inst.where()))
            self.span(i, ("arg", 1), "cells", blk, inst, kind)
            if self.two:
                self.span(j, ("arg", 2), "layers", blk, inst, kind)

    def span(self, i, bound, what, blk, inst, kind):
        """the index runs over [0, bound)"""
        i = strip(i)
        if i[0] != "phi":
            return
        init = None
        step = None
        ph = self.f.insts[i[1]] if isinstance(i[1], int) else None
        if ph is None:
            return
        for x, b in ph.args:
            e = self.S.expr(self.f, x)
            if e[0] == "bin" and e[1] in ("add", "sub") and i in e[2:]:
                o = e[3] if e[2] == i else e[2]
                step = (e[1], o)
            else:
                init = e
        facts = self.S.facts(self.f, blk)
        up = [x for x in facts if len(x) == 3 and x[0] in ("slt", "sle", "ne", "ult") and i in x[1:] or len(x) == 3 and x[0] in ("sgt", "sge", "ugt") and i in x[1:]]
        ok = True
        if step == ("add", ("c", 1)) or step and step[1][0] == "c" and step[1][1] == 1 and step[0] == "add":
            ok = init is not None and init[0] == "c" and init[1] == 0
            uppers = [norm(x, i) for x in up]
            uppers = [u for u in uppers if u is not None and u[0] in ("<", "<=", "!=")]
            ok = ok and any(u[0] in ("<", "!=") and strip(u[1]) == bound for u in uppers) and not any(u[0] != "!=" and not (u[0] == "<" and strip(u[1]) == bound) for u in uppers)
        elif step and step[1][0] == "c" and step[0] == "add" and step[1][1] > 1:
            ok = False
        if not ok:
            self.bad.append(("the %s does not take in all %s" % (kind, what), inst.where()))

    def square(self, y):
        """(cell, class of the centre) when y is (cell - centre)^2"""
        d = None
        if y[0] == "bin" and y[1] == "fmul" and y[2] == y[3]:
            d = strip(y[2])
        elif y[0] == "call" and y[1].split("::")[-1] == "pow" and num(strip(y[3])) == 2:
            d = strip(y[2])
        if d is None or d[0] != "bin" or d[1] not in ("fsub", "sub"):
            return None
        for a, b in ((d[2], d[3]), (d[3], d[2])):
            a = strip(a)
            if self.elem(a):
                lay = self.elem(a)[1]
                return a, self.figure(strip(b), None, None, lay)
        return None

    def combine(self, init, ups, where):
        kinds = set(ups)
        if len(kinds) != 1:
            return "unknown"
        k = kinds.pop()
        if k in ("count", "sum", "sumsq"):
            return k if init == 0 else "%s started from %s" % (k, init)
        if k == "max":
            return k if init is not None and init <= -3.4e38 else "max started from %s" % init
        if k == "min":
            return k if init is not None and init >= 3.4e38 else "min started from %s" % init
        return k

    def figure(self, v, inst, own, lay):
        """class of an expression over accumulators"""
        v = strip(v)
        if v[0] in ("c", "f"):
            return ("const", num(v))
        if v[0] == "phi" and isinstance(v[1], int):
            return self.web_class(("v", v[1]))
        if v[0] == "ld":
            k = self.cell(v[1])
            if k:
                if own and own[0] == k[0]:
                    return own[1] or "nothing"
                if lay is not None and k[1] != lay:
                    return "another layer's figure"
                if (k[0], inst) in self.busy:
                    return "unknown"
                self.busy.add((k[0], inst))
                # a figure read inside the loop that follows its last store
                r = self.cell_class(k[0], inst)
                self.busy.discard((k[0], inst))
                return r
            if self.elem(v):
                return "cell"
        if v[0] == "call" and v[1].split("::")[-1] in ("sqrt", "CalSqrt"):
            x = self.figure(v[2], inst, own, lay)
            return {"variance": "std"}.get(x, "root of %s" % (x,))
        if v[0] == "bin":
            a, b = self.figure(v[2], inst, own, lay), self.figure(v[3], inst, own, lay)
            t = {("fdiv", "sum", "count"): "mean", ("fdiv", "sumsq", "count"): "variance", ("fsub", "max", "min"): "range", ("sub", "max", "min"): "range"}.get((v[1], a, b))
            return t or "%s %s %s" % (text(a), v[1], text(b))
        if v[0] == "sel":
            return "unknown"
        return "unknown"


def text(a):
    return str(a[1]) if isinstance(a, tuple) else str(a)


def norm(x, i):
    """fact as (relation, other) with the index on the left"""
    r = {"slt": "<", "ult": "<", "sle": "<=", "ne": "!=", "sgt": ">", "ugt": ">", "sge": ">="}[x[0]]
    if x[1] == i:
        return r, x[2]
    return {"<": ">", "<=": ">=", "!=": "!=", ">": "<", ">=": "<="}[r], x[1]


def at(ad):
    """(array, index) of an element address; the first element's address is the array itself"""
    if ad[0] == "idx":
        return ad[1], strip(ad[2])
    if ad[0] in ("ld", "arg") or fresh(ad):
        return ad, ("c", 0)
    return None, None


def fresh(e):
    return e[0] == "call" and e[1] in ("operator new[]", "malloc", "calloc")


def strip(e):
    while isinstance(e, tuple) and e[0] in ("i2f", "fpext", "sext", "zext"):
        e = e[1]
    return e


def num(e):
    if e[0] == "c":
        return float(e[1])
    if e[0] == "f":
        try:
            return float(e[1])
        except ValueError:
            return None
    return None


def rpo(f):
    """reverse post order in which a loop's blocks precede what follows the loop"""
    loops = list(f.natural_loops().values())

    def succ(b):
        inside = [L for L in loops if b in L]
        return iter(sorted(f.succ(b), key=lambda s: -sum(1 for L in inside if s not in L)))
    seen, out = {0}, []
    st = [(0, succ(0))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, succ(s)))
                break
        else:
            out.append(b)
            st.pop()
    out.reverse()
    return {b: n for n, b in enumerate(out)}


# ---- the maps

def calculate(p, S, rep, table):
    n = 0
    for f in p.project():
        if p.q(f.name).split("::")[-1] != "CalculateStatistics":
            continue
        n += 1
        name = f.dem.split("(")[0].split("::")[-1]
        calls = [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "BasicStatistics"]
        src = {}
        for c in calls:
            a = [S.expr(f, x) for x in c.args]
            two = len(a) == 5
            want = [("raster_2d_" if two else "raster_",), ("n_cells_",)] + ([("n_lyrs_",)] if two else []) + [None, ("no_data_value_",)]
            for k, w in enumerate(want):
                if w is None:
                    src[a[k]] = (two, c.callee)
                    continue
                got = field(a[k])
                rep.ob(got == w[0], "BasicStatistics argument %d" % k, c.where(), "%s: the %s statistics are taken from %s (expected %s)" % (name, "2D" if two else "1D", got or show(a[k]), w[0]))
        seen = set()
        for key, v, op, inst, m in grid.header_writes(p, S, f):
            mf = field(m)
            if mf not in ("stats_", "stats_2d_"):
                continue
            two = mf == "stats_2d_"
            if v[0] == "arg" or key is None:
                continue
            b, ix = at(v[1]) if v[0] == "ld" else (None, None)
            if b is not None and b[0] == "ld":
                b = b[1]
            s = src.get(b)
            if s is None or ix[0] != "c":
                rep.ob(False, "%s %s source" % (mf, key), inst.where(), "%s: the entry %s of %s does not come from the computed figures" % (name, key, mf))
                continue
            seen.add((two, key))
            cs = [c for c in table.get((s[0], ix[1]), []) if c[2].name == s[1]] or table.get((s[0], ix[1]), [("nothing", "", None)])
            for c, w, g in cs:
                ok = c == WANT.get(key) and s[0] == two
                rep.ob(ok, "%s %s" % (mf, key), inst.where() if ok or c in WANT.values() else w, "%s: the entry %s of %s is given the %s of the cells" % (name, key, mf, text(c)))
        for two in (False, True):
            for key in WANT:
                if (two, key) not in seen:
                    rep.ob(False, "%s %s set" % ("stats_2d_" if two else "stats_", key), f.where(), "%s: the entry %s of the %s statistics is not set" % (name, key, "2D" if two else "1D"))
    rep.count("CalculateStatistics", n)
    rep.need(n, 1, "CalculateStatistics")


def field(e):
    """name of the field (of this) an expression is, or is loaded from"""
    if e[0] == "ld":
        e = e[1]
    if e[0] == "fld":
        return e[2]
    return None


def getters(p, S, rep):
    n = 0
    for f in p.project():
        q = p.q(f.name).split("::")[-1]
        if q == "GetStatistics" and len(f.params) >= 3 and f.this:
            n += 1
            if len(f.params) == 3:
                one_value(p, S, f, rep)
            else:
                all_layers(p, S, f, rep)
        elif q == "UpdateStatistics":
            n += 1
            update(p, S, f, rep)
    rep.need(n, 3, "statistics getters")


def computed(p, f, blk, idx=None):
    """a call of CalculateStatistics may precede"""
    return [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "CalculateStatistics"]


def one_value(p, S, f, rep):
    kinds = set()
    for i in f.all_insts():
        if i.op != "ret" or not i.args:
            continue
        for op, b in grid.split(f, i.args[0], i.blk):
            e = S.expr(f, op)
            if e[0] == "mapval" or e[0] == "ld" and e[1][0] == "mapat":
                m, k, ix = e[1], e[2] if e[0] == "mapval" else None, None
                if e[0] == "ld":
                    m, k = e[1][1], e[1][2]
            elif e[0] == "ld" and e[1][0] in ("idx", "mapval"):
                base, ix = at(e[1]) if e[1][0] == "idx" else (e[1], ("c", 0))
                if base[0] == "mapval":
                    m, k = base[1], base[2]
                elif base[0] == "ld" and base[1][0] == "mapat":
                    m, k = base[1][1], base[1][2]
                else:
                    continue
            else:
                continue
            mf = field(m)
            w = f.insts[op[1]].where() if op[0] == "v" else i.where()
            kinds.add(mf)
            rep.ob(k == S_arg(1), "GetStatistics %s key" % mf, w, "GetStatistics: the %s statistics are looked up under %s (expected the requested name)" % (mf, show(k)))
            if mf == "stats_2d_":
                ok = ix is not None and minus_one(ix)
                rep.ob(ok, "GetStatistics layer", w, "GetStatistics: the figure of layer %s is returned (expected index lyr - 1)" % (show(ix) if ix else "?"))
            facts = S.facts(f, b)
            is2 = [x for x in facts if x[0] in ("true", "false") and field(x[1]) == "is_2draster"]
            for x in is2:
                rep.ob((x[0] == "true") == (mf == "stats_2d_") or mf == "stats_", "GetStatistics dimension %s" % mf, w, "GetStatistics: %s answers for a %s raster" % (mf, "2D" if x[0] == "true" else "1D"))
            fresh_on(p, S, f, op, mf, rep)
    rep.ob(kinds >= {"stats_", "stats_2d_"}, "GetStatistics both", f.where(), "GetStatistics: answers from %s" % ", ".join(sorted(x or "?" for x in kinds)))


def fresh_on(p, S, f, op, mf, rep):
    """on every path to the answer the figures are known to be computed, or are computed"""
    if op[0] != "v":
        return
    tgt = f.insts[op[1]]
    # walk back from the answer; stop at a calculation; an edge that knows the figures are there is fine too
    bad = None
    seen = set()
    work = [(tgt.blk, tgt.idx)]
    while work:
        b, k = work.pop()
        if (b, k is None) in seen:
            continue
        seen.add((b, k is None))
        insts = f.blocks[b][:k] if k is not None else f.blocks[b]
        if any(i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "CalculateStatistics" for i in insts):
            continue
        if not f.pred(b):
            bad = tgt
            break
        for q in f.pred(b):
            ok = False
            for x in S.edge_facts(f, q, b):
                if x[0] == "true" and field(x[1]) == "stats_calculated_":
                    ok = True
                if mf == "stats_2d_" and x[0] == "ne" and ("null",) in x[1:] and any(isinstance(y, tuple) and (y[0] == "mapval" or y[0] == "ld" and y[1][0] == "mapat") for y in x[1:]):
                    ok = True
            if not ok:
                work.append((q, None))
    rep.ob(bad is None, "GetStatistics fresh %s" % mf, tgt.where(), "%s: the entry of %s %s" % (f.dem.split("(")[0].split("::")[-1], mf, "is computed before it is returned" if bad is None else "may be returned before the statistics are computed"))


def S_arg(n):
    return ("arg", n)


def minus_one(ix):
    ix = strip(ix)
    return ix[0] == "bin" and (ix[1] == "sub" and ix[2] == ("arg", 2) and ix[3][:2] == ("c", 1) or ix[1] == "add" and ("arg", 2) in ix[2:] and any(x[0] == "c" and x[1] == -1 for x in ix[2:]))


def all_layers(p, S, f, rep):
    got = False
    for i in f.all_insts():
        if i.op != "store":
            continue
        ad, v = S.expr(f, i.args[1]), S.expr(f, i.args[0])
        if ad == ("arg", 2):
            rep.ob(field(v) in ("n_lyrs_",) or v[0] == "call" and v[1].endswith("GetLayers"), "GetStatistics layer number", i.where(), "GetStatistics: the layer number given is %s" % show(v))
        if ad == ("arg", 3) and v != ("null",) and v[0] != "null":
            m = k = None
            if v[0] == "mapval":
                m, k = v[1], v[2]
            elif v[0] == "ld" and v[1][0] == "mapat":
                m, k = v[1][1], v[1][2]
            ok = m is not None and field(m) == "stats_2d_" and k == ("arg", 1)
            rep.ob(ok, "GetStatistics all layers", i.where(), "GetStatistics: the figures of all layers are %s" % show(v))
            if ok:
                got = True
                if i.args[0][0] == "v":
                    fresh_on(p, S, f, i.args[0], "stats_2d_", rep)
    rep.ob(got, "GetStatistics array", f.where(), "GetStatistics: the figures of all layers are handed out")


def update(p, S, f, rep):
    calls = computed(p, f, None)
    ok = bool(calls)
    for c in calls:
        resets = [i for i in f.all_insts() if i.op == "store" and field(S.expr(f, i.args[1])) == "stats_calculated_" and S.expr(f, i.args[0])[:2] == ("c", 0) and f.idominates(i, c)]
        ok = ok and bool(resets)
    rep.ob(ok, "UpdateStatistics", f.where(), "UpdateStatistics: the figures %s" % ("are computed again" if ok else "are not computed again: the flag still says they are known"))


def wrappers(p, S, rep):
    n = 0
    for f in p.project():
        q = p.q(f.name).split("::")[-1]
        if q not in WRAP or "data_raster" not in f.dem:
            continue
        for c in f.all_insts():
            if c.op == "call" and c.callee and p.q(c.callee).split("::")[-1] == "GetStatistics":
                n += 1
                k = S.expr(f, c.args[1])
                rep.ob(k == ("str", WRAP[q]), "%s name" % q, c.where(), "%s asks for %s (expected %s)" % (q, show(k), WRAP[q]))
                a = [S.expr(f, x) for x in c.args[2:]]
                rep.ob(a == [("arg", m) for m in range(1, len(a) + 1)], "%s arguments" % q, c.where(), "%s passes on %s" % (q, ", ".join(show(x) for x in a)))
    rep.count("named getters", n)
    rep.need(n, 6, "named statistics getters")
