"""C25: queries and writers leave cells, input arrays and option texts as they were."""
import re
from effects import Effects, path_of
from sym import show

TECH = "interprocedural effect summaries (which access paths over this, arguments and globals every operation may write) against the cells of rasters and the inputs of operations"
NOTE = "Packing a grid into its valid cells (SetCalcPositions and what it calls) moves cells without changing the value at a position; what is copied there is decided by C21. Writes inside libraries are taken from a table of the C, C++ and GDAL calls this code uses."

CELLS = {"raster_", "raster_2d_"}
SUBCELLS = {"data_", "data2d_"}
# operations that move cells into their packed form (where values go is decided elsewhere)
PACK = {"CalculateValidPositionsFromGridData", "SetCalcPositions", "MaskAndCalculateValidPosition"}
# operations whose purpose is to set, load or discard cells
RASTER_SET = re.compile(r"^(clsRasterData|~clsRasterData|operator=|ReadFrom\w*|Init\w*|Construct\w*|Copy|SetValue|ReplaceNoData|Reclassify|Release\w*|AddOther\w*|BuildSubSet|RebuildSubSet|SetUseMaskExt)$")
SUB_SET = re.compile(r"^(SubsetPositions|~SubsetPositions|operator=|Initialization|SetData|Set2DData|ReadFromMongoDB|Release\w*)$")
# input data of operations whose parameter is not declared const (position without this and result)
INPUT = {
    "SubsetPositions::SetData": {1}, "SubsetPositions::Set2DData": {2}, "MongoGridFs::WriteStreamData": {1}, "WriteStreamDataAsGridfs": {2, 3}, "WriteSingleGeotiff": {3},
    "WriteRasterToFile": {3}, "WriteSingleAsc": {2}, "clsRasterData::OutputFullsizeToFiles": {0}, "clsRasterData::AddOtherLayerRasterData": {5}, "clsRasterData::GetPositionByCoordinate": {2},
    "FilesExist": {0}, "_itow_s": set(), "ConvertYMDToTime": {0, 1, 2}, "parse_key_values": {0}, "clsRasterData::ReadFromFiles": {0}, "clsRasterData::SetPositions": {1}, "Sum": {1},
    "MongoDatabase::MongoDatabase": {1}, "clsRasterData::Init": {0},
}
DATA = re.compile(r"^(const )?(signed |unsigned )?(char|short|int|long|long long|float|double|bool|wchar_t|STRDBL_MAP|STRING_MAP|string|vector<|map<|std::|basic_string|vint|vuint|T\b)")


class Eff(Effects):
    def __init__(self, p, S):
        super().__init__(p, S)
        self.outs = {}
        self.at = []

    def call_writes(self, fn, i):
        if i.callee and self.p.q(i.callee).split("::")[-1] in PACK:
            return set()
        q = self.p.q(i.callee) if i.callee else ""
        n = q.split("::")[-1]
        if n == "RasterIO" and len(i.args) > 6:
            # GDALRasterBand::RasterIO(this, flag, x, y, nx, ny, data, ...): fills data when the flag is GF_Read
            k = [j for j, a in enumerate(i.args[:3]) if a[0] == "c"]
            if i.args[1][0] == "c" and i.args[1][1] == 0:
                return set((r, p + ("[]",)) for r, p in self.local_targets(fn, i.args[6]))
            return set()
        if n == "GDALRasterIO" and len(i.args) > 6 and i.args[1][0] == "c" and i.args[1][1] == 0:
            return set((r, p + ("[]",)) for r, p in self.local_targets(fn, i.args[6]))
        return super().call_writes(fn, i)

    def out_values(self, g, k, depth=0):
        """expressions over g's arguments that g stores through its pointer argument k"""
        key = (g.name, k)
        r = self.outs.get(key)
        if r is not None:
            return r
        self.outs[key] = r = set()
        if depth > 3:
            return r
        for i in g.all_insts():
            if i.op == "store" and self.s.expr(g, i.args[1]) == ("arg", k):
                for e in self.resolve(g, i.args[0]):
                    r.add(e)
            elif i.op == "call" and i.callee in self.p.fns:
                for j, a in enumerate(i.args):
                    if a == ("a", k):
                        for e in self.out_values(self.p.fns[i.callee], j, depth + 1):
                            x = self.s_subst(e, g, i)
                            if x is not None:
                                r.add(x)
        return r

    def s_subst(self, e, fn, i):
        from sym import subst
        return subst(e, self.p.fns[i.callee], [self.s.expr(fn, a) for a in i.args])

    def local_targets(self, fn, op):
        out = super().local_targets(fn, op)
        add = set()
        for root, path in out:
            if root[0] == "loc" and path and path[0] == "*":
                for e in self.held(fn, root[1]):
                    r, p0 = path_of(e)
                    if r[0] in ("this", "arg"):
                        add.add((r, (p0 + path[1:])))
        return out | add

    def inst_writes(self, fn, i):
        self.at.append(i)
        try:
            return super().inst_writes(fn, i)
        finally:
            self.at.pop()

    def held(self, fn, aid):
        """pointers a local variable may hold where the instruction looked at is: what the nearest stores and calls before it put there"""
        w = {}
        for u in fn.uses().get(("v", aid), []):
            if u.op == "call" and u.callee in self.p.fns:
                for j, a in enumerate(u.args):
                    if a == ("v", aid) and (("arg", j), ()) in self.summary(self.p.fns[u.callee]):
                        w.setdefault(u.blk, []).append(u)
            elif u.op == "store" and u.args[1] == ("v", aid):
                w.setdefault(u.blk, []).append(u)
        at = next((i for i in reversed(self.at) if i.fn is fn), None) if self.at else None
        if at is None:
            near = [u for x in w.values() for u in x]
        else:
            near, seen, todo = [], set(), [(at.blk, at.idx)]
            while todo:
                b, k = todo.pop()
                c = [u for u in w.get(b, ()) if u.idx < k]
                if c:
                    near.append(max(c, key=lambda u: u.idx))
                    continue
                for x in fn.pred(b):
                    if x not in seen:
                        seen.add(x)
                        todo.append((x, 1 << 30))
        r = set()
        for u in near:
            if u.op == "store":
                r |= self.resolve(fn, u.args[0])
                continue
            for j, a in enumerate(u.args):
                if a == ("v", aid):
                    for e in self.out_values(self.p.fns[u.callee], j):
                        x = self.s_subst(e, fn, u)
                        if x is not None:
                            r.add(x)
        return r


def short(q):
    return re.sub(r"^ccgl::(\w+::)?(?=\w)", "", q) if q.startswith("ccgl::") else q


def cellpath(path, names):
    """the access path goes to (or into) the cell arrays"""
    for n, s in enumerate(path):
        if s[:1] == "." and s[1:] in names:
            return n
    return None


def reaching(p):
    """functions that may run one that packs a raster -> the function they call for it"""
    callers = {}
    for f in p.project():
        for i in f.all_insts():
            if i.op == "call" and i.callee in p.fns:
                callers.setdefault(i.callee, set()).add(f.name)
    out, work = {}, [n for n in p.fns if p.q(n).split("::")[-1] in PACK]
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in out:
                out[c] = p.q(x).split("::")[-1]
                work.append(c)
    return out


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    E = Eff(p, S)
    rep.rule("no query or writer of a raster or subset writes, releases or repoints cells of any raster")
    rep.rule("no operation writes cells of a raster it is given or uses as mask")
    rep.rule("writing to files uses the cells and positions as they are: no repacking on the way")
    rep.rule("nothing declared const is written through; arrays, texts and options that are inputs are not written")
    nq = na = no = nw = 0
    for f in p.project():
        q = p.q(f.name)
        n = q.split("::")[-1]
        cls = q.split("::")[-2] if "::" in q else ""
        W = E.summary(f)
        names = {"clsRasterData": CELLS, "SubsetPositions": SUBCELLS}.get(cls)
        if names and f.this is not None:
            setter = (RASTER_SET if cls == "clsRasterData" else SUB_SET).match(n)
            if not setter and f.acc == 3 and n not in PACK:
                nq += 1
                bad = [(r, pa) for r, pa in W if cellpath(pa, names) is not None]
                rep.ob(not bad, "query:%s" % q, f.where(), "%s %s" % (f.dem[:90], "writes %s" % ", ".join(sorted(set("%s%s" % (show(r, f), "".join(pa)) for r, pa in bad)))[:120] if bad else "writes no cells"))
            no += 1
            bad = [(r, pa) for r, pa in W if cellpath(pa, names) is not None and (r != ("this",) or any(s == ".mask_" for s in pa[:cellpath(pa, names)]))]
            rep.ob(not bad, "other:%s" % q, f.where(), "%s %s" % (f.dem[:90], "writes %s" % ", ".join(sorted(set("%s%s" % (show(r, f), "".join(pa)) for r, pa in bad)))[:120] if bad else "writes no cells of other rasters"))
        sh = 1 if f.sret else 0
        first = (1 if f.this is not None else 0) + sh
        for k, prm in enumerate(f.params):
            if k < first or not (0 <= 1 + k - sh < len(f.dity)):
                continue
            t = f.dity[1 + k - sh]
            if "*" not in t and "&" not in t:
                continue
            const = t.startswith("const ") and t.count("*") + t.count("&") >= 1
            inp = (k - first) in INPUT.get(short(q), ())
            if not const and not inp or t.endswith("&&"):
                continue
            if not DATA.match(t):
                continue
            na += 1
            # through a pointer to const only the first step is protected by the type
            bad = [pa for r, pa in W if r == ("arg", k)]
            rep.ob(not bad, "input:%s:%s" % (q, k - first), f.where(), "%s: its input %s %s" % (f.dem[:80], prm["n"], "is written (%s)" % ", ".join(sorted(set("".join(x) or "itself" for x in bad)))[:80] if bad else "is not written"))
    packers = reaching(p)
    for f in p.project():
        n = p.q(f.name).split("::")[-1]
        if "clsRasterData" in p.q(f.name) and n.startswith("Output") and not n.endswith("MongoDB"):
            nw += 1
            rep.ob(f.name not in packers, "repack:%s" % n, f.where(), "%s %s" % (f.dem[:90], "rearranges the cells of the raster it writes (%s)" % packers[f.name] if f.name in packers else "writes cells where they are"))
    rep.count("writers to files", nw)
    rep.count("queries and writers", nq)
    rep.count("operations on rasters and subsets", no)
    rep.count("input arguments", na)
    rep.need(nq, 40, "queries")
    rep.need(na, 100, "inputs")
