"""C12: a result that may be null is tested before it is used."""
import os, re, tempfile
import cast
from ir import REPO
from c08 import params as argtypes
from effects import path_of
from nullness import Nullness, nonnull
from sym import show

TECH = "nullness typestate: path-disjunctive walk from every call whose result may be null, and from every optional pointer argument, to its dereferences; interprocedural dereference summaries"
NOTE = "results of external calls that may be null, own functions with a null return, null arguments at calls, pointer arguments that the function itself tests; members across methods are left to the other checks."


# null in objects that are complete without them: no mask, no list of valid positions, no data of their own, no GridFS
MEMBERS = ("mask_", "pos_data_", "pos_idx_", "data_", "data2d_", "gfs_")
HANDLES = re.compile(r"(MongoGridFs|clsRasterData<.*>|SubsetPositions|_mongoc_gridfs_t) *(const)? *\*$")


def declared(ctx):
    """{qualified name: [[(type, has default)]]} of the functions declared in the library"""
    out = {}
    src = os.path.join(REPO, "src")
    with tempfile.NamedTemporaryFile("w", suffix=".cpp") as t:
        for h in sorted(os.listdir(src)):
            if h.endswith((".h", ".hpp")):
                t.write('#include "%s"\n' % h)
        t.flush()
        for d in cast.declarations(REPO, cast.CONFIGS[0], t.name)[0]:
            out.setdefault(d.qual, []).append(d.params)
    return out


def optional(p, f, k, defaults):
    """why a pointer argument counts as optional although the function does not test it"""
    lead = (1 if f.this else 0) + (1 if f.sret else 0)
    q = p.q(f.name)
    for ps in defaults.get(q, []):
        if len(ps) == len(f.params) - lead and k >= lead and [x[0] for x in ps] == [x.get("n") for x in f.params[lead:]] and ps[k - lead][2] and ps[k - lead][1].strip().endswith("*"):
            return "defaults to null"
    if q.split("::")[-1] == q.split("::")[-2:-1] or len(q.split("::")) > 1 and q.split("::")[-1] == q.split("::")[-2]:
        return None
    ts = argtypes(f)
    if ts and len(ts) == len(f.params) - lead and HANDLES.search(ts[k - lead]):
        return "is an optional handle"
    return None


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("from a call whose result may be null no dereference of the result (directly, through a library call, or through an own function that dereferences the argument) is reached without a test that excludes null")
    rep.rule("a pointer argument that the function tests somewhere, or that some caller passes as null, is not dereferenced on a path on which it may still be null")
    rep.rule("on a branch on which a pointer is known to be null it is not dereferenced; the members %s are tested before they are dereferenced" % ", ".join(MEMBERS))
    N = Nullness(p, S)
    rep.count("own functions that may return null", len(N.nullable))
    n = 0
    for f in N.funcs:
        name = p.q(f.name).split("::")[-1]
        for i in f.all_insts():
            if N.maybe(i):
                n += 1
                e = S.expr(f, ("v", i.id))
                h = N.first_deref(f, e, [(i.blk, i.idx + 1)], only=("v", i.id))
                what = p.q(i.callee).split("::")[-1]
                rep.ob(h is None, "%s in %s" % (what, name), (h[0] if h else i).where(), "%s: the result of %s, which may be null, is %s" % (name, what, "tested before use" if h is None else h[1] + " without a test"))
            if i.op == "call" and i.callee in N.byname:
                for k, a in enumerate(i.args):
                    if a[0] == "null":
                        n += 1
                        g = N.byname[i.callee]
                        s = N.sink(g, k)
                        what = p.q(i.callee).split("::")[-1]
                        rep.ob(not s, "null to %s.%d" % (what, k), i.where(), "%s: null is passed to %s, which %s" % (name, what, "tests it" if not s else "dereferences it%s" % (" at " + s[0].where() if isinstance(s, tuple) else "")))
    rep.count("results and null arguments", n)
    m = 0
    defaults = declared(ctx)
    for f in N.funcs:
        name = p.q(f.name).split("::")[-1]
        for k in range(len(f.params)):
            if k == 0 and f.this:
                continue
            e = ("arg", k)
            tested = [i for i in f.all_insts() if i.op == "icmp" and {a[0] for a in i.args} == {"a", "null"} and ("a", k) in i.args]
            why = "is tested for null" if tested else optional(p, f, k, defaults)
            if not why:
                continue
            m += 1
            h = N.sink(f, k)
            rep.ob(not h, "%s argument %d" % (name, k), (h[0] if h else tested[0] if tested else f).where(), "%s: the argument %s, which %s, is %s" % (name, (f.params[k].get("n") or k), why, "not used where it may be null" if not h else h[1] + " where it may be null"))
    rep.count("optional arguments", m)
    E = ctx.effects()
    k = 0
    for f in N.funcs:
        name = p.q(f.name).split("::")[-1]
        wr = {}
        done = set()
        for tst, e, b, s in N.null_branches(f, E):
            if (e, b, s) in done:
                continue
            done.add((e, b, s))
            k += 1
            pe = path_of(e[1]) if e[0] == "ld" else None

            def writes(i):
                if pe is None:
                    return False
                if i.id not in wr:
                    wr[i.id] = E.inst_writes(f, i)
                return any(r == pe[0] and (q == pe[1] or q == pe[1][:len(q)]) for r, q in wr[i.id])
            h = N.first_deref(f, e, [(s, 0)], only=("a", e[1]) if e[0] == "arg" else None, writes=writes,
                              within=(lambda i: f.edge_dominates(b, s, i.blk)) if e[0] == "ld" else None)
            rep.ob(h is None, "null branch in %s: %s" % (name, show(e)[:80]), (h[0] if h else tst).where(), "%s: where %s is null it is %s" % (name, show(e)[:120], "not used" if h is None else h[1]))
    rep.count("branches on which a pointer is null", k)
    m = 0
    for f in N.funcs:
        if not f.this:
            continue
        name = p.q(f.name).split("::")[-1]
        used = set()
        for i in f.all_insts():
            if i.op in ("load", "store", "call"):
                for op, how in N.derefs(f, i):
                    if op[0] == "v":
                        e = S.expr(f, op)
                        if e[0] == "ld" and e[1][0] == "fld" and e[1][2] in MEMBERS and e[1][1] == S.expr(f, ("a", 0)):
                            used.add(e)
        for e in sorted(used, key=str):
            wr = {}
            pe = path_of(e[1])
            m += 1

            def writes(i):
                if i.id not in wr:
                    wr[i.id] = E.inst_writes(f, i)
                return any(r == pe[0] and (q == pe[1] or q == pe[1][:len(q)]) for r, q in wr[i.id])
            h = N.first_deref(f, e, [(0, 0)], writes=writes)
            rep.ob(h is None, "member %s in %s" % (e[1][2], name), (h[0] if h else f).where(), "%s: the member %s, which is null in an object without it, is %s" % (name, e[1][2], "tested before use" if h is None else h[1] + " without a test"))
    rep.count("uses of optional members", m)
    rep.need(n, 20, "results that may be null")
