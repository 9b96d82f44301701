"""C04: memory is released by the family that allocated it."""
import grid
from c03 import run, second
from own import releases, tok

TECH = "ownership dataflow with an allocator family attached to each resource: every release that an acquisition reaches, in the same function, through callees, out-parameters, returned pointers and members, belongs to the family of the acquisition"
NOTE = "families of the listed library functions; rows of arrays of arrays and elements of containers are compared by family over the whole program, not by array."


def families(O, f, op, depth=0):
    """families of the resources a value may be"""
    out = set()
    for v, b in grid.split(f, op, 0):
        while v[0] == "v" and f.insts[v[1]].op in ("bitcast", "freeze"):
            v = f.insts[v[1]].args[0]
        if v[0] != "v":
            continue
        i = f.insts[v[1]]
        if i.op == "call":
            x = O.family(f, i)
            if x:
                out.add(x)
        elif i.op == "load" and i.args[0][0] == "v" and f.insts[i.args[0][1]].op == "alloca" and depth < 3:
            for u in f.uses().get(i.args[0], []):
                if u.op == "store" and u.args[1] == i.args[0]:
                    out |= families(O, f, u.args[0], depth + 1)
                elif u.op == "call" and u.callee in O.byname:
                    g = O.byname[u.callee]
                    for k, x in enumerate(u.args):
                        if x == i.args[0]:
                            out |= {t[1] for t in O.fresh(g) if t[0] == k}
    return out


def out_families(O, F, p, S, g, k, seen=()):
    """families with which a function releases what its argument refers to"""
    out = set()
    if (g.name, k) in seen:
        return out
    for i in g.all_insts():
        if i.op == "call" and i.callee:
            h = O.byname.get(i.callee)
            if h is None:
                q = releases(p.q(i.callee))
                if q and q[0] < len(i.args) and S.expr(g, i.args[q[0]]) == ("ld", ("arg", k)):
                    out.add(q[1])
            else:
                for n, a in enumerate(i.args):
                    if a == ("a", k):
                        out |= out_families(O, F, p, S, h, n, seen + ((g.name, k),))
    return out


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("every release reached by an acquisition belongs to the family of the acquiring function")
    rep.rule("each member is released by the family of every allocation stored in it")
    rep.rule("rows of arrays of arrays, and elements of containers, are released by a family with which such elements are allocated")
    O, F, own, es, rs = run(ctx)
    n = 0
    elem, elem_rel = set(), []
    for f in O.funcs:
        name = p.q(f.name).split("::")[-1]
        for i, st, fam in O.starts(f):
            what = p.q(i.callee).split("::")[-1]
            for kind, fm, rv, x in sorted(O.walk(f, [st], fam), key=str):
                if kind == "released":
                    n += 1
                    w = f.insts[x].where() if x in f.insts else i.where()
                    rep.ob(fm == fam, "%s in %s" % (what, name), w, "%s: what %s acquires is released by the %s family" % (name, what, "same" if fm == fam else "%s family, not the %s" % (fm, fam)))
                elif kind == "escaped" and x in f.insts and f.insts[x].op == "store":
                    a = f.insts[x].args[1]
                    e = S.expr(f, a) if a[0] == "v" else ("",)
                    if e[0] == "idx" or e[0] == "ld":
                        elem.add(fam)
                elif kind == "escaped":
                    elem.add(("container", fam))
    got, rel = {}, {}
    for f in O.funcs:
        name = p.q(f.name).split("::")[-1]
        for i in f.all_insts():
            if i.op == "store" and i.args[1][0] == "v" and i.args[0][0] == "v":
                c = owner(p, S, f, i.args[1], own)
                if c:
                    for fam in families(O, f, i.args[0]):
                        got.setdefault(c, []).append((fam, i))
                else:
                    e = S.expr(f, i.args[1])
                    if e[0] in ("mapat", "mapval") or e[0] == "fld" and e[2] == "second" or e[0] == "idx":
                        elem |= families(O, f, i.args[0]) | {("container", x) for x in families(O, f, i.args[0])}
            if i.op != "call" or not i.callee:
                continue
            g = O.byname.get(i.callee)
            if g is None:
                r = releases(p.q(i.callee))
                if not r or r[0] >= len(i.args):
                    continue
                a = i.args[r[0]]
                e = S.expr(f, a)
                if e[0] == "ld" and e[1][0] == "fld":
                    c = owner(p, S, f, None, own, e[1])
                    if c:
                        rel.setdefault(c, []).append((r[1], i))
                        continue
                if second(S, f, a):
                    elem_rel.append((("container", r[1]), i, f))
                elif e[0] == "ld" and isinstance(e[1], tuple) and e[1][0] in ("idx", "ld"):
                    elem_rel.append((r[1], i, f))
                continue
            for k, a in enumerate(i.args):
                if a[0] != "v":
                    continue
                c = owner(p, S, f, a, own)
                if c:
                    for fm in out_families(O, F, p, S, g, k):
                        rel.setdefault(c, []).append((fm, i))
                    for t in O.fresh(g):
                        if t[0] == k:
                            got.setdefault(c, []).append((t[1], i))
    for c in sorted(set(rel) | set(got)):
        fams = {x[0] for x in got.get(c, [])}
        for fm, i in rel.get(c, []):
            n += 1
            ok = not fams or fams == {fm}
            rep.ob(ok, "member %s of %s" % (c[1], c[0].split("::")[-1]), i.where(), "%s: the member %s is released by the %s family; allocations stored in it are %s" % (p.q(i.fn.name).split("::")[-1], c[1], fm, ", ".join(sorted(fams)) or "the caller's"))
    for fm, i, f in elem_rel:
        n += 1
        want = elem if not isinstance(fm, tuple) else {x for x in elem if isinstance(x, tuple)}
        rep.ob(fm in want or not want, "element in %s" % p.q(f.name).split("::")[-1], i.where(), "%s: an element is released by the %s family" % (p.q(f.name).split("::")[-1], fm[1] if isinstance(fm, tuple) else fm))
    rep.count("releases compared", n)
    rep.count("members with allocations", len(got))
    rep.need(n, 200, "releases compared")


def owner(p, S, f, op, own, e=None):
    """(class, member) an address is of, if that member is owned"""
    e = e or (S.expr(f, op) if op[0] == "v" else None)
    if not e or e[0] != "fld":
        return None
    for cls in own:
        if e[2] in own[cls]:
            if e[1] == ("this",) and f.this and p.q(f.name).rsplit("::", 1)[0] != cls:
                continue
            return (cls, e[2])
    return None
