"""C02: everything acquired is released on every exit."""
from c03 import run, second
from own import releases

TECH = "ownership dataflow: every acquired resource is followed, path by path, from the acquiring call to a release, a return, an out-parameter or an owning object; interprocedural summaries of what callees do with what they are given; typestate of owning members"
NOTE = "acquisitions by the listed library functions and by own functions that return or hand out what they acquire; main may leave releases to the end of the process; an array of arrays counts as handed over once stored in its parent."


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("on every path from an acquiring call to the end of the function the resource is released, returned, left in an out-parameter, or stored in an object; its last holder is not overwritten before that")
    rep.rule("a member that is released by its object is not overwritten, or disowned by clearing the ownership flag, while it may still hold an array of its own")
    rep.rule("a resource stored in a member of an object by one of its member functions is released by a member function of that class")
    rep.rule("elements of a container of owned pointers are released before the container is cleared or an element is erased")
    O, F, own, es, rs = run(ctx)
    n = 0
    kinds = {}
    for f in O.funcs:
        name = p.q(f.name).split("::")[-1]
        for i, st, fam in O.starts(f):
            n += 1
            what = p.q(i.callee).split("::")[-1]
            bad = None
            for kind, fm, rv, x in sorted(O.walk(f, [st], fam), key=str):
                kinds[kind] = kinds.get(kind, 0) + 1
                if kind == "leak" and f.name == "main":
                    continue
                if kind in ("leak", "lost"):
                    bad = bad or (kind, f.insts[x].where() if x in f.insts else f.where())
                if kind == "escaped" and x in f.insts and f.insts[x].op == "store":
                    member(p, S, f, f.insts[x], fam, own, rep)
            rep.ob(bad is None, "%s in %s" % (what, name), i.where(), "%s: what %s acquires (%s) is %s" % (name, what, fam, "released or handed over on every path" if bad is None else "not released on the path that returns at %s" % bad[1] if bad[0] == "leak" else "dropped at %s" % bad[1]))
    for k in sorted(kinds):
        rep.count("paths on which the resource is %s" % {"out": "left in an out-parameter", "escaped": "stored in an object", "leak": "left to the end of the process", "kept": "kept"}.get(k, k), kinds[k])
    for (f, cls, fld, c, st, ctor, dtor), (outs, probs) in rs:
        name = p.q(f.name).replace("ccgl::", "")
        short = "%s of %s" % (fld, name.split("::")[-1])
        msgs = set()
        for kind, iid, fn, fl in probs:
            if kind in ("overwritten", "disowned"):
                msgs.add((O.byname[fn].insts[iid].where(), "may be %s while it holds an array of its own" % kind))
        for (s, fl), rv in outs:
            if s == "F" and (fl == 0 or fl is None and not (c.kind == "obj" and flagged(S, f, c))) or s == "D":
                msgs.add((f.where(), "holds an array of its own at the end although the ownership flag is not set"))
        if msgs:
            for w, t in sorted(msgs):
                rep.ob(False, short + " " + t[:20], w, "%s: %s %s" % (name, fld, t))
        else:
            rep.ob(True, short, f.where(), "%s: %s is not overwritten or disowned while it holds an array" % (name, fld))
    m = containers(p, S, O, rep)
    rep.need(n, 150, "acquisitions")
    rep.need(len(rs), 100, "member functions and members")


def flagged(S, f, c):
    """the function marks elements as owning what they refer to (an earlier loop over them, for instance)"""
    return any(i.op == "store" and i.args[0][0] == "c" and i.args[0][1] & 1 and (S.expr(f, i.args[1]) + (0, 0, 0))[0::2][:2] == ("fld", c.flag) for i in f.all_insts())


def member(p, S, f, i, fam, own, rep):
    """a resource stored in a member of this: the class must release that member"""
    e = S.expr(f, i.args[1]) if i.args[1][0] == "v" else None
    if not e or e[0] != "fld" or e[1] != ("this",) or not f.this:
        return
    cls = p.q(f.name).rsplit("::", 1)[0]
    rep.ob(e[2] in own.get(cls, {}), "member %s of %s" % (e[2], cls.split("::")[-1]), i.where(), "%s: the member %s, which receives a resource (%s), is %sreleased by a member function of its class" % (p.q(f.name).split("::")[-1], e[2], fam, "" if e[2] in own.get(cls, {}) else "not "))


def containers(p, S, O, rep):
    n = 0
    for f in O.funcs:
        if not f.this:
            continue
        name = p.q(f.name).split("::")[-1]
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            q = p.q(i.callee)
            d = p.dem(i.callee)
            if not q.startswith("std::map::") or q.split("::")[-1] not in ("clear", "erase") or "*," not in d.split("::" + q.split("::")[-1] + "(")[0].split("std::less")[0]:
                continue
            e = S.expr(f, i.args[0])
            if e[0] != "fld":
                continue
            n += 1
            ok = False
            loops = f.natural_loops()
            for x in f.all_insts():
                if x.op == "call" and x.callee:
                    g = O.byname.get(x.callee)
                    r = releases(p.q(x.callee)) if g is None else None
                    if r and r[0] < len(x.args) and second(S, f, x.args[r[0]]) or g is not None and any(a[0] == "v" and (S.expr(f, a) + (0, 0, 0))[2] == "second" for a in x.args) and "Release" in p.q(x.callee):
                        hs = [h for h, body in loops.items() if x.blk in body]
                        ok = ok or f.dominates(x.blk, i.blk) or any(f.dominates(h, i.blk) for h in hs)
            rep.ob(ok, "%s of %s in %s" % (q.split("::")[-1], e[2], name), i.where(), "%s: the elements of %s are %sreleased before %s" % (name, e[2], "" if ok else "not ", q.split("::")[-1]))
    rep.count("containers emptied", n)
    return n
