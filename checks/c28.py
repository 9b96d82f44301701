"""C28: the command-line tools report failure in their exit status."""
import c11
from paths import Walker, NN

TECH = "failure propagation to the exit status: from every reading, building and writing step of an application, with its result fixed to failure, no path ends main with status 0; likewise from every error message, and no end with status 0 before the work on the inputs is reached"
NOTE = ("Steps are the library's operations that report by bool, null or a negative number and read, build or write something; a missing server connection and options that fall back to a default after a warning are "
        "not failures by themselves. Helper functions of the applications that report are followed like those of the library.")

# a connection that is not there matters only to those who need it; presence tests are questions
NOT_STEPS = ("GridFs", "FileExists", "FilesExist", "DirectoryExists", "PathExists")


def slice_phis(f, op):
    """values the exit status is chosen from"""
    out, work = set(), [op]
    while work:
        o = work.pop()
        if o in out or o[0] != "v":
            continue
        out.add(o)
        i = f.insts[o[1]]
        if i.op == "phi":
            work += [v for v, b in i.args]
        elif i.op in ("select", "zext", "sext", "trunc", "xor", "and", "or", "icmp", "freeze", "add", "mul"):
            work += [a for a in i.args if isinstance(a, tuple)]
    # how scopes are left
    for b in f.blocks:
        t = b[-1] if b else None
        if t is not None and t.op in ("switch", "br") and t.args and t.args[0][0] == "v":
            o, i = t.args[0], f.insts[t.args[0][1]]
            while i.op in ("icmp", "zext", "trunc", "xor", "freeze") and i.args[0][0] == "v":
                o, i = i.args[0], f.insts[i.args[0][1]]
            if i.op == "phi" and i.blk == t.blk and any(v[0] == "c" for v, x in i.args):
                work.append(o)
    # branches that end in different statuses
    for i in f.all_insts():
        if i.op == "phi" and ("v", i.id) in out:
            for v, b in i.args:
                if v[0] == "c":
                    for x in [b] + list(f.pred(b)):
                        t = f.blocks[x][-1]
                        if t.op == "br" and t.args and t.args[0][0] == "v":
                            work.append(t.args[0])
    while work:
        o = work.pop()
        if o in out or o[0] != "v":
            continue
        i = f.insts[o[1]]
        if i.op in ("phi", "select", "zext", "sext", "trunc", "xor", "and", "or", "icmp", "freeze", "add"):
            out.add(o)
            work += [v for v, b in i.args] if i.op == "phi" else [a for a in i.args if isinstance(a, tuple)]
    return out


class Exit(Walker):
    """a count of failures that has been raised is positive, a flag that has been or-ed with true is true"""

    def val(self, op, env, depth=0):
        if op[0] == "v" and op not in env:
            i = self.fn.insts[op[1]]
            if i.op == "add" and i.args[1][0] == "c" and 0 < i.args[1][1] < 1 << 30 and op in self.keep:
                return 1
            if i.op == "or" and depth < 8 and any(Walker.val(self, a, env, depth + 1) == 1 for a in i.args):
                return 1
        return Walker.val(self, op, env, depth)


def ends_well(f, blk, idx, env):
    """a path from here to the end of main with status 0"""
    keep = set()
    for i in f.all_insts():
        if i.op == "ret" and i.args:
            keep |= slice_phis(f, i.args[0])
    keep |= set(env)
    # what carries the result on, and what conditions put together
    work = list(env)
    while work:
        for u in f.uses().get(work.pop(), []):
            if u.op in ("phi", "zext", "sext", "trunc", "xor", "icmp", "select", "and", "or", "freeze") and ("v", u.id) not in keep:
                keep.add(("v", u.id))
                work.append(("v", u.id))
    bad = []
    w = Exit(f, 60000, keep)

    def step(x, st, env, w):
        if x.op == "ret":
            v = w.val(x.args[0], env) if x.args else None
            if v == 0 or v is None:
                bad.append(x)
            return None
        if x.op == "unreachable":
            return None
        return [(st, None)]
    w.run([(blk, idx, env, 0)], step)
    return bad, w.overflow


def nullable(F, i):
    """a call of a library function that answers with an object or null"""
    g = F.p.fns.get(i.callee)
    return g is not None and F.kind.get(g.name) == "ptr"


def said(F, f, i):
    """the text of an error message"""
    if i.op != "call" or not i.callee or c11.last(F.p, i.callee) not in ("StatusMessage", "operator<<", "printf", "puts", "fprintf"):
        return None
    t = next((x for x in (F.text(f, a) for a in i.args) if x), None)
    return t.strip() if t and t.lower().lstrip().startswith(("error", "failure")) else None


def ours(F, f):
    """a function of the application itself"""
    return not F.p.q(f.name).startswith("ccgl::") and "/apps/" in "/" + f.shortfile and F.p.q(f.name) != "main"


def step_of(F, i, helpers):
    """(name, value that stands for failure) if the call is a step of the tool"""
    if i.op != "call" or not i.callee:
        return None
    q = F.p.q(i.callee)
    nm = q.split("::")[-1]
    if i.callee in helpers:
        k = helpers[i.callee]
        return (nm, -1 if k == "int" else 0) if k else None
    if nm in NOT_STEPS or not q.startswith("ccgl::") or "MongoClient" in q:
        return None
    if i.callee in F.ops:
        return nm, F.ops[i.callee][1]
    return (nm, 0) if nullable(F, i) else None


def succeeds(f, kind, blk, idx, env):
    """returns of success a helper can reach from here"""
    bad = []
    w = Walker(f, 20000)

    def step(x, st, env, w):
        if x.op == "ret":
            if not x.args or kind is None:
                return None
            v = w.val(x.args[0], env)
            if v is None or c11.success(kind, v):
                bad.append(x)
            return None
        return [(st, None)] if x.op != "unreachable" else None
    w.run([(blk, idx, env, 0)], step)
    return bad if not w.overflow else []


def check(ctx, rep):
    F = c11.Fail(ctx)
    p, S = F.p, F.S
    rep.rule("a step that fails makes the status of the tool differ from 0, whatever follows")
    rep.rule("after a message that begins with Error or FAILURE the tool does not end with status 0")
    rep.rule("the tool does not end with status 0 before it has come to the work on its inputs")
    n = m = k = 0
    # functions of the application that report an error of their own or of a step
    helpers, grow = {}, True
    while grow:
        grow = False
        for f in p.project():
            if ours(F, f) and f.blocks and f.name not in helpers and any(said(F, f, i) or step_of(F, i, helpers) or i.op == "call" and i.callee in helpers for i in f.all_insts()):
                t = f.dity[0] if f.dity else "void"
                helpers[f.name] = c11.reports(f) if not f.sret else None
                grow = True
    for f in p.project():
        main = p.q(f.name) == "main"
        if not main and f.name not in helpers:
            continue
        n += main
        kind = None if main else helpers[f.name]
        ends = (lambda b, x, e: ends_well(f, b, x, e)) if main else (lambda b, x, e: (succeeds(f, kind, b, x, e), False))
        what = "the tool still ends with status 0" if main else "its caller is told of success"
        file = f.shortfile.split("/")[-1]
        work = set()
        for i in f.all_insts():
            so = step_of(F, i, helpers)
            if so and (main or kind):
                nm, fv = so
                m += 1
                bad, over = ends(i.blk, i.idx + 1, {("v", i.id): fv})
                if over:
                    rep.count("steps whose paths were too many to follow")
                    continue
                rep.ob(not bad, "%s:%s" % (file, nm), i.where(), "%s %s" % (nm, "fails and " + what if bad else "decides the outcome when it fails"))
            t = said(F, f, i)
            if t is None and i.op == "call" and i.callee in helpers and helpers[i.callee] is None and any(said(F, p.fns[i.callee], x) for x in p.fns[i.callee].all_insts()):
                t = p.q(i.callee).split("::")[-1]
            if t and (main or kind):
                k += 1
                bad, over = ends(i.blk, i.idx + 1, {})
                rep.ob(not bad or over, "message", i.where(), "\"%s\" %s" % (t[:50], "is printed and " + what if bad else "leads to failure"))
        if main:
            # the work on the inputs: loops with steps that are reached again, or a helper that does it
            for h, body in f.natural_loops().items():
                if any(step_of(F, i, {}) for b in body for i in f.blocks[b]):
                    work.add(h)
            for i in f.all_insts():
                if i.op == "call" and i.callee in helpers and any(step_of(F, x, {}) for x in p.fns[i.callee].all_insts()) and any(p.fns[i.callee].natural_loops()):
                    work.add(i.blk)
            if not work:
                rep.count("applications without a loop over inputs")
                continue
            bad = []
            keep = set()
            for i in f.all_insts():
                if i.op == "ret" and i.args:
                    keep |= slice_phis(f, i.args[0])
            w = Exit(f, 60000, keep)

            def step(x, st, env, w):
                if x.blk in work:
                    return None
                if x.op == "ret":
                    v = w.val(x.args[0], env) if x.args else None
                    if v == 0 or v is None:
                        bad.append(x)
                    return None
                return [(st, None)] if x.op != "unreachable" else None
            w.run([(0, 0, {}, 0)], step)
            rep.ob(not bad or w.overflow, "%s:early" % file, f.blocks[0][0].where(), "ends with status 0 before any input is looked at" if bad else "ends before the work with another status than 0")
    rep.count("applications", n)
    rep.count("steps", m)
    rep.count("error messages", k)
    rep.need(n, 1, "main functions")
    rep.need(m, 8, "steps of the applications")
