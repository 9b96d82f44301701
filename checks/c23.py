"""C23: no argument is ignored."""
import re
from effects import STD_PURE, STD_ALGO_WRITES

TECH = "forward data and control dependence of every parameter (through locals, own calls and library calls) to results, stores, calls and decisions; a comparison that can only reject the call does not count"
NOTE = "That a parameter takes part on some path is decided, not that it does so on each path it should (C06, C10, C21 decide that for rows, columns, layers and coordinates)."

# parameters left without a name on purpose: kept for callers of the former interface, or of an operation that must not be called
UNNAMED = {"BatchRelease2DArray", "BatchRelease1DArray", "NotCopyable", "operator="}
# stand-ins for functions of another compiler's library, only called by the number conversions and always with the same number
EMULATED = {"_itoa_s": "radix", "_gcvt_s": "numberOfDigits"}
# parameters that are there to be compared with what the object has, or printed
REJECTS = {"SetData": {"n"}, "Set2DData": {"n"}, "StatusMessage": {"msg"}, "Usage": {"appname", "customstr"}, "Log": {"msg"}}
# parameters that mean the same wherever they occur: an operation that hands on work hands them on as well
SAME = {"calc_pos", "mask", "use_mask_ext", "default_value", "lyr", "row", "col", "recls", "include_nodata", "out_origin", "out_combined", "opts", "filename", "delimiter", "format", "include_hour", "header", "values"}
LOG = {"StatusMessage", "Log"}


class Use:
    def __init__(self, p, S):
        self.p, self.S = p, S
        self.own = set(f.name for f in p.project())
        self.memo = {}
        self.exits = {}
        self.content = False

    def exit_only(self, f, b):
        """from block b the function only reports and returns: no stores but to locals, no own calls but messages"""
        k = (f.name, b)
        r = self.exits.get(k)
        if r is not None:
            return r
        seen, work, r = set(), [b], True
        while work and r:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 40:
                r = False
                break
            for i in f.blocks[x]:
                if i.op == "store" and not self.local(f, i.args[1]):
                    r = False
                elif i.op == "call" and i.callee in self.own and self.p.q(i.callee).split("::")[-1] not in LOG:
                    r = False
                elif i.op == "call" and not i.callee:
                    r = False
                elif i.op == "ret" and i.args and not self.fixed(f, i.args[0], seen):
                    r = False
                elif i.op in ("br", "switch") and i.args and len(f.succ(x)) > 1 and any(h <= seen for h in ()):
                    r = False
            for t in f.succ(x):
                work.append(t)
        if r and any(h in seen for h in f.natural_loops()):
            r = False
        self.exits[k] = r
        return r

    def loop_end(self, f, b, succ):
        """the branch decides how often a loop runs"""
        for h, body in f.natural_loops().items():
            if b in body and any(x not in body for x in succ) and (b == h or h in succ or any(len(f.pred(h)) and x in body and x == h for x in succ) or self.header_cond(f, h, b, body)):
                return True
        return False

    def header_cond(self, f, h, b, body):
        """b belongs to the condition evaluated at the head of the loop (no effects between the head and b)"""
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen or x == h:
                continue
            seen.add(x)
            if any(i.op == "store" for i in f.blocks[x]):
                return False
            work += [y for y in f.pred(x) if y in body]
        return len(seen) <= 3

    def fixed(self, f, op, blocks):
        """a value that is the same constant whatever led here"""
        if op[0] in ("c", "f", "null", "zero", "undef"):
            return True
        if op[0] != "v":
            return False
        i = f.insts[op[1]]
        if i.op == "load" and f.this is not None:
            e = self.S.expr(f, i.args[0])
            return e[0] == "fld" and e[1] == ("this",)
        if i.op == "phi":
            vs = [v for v, b in i.args if b in blocks]
            return bool(vs) and all(v[0] in ("c", "f", "null", "zero", "undef") or v[0] == "v" and f.insts[v[1]].op == "load" and self.fixed(f, v, blocks) for v in vs)
        return False

    def local(self, f, op):
        n = 0
        while op[0] == "v" and n < 8:
            i = f.insts[op[1]]
            if i.op == "alloca":
                return i.id
            if i.op in ("getelementptr", "bitcast"):
                op = i.args[0]
                n += 1
                continue
            return None
        return None

    def used(self, f, k):
        """'yes', 'guard' (only rejects) or 'no'"""
        key = (f.name, k, self.content)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = "yes"      # recursion: a parameter that is only handed on to itself is rare
        r = self.trace(f, ("a", k))
        self.memo[key] = r
        return r

    def trace(self, f, start):
        best = "no"
        seen, work = set(), [start]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            isloc = o[0] == "v" and f.insts[o[1]].op == "alloca"
            for u in f.uses().get(o, []):
                r = self.use(f, o, u, work, isloc)
                if r == "yes":
                    return "yes"
                if r == "guard":
                    best = "guard"
        return best

    def use(self, f, o, u, work, isloc):
        op = u.op
        if op == "ret":
            return "yes"
        if op in ("br", "switch"):
            s = f.succ(u.blk)
            if len(set(s)) < 2:
                return "no"
            if self.loop_end(f, u.blk, s):
                return "yes"
            e = [self.exit_only(f, x) for x in s]
            return "guard" if any(e) and not all(e) else "yes"
        if op == "store":
            a = self.local(f, u.args[1])
            if u.args[0] == o and not isloc or u.args[0] == o:
                if a is None:
                    return "yes"
                if isloc and a == o[1]:
                    return "no"
                work.append(("v", a))
                return "no"
            # the address of the store depends on it
            if not isloc:
                return "yes" if a is None else self._loc(work, a)
            return "no"
        if op == "call":
            return self.call(f, o, u, work, isloc)
        if op == "phi":
            work.append(("v", u.id))
            return "no"
        work.append(("v", u.id))
        return "no"

    def _loc(self, work, a):
        work.append(("v", a))
        return "no"

    def call(self, f, o, u, work, isloc):
        if u.callee is None:
            return "yes"
        if u.callee.startswith("llvm."):
            if u.callee.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                if any(x == o for x in u.args[1:]):
                    a = self.local(f, u.args[0])
                    if a is None:
                        return "yes"
                    work.append(("v", a))
                return "no"
            if u.callee.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume")):
                return "no"
            work.append(("v", u.id))
            return "no"
        q = self.p.q(u.callee)
        n = q.split("::")[-1]
        if n.startswith("~"):
            return "no"
        ks = [k for k, x in enumerate(u.args) if x == o]
        g = self.p.fns.get(u.callee)
        if u.callee in self.own and g is not None and g.blocks:
            if n in LOG:
                return "guard"
            r = "no"
            for k in ks:
                x = self.used(g, k)
                if x == "yes":
                    # a predicate over it: what matters is what is done with the answer
                    if self.predicate(g) and not self.effects(g):
                        work.append(("v", u.id))
                        if u.d.get("sret"):
                            t = self.base(f, u.args[0])
                            if t is None:
                                return "yes"
                            work.append(t)
                    else:
                        return "yes"
                elif x == "guard":
                    work.append(("v", u.id))
                    if u.d.get("sret"):
                        t = self.base(f, u.args[0])
                        if t is None:
                            return "yes"
                        work.append(t)
            return r
        if q.startswith(("std::", "__gnu_cxx", "operator")):
            rest = [k for k in ks if k > 0]
            if self.content and not rest and n in ("empty", "size", "length") and u.callee.startswith("_ZNK"):
                return "no"
            work.append(("v", u.id))
            if u.d.get("sret"):
                t = self.base(f, u.args[0])
                if t is None:
                    return "yes"
                work.append(t)
                return "no"
            member = u.callee.startswith(("_ZNS", "_ZNK", "_ZN9__gnu_cxx"))
            if not member:
                if n in ("operator<<", "getline", "operator>>", "put_time"):
                    return self.into(f, o, u.args[0], work) if rest else "no"
                if n in STD_ALGO_WRITES:
                    return self.into(f, o, u.args[2] if len(u.args) > 2 else u.args[0], work)
                return "no"
            const = u.callee.startswith("_ZNK")
            if rest and not const:
                r = self.into(f, o, u.args[0], work)
                if r == "yes" and n in STD_PURE:
                    return "no"
                return r
            if 0 in ks and not const and not isloc and n not in STD_PURE and self.base(f, u.args[0]) is None and (o[0] == "a" or n in ("operator=", "operator+=", "assign", "append", "push_back")):
                return "yes"  # (an element that outlives the call is assigned)
            return "no"
        return "yes"

    def into(self, f, o, target, work):
        """o becomes part of the object target refers to"""
        t = self.base(f, target)
        if t is None:
            return "yes"
        if t == "console":
            return "guard"
        if t[0] == "v" and re.search(r"stream|filebuf", str(f.insts[t[1]].d.get("at"))) and "stringstream" not in str(f.insts[t[1]].d.get("at")):
            return "yes"
        work.append(t)
        return "no"

    def base(self, f, op):
        """the local variable (through chains of calls on the same object) an address belongs to; None: memory that outlives the call"""
        n = 0
        while n < 60:
            n += 1
            if op[0] == "g":
                return "console" if re.match(r"_ZSt[34](cout|cerr|clog)", op[1]) else None
            if op[0] != "v":
                return None
            i = f.insts[op[1]]
            if i.op == "alloca":
                return ("v", i.id)
            if i.op in ("getelementptr", "bitcast") or i.op == "call" and i.ty == "ptr" and i.args and not i.d.get("sret") and i.callee and self.p.q(i.callee).startswith("std::"):
                op = i.args[0]
                continue
            if i.op == "load":
                # an iterator or pointer variable: what it was taken from
                a = self.local(f, i.args[0])
                src = [u for u in f.uses().get(("v", a), []) if u.op == "store" and u.args[1] == ("v", a)] if a is not None else []
                if len(src) == 1:
                    op = src[0].args[0]
                    continue
                return None
            return None
        return None

    def predicate(self, g):
        return str(g.dity[0] if g.dity else "") not in ("void", "", "None")

    def effects(self, g):
        return any(r[0] in ("this", "arg") and not (g.sret and r == ("arg", 0)) for r, p in self.E.summary(g))


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    U = Use(p, S)
    U.E = ctx.effects()
    rep.rule("each parameter reaches a result, a store, a library call or a decision other than to reject the call")
    rep.rule("of a text its characters take part, not only whether there are any")
    rep.rule("where an operation calls another that has the same option (position, mask, layer, default, delimiter, format, option map, ...), the value it was given is handed on")
    rep.rule("an operation that is asked for a layer takes each cell of a layered grid from a layer that depends on it")
    n = g = t = 0
    for f in p.project():
        if "$_" in f.name or "operator()" in f.dem or f.dem == "main":
            continue
        q = p.q(f.name)
        first = (1 if f.this is not None else 0) + (1 if f.sret else 0)
        for k, prm in enumerate(f.params):
            if k < first or not prm["n"] and q.split("::")[-1] in UNNAMED or prm["n"] == "radix" or q.split("::")[-1] in EMULATED and prm["n"] == EMULATED[q.split("::")[-1]]:
                continue
            n += 1
            r = U.used(f, k)
            if r == "guard":
                g += 1
            strict = not (str(f.dity[0]) == "bool" and not U.effects(f)) and (f.acc == 3 or f.this is None) and prm["n"] not in REJECTS.get(q.split("::")[-1], ())
            rep.ob(r == "yes" or r == "guard" and not strict, "arg:%s:%s" % (q, prm["n"]), f.where(), "%s: %s %s" % (f.dem[:100], prm["n"], {"yes": "takes part", "guard": "only decides whether the call is rejected or is only printed", "no": "is ignored"}[r]))
            if r == "yes" and re.match(r"(const )?(std::)?w?string( ?&)?$", str(f.dity[1 + k - (1 if f.sret else 0)] if len(f.dity) > 1 + k - (1 if f.sret else 0) else "")):
                t += 1
                U.content = True
                c = U.used(f, k)
                U.content = False
                rep.ob(c != "no", "text:%s:%s" % (q, prm["n"]), f.where(), "%s: %s" % (f.dem[:100], "what %s says takes part" % prm["n"] if c != "no" else "only the length of %s takes part, not what it says" % prm["n"]))
            if r == "guard" and __import__("os").environ.get("VV"):
                print("guard", f.dem[:120], prm["n"])
    fw = forwards(U, p, S, rep)
    rep.count("arguments handed on under the same name", fw)
    rep.count("parameters", n)
    rep.count("texts", t)
    rep.count("parameters that only reject", g)
    rep.need(n, 200, "parameters")


def slice_of(U, f, op):
    """parameters (and everything else) a value is computed from: data only, through locals"""
    out, seen, work = set(), set(), [op]
    while work:
        o = work.pop()
        if o in seen:
            continue
        seen.add(o)
        if o[0] == "a":
            out.add(o[1])
            continue
        if o[0] != "v":
            continue
        i = f.insts[o[1]]
        if i.op == "alloca":
            todo = [o]
            sub = set()
            while todo:
                x = todo.pop()
                if x in sub:
                    continue
                sub.add(x)
                for u in f.uses().get(x, []):
                    if u.op == "store" and u.args[1] == x:
                        work.append(u.args[0])
                    elif u.op in ("getelementptr", "bitcast") and u.args[0] == x:
                        todo.append(("v", u.id))
                    elif u.op == "call":
                        work += [a for a in u.args if a != x]
            continue
        if i.op == "phi":
            for v, b in i.args:
                work.append(v)
                t = f.blocks[b][-1]
                work += [a for a in t.args if t.op in ("br", "switch")]
            for b in f.pred(i.blk):
                for c in f.pred(b):
                    t = f.blocks[c][-1]
                    if t.op in ("br", "switch"):
                        work += list(t.args)
            continue
        work += [a[0] if isinstance(a[0], tuple) else a for a in i.args]
    return out


def decided(U, f, blk, k):
    """the call is only made on one outcome of a test of the parameter"""
    for b in range(len(f.blocks)) if isinstance(f.blocks, list) else f.blocks:
        if not f.blocks[b]:
            continue
        t = f.blocks[b][-1]
        if t.op not in ("br", "switch") or not t.args or len(set(f.succ(b))) < 2 or not f.dominates(b, blk) or b == blk:
            continue
        e = [U.exit_only(f, x) for x in f.succ(b)]
        if any(e) and not all(e):
            continue        # only rejects
        if any(f.edge_dominates(b, x, blk) for x in set(f.succ(b))) and any(k in slice_of(None, f, a) for a in t.args):
            return True
    return False


def forwards(U, p, S, rep):
    own = set(f.name for f in p.project())
    n = 0
    for f in p.project():
        if f.dem == "main" or "$_" in f.name:
            continue
        mine = {}
        first = (1 if f.this is not None else 0) + (1 if f.sret else 0)
        for k, prm in enumerate(f.params):
            if k >= first and prm["n"]:
                mine[prm["n"]] = k
        if not mine:
            continue
        for i in f.all_insts():
            if i.op in ("load", "store") and "lyr" in mine:
                e = S.expr(f, i.args[0 if i.op == "load" else 1])
                if e[0] == "ld":
                    e = ("idx", e)      # the first element of a row
                if e[0] == "idx" and e[1][0] == "ld" and e[1][1][0] == "idx" and e[1][1][1] == ("ld", ("fld", ("this",), "raster_2d_")):
                    a = i.args[0 if i.op == "load" else 1]
                    ix = f.insts[a[1]].args[1:] if a[0] == "v" and f.insts[a[1]].op == "getelementptr" else [a]
                    n += 1
                    ok = any(mine["lyr"] in slice_of(U, f, x) for x in ix)
                    rep.ob(ok, "layer:%s" % p.q(f.name), i.where(), "%s %s" % (p.q(f.name), "takes the layer it is asked for" if ok else "takes a layer that does not depend on lyr"))
            if i.op != "call" or i.callee not in own:
                continue
            g = p.fns.get(i.callee)
            if g is None or not g.blocks or g is f:
                continue
            gf = (1 if g.this is not None else 0) + (1 if g.sret else 0)
            for j, prm in enumerate(g.params):
                if j < gf or prm["n"] not in mine or j >= len(i.args):
                    continue
                k = mine[prm["n"]]
                if g.params[j]["t"] != f.params[k]["t"] or prm["n"] not in SAME or p.q(f.name).split("::")[:2] != p.q(g.name).split("::")[:2]:
                    continue
                n += 1
                s = slice_of(None, f, i.args[j])
                ok = k in s or S.expr(f, i.args[j])[0] == "fld" or decided(U, f, i.blk, k)
                rep.ob(ok, "handed:%s:%s:%s" % (p.q(f.name), p.q(g.name).split("::")[-1], prm["n"]), i.where(), "%s %s %s to %s" % (p.q(f.name), "hands its" if ok else "does not hand its", prm["n"], p.q(g.name).split("::")[-1]))
        sib = {}
        for i in f.all_insts():
            if i.op == "call" and i.callee in own and i.callee != f.name:
                sib.setdefault(i.callee, []).append(i)
        for callee, cs in sib.items():
            if len(cs) < 2:
                continue
            g = p.fns[callee]
            for j in range((1 if g.this is not None else 0) + (1 if g.sret else 0), len(g.params)):
                es = [(c, S.expr(f, c.args[j])) for c in cs if j < len(c.args)]
                ks = set(e[1] for c, e in es if e[0] == "arg" and e[1] >= first and f.params[e[1]]["t"] == g.params[j]["t"])
                for c, e in es:
                    if len(ks) == 1 and e[0] == "fld" and e[1] == ("this",) and re.search("map|string|MAP", g.dity[1 + j - (1 if g.sret else 0)] if len(g.dity) > 1 + j - (1 if g.sret else 0) else ""):
                        k = list(ks)[0]
                        n += 1
                        ok = decided(U, f, c.blk, k)
                        rep.ob(ok, "same:%s:%s:%s" % (p.q(f.name), p.q(callee).split("::")[-1], g.params[j]["n"]), c.where(), "%s hands %s to %s in one call and the object's own %s in another" % (
                            p.q(f.name), f.params[k]["n"], p.q(callee).split("::")[-1], e[2]))
    return n
