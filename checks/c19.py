"""C19: returned text and pointers stay valid."""
import re
from effects import Effects
from sym import subst, show

TECH = "origin analysis of pointers, references and iterators (through own and library calls that hand on their argument) against the ends of life on every path: return, destructor call, container modification, release"
NOTE = "Pointers that callers keep to their own objects, and pointers stored by database or GDAL routines, are outside. Members that are used after their release are also decided by C03."

ITER = re.compile(r"(__normal_iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|reverse_iterator|_Deque_iterator|_Bit_(const_)?iterator)")
HANDS_ON = {"strchr": (0,), "strrchr": (0,), "strstr": (0,), "strcpy": (0,), "strcat": (0,), "strncpy": (0,), "fgets": (0,), "strpbrk": (0,), "memcpy": (0,), "memmove": (0,), "memset": (0,),
            "getcwd": (0,), "realpath": (1,), "readdir": (), "strtok": (0,), "wcschr": (0,), "wcsstr": (0,), "localtime_r": (1,), "gmtime_r": (1,), "bson_iter_key": (0,), "bson_iter_utf8": (0,)}
REALLOC = {"push_back", "emplace_back", "insert", "emplace", "resize", "reserve", "shrink_to_fit", "clear", "erase", "assign", "operator=", "append", "operator+=", "pop_back", "swap", "replace", "push_front"}
SEQ = re.compile(r"^std::(__cxx11::)?(vector|basic_string|deque)\b")
ASSOC = re.compile(r"^std::(__cxx11::)?(map|set|multimap|multiset|list|unordered_map)\b")


class Origins:
    def __init__(self, p, S, own):
        self.p, self.S, self.own = p, S, own
        self.ret = {}
        self.busy = set()
        self.memo = {}
        self.mut = {}
        self.kept = {}

    def gives(self, g):
        """arguments whose memory the pointer returned by g points into"""
        r = self.ret.get(g.name)
        if r is None:
            if g.name in self.busy:
                return set()
            self.busy.add(g.name)
            r = set()
            for i in g.all_insts():
                if i.op == "ret" and i.args and i.ty != "void":
                    for o in self.of(g, i.args[0]):
                        if o[0] == "arg":
                            r.add(o[1])
            self.ret[g.name] = r
            self.busy.discard(g.name)
        return r

    def of(self, f, op, seen=None):
        seen = seen if seen is not None else set()
        k = (f.name, op)
        if k in seen:
            return set()
        seen.add(k)
        if op[0] == "a":
            return {("arg", op[1])}
        if op[0] != "v":
            return set()
        i = f.insts[op[1]]
        o = i.op
        if o == "alloca":
            return {("loc", i.id)}
        if o in ("getelementptr", "bitcast", "addrspacecast", "freeze"):
            return self.of(f, i.args[0], seen)
        if o == "phi":
            r = set()
            for v, b in i.args:
                r |= self.of(f, v, seen)
            return r
        if o == "select":
            return self.of(f, i.args[1], seen) | self.of(f, i.args[2], seen)
        if o == "load":
            return self.content(f, i.args[0], seen) if i.ty == "ptr" else set()
        if o == "call" and i.callee:
            return self.called(f, i, seen)
        return set()

    def slot(self, f, op):
        """the local variable an address is the start of"""
        n = 0
        while op[0] == "v" and n < 6:
            i = f.insts[op[1]]
            if i.op == "alloca":
                return i
            if i.op in ("getelementptr", "bitcast"):
                op = i.args[0]
                n += 1
                continue
            break
        return None

    def content(self, f, op, seen):
        """what a pointer or iterator held in a local variable may point into"""
        a = self.slot(f, op)
        if a is None:
            return set()
        at = str(a.d.get("at"))
        if at != "ptr" and not ITER.search(at):
            return set()
        r = set()
        for w in self.slot_writes(f, a):
            if w.op == "store":
                r |= self.of(f, w.args[0], seen)
            elif w.op == "call" and w.callee:
                q = self.p.q(w.callee)
                if q.startswith("llvm.memcpy") or re.search(ITER.pattern + r"::(__normal_iterator|_Rb_tree_(const_)?iterator|operator=)$", q):
                    if len(w.args) > 1:
                        r |= self.content(f, w.args[1], seen) if self.slot(f, w.args[1]) is not None else self.of(f, w.args[1], seen)
        return r

    def slot_writes(self, f, a):
        out = []
        work = [("v", a.id)]
        while work:
            o = work.pop()
            for u in f.uses().get(o, []):
                if u.op in ("getelementptr", "bitcast") and u.args[0] == o:
                    work.append(("v", u.id))
                elif u.op == "store" and u.args[1] == o:
                    out.append(u)
                elif u.op == "call" and u.args and u.args[0] == o and u.callee:
                    q = self.p.q(u.callee)
                    if q.startswith("llvm.memcpy") or re.search(r"::(operator=|__normal_iterator|_Rb_tree_(const_)?iterator|reverse_iterator)$", q) or self.p.fns.get(u.callee) is not None and self.p.fns[u.callee].sret:
                        out.append(u)
        return out

    def called(self, f, i, seen):
        q = self.p.q(i.callee)
        g = self.p.fns.get(i.callee)
        if i.callee in self.own and g is not None and g.blocks:
            r = set()
            for k in self.gives(g):
                if k < len(i.args):
                    r |= self.of(f, i.args[k], seen)
            return r
        if q in HANDS_ON:
            r = set()
            for k in HANDS_ON[q]:
                if k < len(i.args):
                    r |= self.of(f, i.args[k], seen)
            return r
        if i.ty != "ptr":
            return set()
        n = q.split("::")[-1]
        if ITER.search(q) or q in ("std::next", "std::prev", "std::operator+"):
            if i.args and self.slot(f, i.args[0]) is not None:
                return self.content(f, i.args[0], seen)
            return self.of(f, i.args[0], seen) if i.args else set()
        if q in ("std::max", "std::min"):
            return self.of(f, i.args[0], seen) | self.of(f, i.args[1], seen)
        if q in ("std::move", "std::forward", "std::addressof", "std::__addressof", "std::find", "std::find_if", "std::lower_bound", "std::min_element", "std::max_element", "std::__find_if", "std::unique", "std::remove", "std::begin", "std::end"):
            return self.of(f, i.args[0], seen)
        if q.startswith("std::") and i.args and (SEQ.match(q) or ASSOC.match(q)) and n not in ("get_allocator",):
            return self.of(f, i.args[0], seen)
        return set()

    # ---- arguments whose address an object or another argument keeps after the call
    def keeps(self, g):
        """{(kept argument, argument that keeps it)}"""
        r = self.kept.get(g.name)
        if r is None:
            r = self.kept[g.name] = set()
            for i in g.all_insts():
                if i.op == "store" and i.args[0][0] in ("v", "a"):
                    src = [o[1] for o in self.of(g, i.args[0]) if o[0] == "arg"]
                    if not src or i.args[0][0] == "v" and g.insts[i.args[0][1]].ty != "ptr":
                        continue
                    e = self.S.expr(g, i.args[1])
                    if not member(e):
                        continue
                    while e[0] == "fld":
                        e = e[1]
                    k = e[1] if e[0] == "arg" else g.this[1] if e[0] == "this" and g.this else None
                    if k is not None and not (g.sret and k == 0):
                        r |= set((s, k) for s in src if s != k)
                elif i.op == "call" and i.callee in self.own:
                    h = self.p.fns.get(i.callee)
                    if h is None or not h.blocks:
                        continue
                    for s, k in self.keeps(h):
                        if s < len(i.args) and k < len(i.args):
                            src = [o[1] for o in self.of(g, i.args[s]) if o[0] == "arg"]
                            e = self.S.expr(g, i.args[k])
                            while e[0] == "fld":
                                e = e[1]
                            j = e[1] if e[0] == "arg" else g.this[1] if e[0] == "this" and g.this else None
                            if j is not None:
                                r |= set((x, j) for x in src if x != j)
        return r

    def escapes(self, f, v):
        """a newly made object that the function returns or stores in something that outlives it"""
        seen, work = set(), [v]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            for u in f.uses().get(o, []):
                if u.op == "ret":
                    return True
                if u.op in ("phi", "select", "bitcast"):
                    work.append(("v", u.id))
                elif u.op == "store" and u.args[0] == o and outlives(f, self.S.expr(f, u.args[1])):
                    return True
        return False

    # ---- containers changed by a call
    def changes(self, g, depth=0):
        """container expressions over g's arguments that a call of g may reallocate or clear"""
        r = self.mut.get(g.name)
        if r is not None:
            return r
        self.mut[g.name] = set()
        r = set()
        if depth < 4:
            for i in g.all_insts():
                if i.op == "call" and i.callee:
                    for e, how in self.changed_by(g, i, depth + 1):
                        if how == "all":
                            r.add(e)
        self.mut[g.name] = r
        return r

    def changed_by(self, f, i, depth=0):
        q = self.p.q(i.callee)
        n = q.split("::")[-1]
        if i.callee in self.own:
            g = self.p.fns.get(i.callee)
            if g is None or not g.blocks:
                return []
            ex = None
            out = []
            for e in self.changes(g, depth):
                ex = ex or [self.S.expr(f, a) for a in i.args]
                x = subst(e, g, ex)
                if x is not None:
                    out.append((x, "all"))
            return out
        if not i.args:
            return []
        if SEQ.match(q) and n in REALLOC:
            return [(self.S.expr(f, i.args[0]), "all")]
        if ASSOC.match(q):
            if n in ("clear", "operator=", "swap"):
                return [(self.S.expr(f, i.args[0]), "all")]
            if n == "erase":
                return [(self.S.expr(f, i.args[0]), "iter")]
        return []


def member(e):
    """a member of what an argument or this refers to (not what it points to)"""
    return e[0] == "fld" and (e[1][0] in ("arg", "this") or member(e[1]))


def stable(e):
    """a container that is the same object wherever the expression is evaluated"""
    t = e[0]
    if t in ("this", "loc", "glob", "arg"):
        return True
    if t == "fld":
        return stable(e[1])
    return False


def flows(f, start, stops, uses):
    """first of uses that is reachable after instruction start without passing an instruction of stops"""
    by = {}
    for s in stops:
        by.setdefault(s.blk, set()).add(s.idx)
    us = {}
    for u, blk, idx in uses:
        us.setdefault(blk, []).append((idx, u))
    seen = set()
    todo = [(start.blk, start.idx + 1)]
    while todo:
        b, k = todo.pop()
        st = [x for x in by.get(b, ()) if x >= k]
        end = min(st) if st else None
        for idx, u in sorted(us.get(b, []), key=lambda x: x[0]):
            if idx >= k and (end is None or idx <= end):
                return u
        if end is not None:
            continue
        for t in f.succ(b):
            if t not in seen:
                seen.add(t)
                todo.append((t, 0))
    return None


def stale_walk(f, start, values, stops, bad):
    """first instruction that uses one of the values after instruction start; values made anew and variables merged with fresh ones are let go"""
    ids = frozenset(values)
    if not ids:
        return None
    stopset = set(id(x) for x in stops)
    seen = set()
    todo = [(start.blk, start.idx + 1, ids)]
    while todo:
        b, k, T = todo.pop()
        blk = f.blocks[b]
        while k < len(blk) and T:
            i = blk[k]
            k += 1
            if i.op == "phi":
                continue
            if id(i) in stopset:
                T = frozenset()
                break
            if i.op != "icmp" and any(a[0] == "v" and a[1] in T for a in i.args) and bad(i):
                return i
            if i.id in T:
                T = T - {i.id}
        if not T:
            continue
        for t in f.succ(b):
            phis = [i for i in f.blocks[t] if i.op == "phi"]
            N = set(T)
            for i in phis:
                N.discard(i.id)
            for i in phis:
                for v, pb in i.args:
                    if pb == b and v[0] == "v" and v[1] in T:
                        N.add(i.id)
            N = frozenset(N)
            if N and (t, N) not in seen:
                seen.add((t, N))
                todo.append((t, 0, N))
    return None


def is_dtor(p, q):
    n = q.split("::")[-1]
    return n.startswith("~")


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    own = set(f.name for f in p.project())
    O = Origins(p, S, own)
    rep.rule("no returned pointer, reference or iterator points into a local object or an argument passed by value")
    rep.rule("no pointer into a local object is stored in a member, an output argument, a global or a container that outlives the call")
    rep.rule("no pointer into an object is used after the object's destructor ran on that path")
    rep.rule("no pointer, reference or iterator into a container is used after an operation that may move or remove what it points to, unless it was obtained anew")
    nret = nst = ndt = nmu = 0
    for f in p.project():
        name = p.q(f.name)
        byval = set()
        for i in f.all_insts():
            if i.op == "ret" and i.args and (i.ty == "ptr" or i.args[0][0] == "v" and f.insts[i.args[0][1]].ty == "ptr"):
                nret += 1
                o = O.of(f, i.args[0])
                loc = [x for x in o if x[0] == "loc"]
                if loc and ITER.search(str(f.insts[loc[0][1]].d.get("at"))) and False:
                    loc = []
                rep.ob(not loc, "return:%s" % name, i.where(), "%s %s" % (name, "returns a pointer into its local %s" % (f.vname(("v", loc[0][1])) or "temporary") if loc else "returns no pointer into a local object"))
            if i.op == "store" and i.args[0][0] == "v":
                v = f.insts[i.args[0][1]]
                if v.ty != "ptr" and v.op != "alloca" and v.op != "getelementptr":
                    continue
                loc = [x for x in O.of(f, i.args[0]) if x[0] == "loc"]
                if not loc:
                    continue
                tgt = S.expr(f, i.args[1])
                nst += 1
                r = outlives(f, tgt)
                rep.ob(not r, "kept:%s" % name, i.where(), "%s %s a pointer into its local %s%s" % (name, "keeps" if r else "does not keep", f.vname(("v", loc[0][1])) or "temporary", " in %s" % show(tgt, f)[:60] if r else ""))
            if i.op == "call" and i.callee in own and p.fns.get(i.callee) is not None and p.fns[i.callee].blocks:
                for s0, k in O.keeps(p.fns[i.callee]):
                    if s0 >= len(i.args) or k >= len(i.args):
                        continue
                    loc = [x for x in O.of(f, i.args[s0]) if x[0] == "loc"]
                    if not loc:
                        continue
                    nst += 1
                    e = S.expr(f, i.args[k])
                    r = outlives(f, e) and not (e[0] == "this" and ("::~" in name)) or i.args[k][0] == "v" and f.insts[i.args[k][1]].op == "call" and O.escapes(f, i.args[k])
                    rep.ob(not r, "kept:%s" % name, i.where(), "%s: the object given to %s %s a pointer into the local %s" % (name, p.q(i.callee).split("::")[-1], "outlives the call and keeps" if r else "does not outlive this function with", f.vname(("v", loc[0][1])) or "temporary"))
            if i.op == "call" and i.callee and p.q(i.callee).startswith("std::") and p.q(i.callee).split("::")[-1] in ("push_back", "emplace_back", "insert", "emplace") and len(i.args) > 1:
                tgt = S.expr(f, i.args[0])
                if not outlives(f, tgt, False):
                    continue
                for a in i.args[1:]:
                    s = O.slot(f, a)
                    if s is not None and str(s.d.get("at")) == "ptr":
                        loc = [x for x in O.content(f, a, set()) if x[0] == "loc"]
                        nst += 1
                        rep.ob(not loc, "kept:%s" % name, i.where(), "%s: what is added to %s %s" % (name, show(tgt, f)[:50], "points into a local object" if loc else "does not point into a local object"))
        ndt += dead(p, O, f, name, rep)
        nmu += moved(p, S, O, f, name, rep)
    rep.count("returned pointers", nret)
    rep.count("stores of pointers to local objects", nst)
    rep.count("ends of life of local objects", ndt)
    rep.count("container changes", nmu)
    rep.need(nret, 20, "returned pointers")
    rep.need(ndt, 100, "destructor calls")


def outlives(f, e, strict=True):
    """the memory lives on after the function: a member of this or of what an argument refers to, a global"""
    first = True
    while True:
        t = e[0]
        if t in ("fld", "idx", "ld", "mapat", "mapval", "deref"):
            e = e[1]
            continue
        if t == "call" and len(e) > 2 and e[1].startswith("std::") and e[1].split("::")[-1] in ("operator[]", "at", "front", "back", "operator*", "operator->"):
            e = e[2]
            continue
        break
    if t == "arg":
        return not (f.sret and e[1] == 0)
    return t in ("this", "glob")


def derived(O, f):
    """pointer values of a function with the local objects they point into"""
    out = []
    for i in f.all_insts():
        if i.ty == "ptr" and i.op in ("call", "phi", "select", "getelementptr", "load", "bitcast"):
            if i.op == "getelementptr" and O.slot(f, ("v", i.id)) is not None:
                continue
            r = [x for x in O.of(f, ("v", i.id)) if x[0] == "loc"]
            if r:
                out.append((i, r))
    return out


def dead(p, O, f, name, rep):
    dt = {}
    for i in f.all_insts():
        if i.op == "call" and i.callee and i.args and is_dtor(p, p.q(i.callee)):
            a = O.slot(f, i.args[0])
            if a is not None:
                dt.setdefault(a.id, []).append(i)
    if not dt:
        return 0
    n = 0
    D = derived(O, f)
    by = {}
    for i, roots in D:
        for r in roots:
            by.setdefault(r[1], []).append(i)
    for r, vs in by.items():
        for d in dt.get(r, []):
            n += 1
            u = stale_walk(f, d, [v.id for v in vs if v.op != "load" and v is not d and f.idominates(v, d)], dt[r], lambda x: not harmless(p, x))
            if u is not None:
                rep.ob(False, "dead:%s:%s" % (name, f.vname(("v", r)) or "temporary"), u.where(), "%s: a pointer into %s is used after the end of its life (line %s)" % (name, f.vname(("v", r)) or "a temporary object", d.line))
    # members of local structures that hold a pointer into the object
    for w in f.all_insts():
        if w.op != "store" or w.args[0][0] != "v" or f.insts[w.args[0][1]].ty != "ptr":
            continue
        a = O.slot(f, w.args[1])
        if a is None or str(a.d.get("at")) == "ptr" or ITER.search(str(a.d.get("at"))):
            continue
        rs = [x for x in O.of(f, w.args[0]) if x[0] == "loc" and x[1] in dt and x[1] != a.id]
        if not rs:
            continue
        e = O.S.expr(f, w.args[1])
        ws = [x for x in f.all_insts() if x.op == "store" and O.slot(f, x.args[1]) is a and O.S.expr(f, x.args[1]) == e]
        us = [x for x in f.all_insts() if x.op == "load" and O.slot(f, x.args[0]) is a and O.S.expr(f, x.args[0]) == e or x.op == "call" and not harmless(p, x) and any(O.slot(f, y) is a for y in x.args)]
        for r in rs:
            for d in dt[r[1]]:
                if flows(f, w, [x for x in ws if x is not w], [(d, d.blk, d.idx)]) is None:
                    continue
                n += 1
                u = flows(f, d, ws, [(x, x.blk, x.idx) for x in us])
                if u is not None:
                    rep.ob(False, "dead:%s:%s" % (name, f.vname(("v", a.id)) or "temporary"), u.where(), "%s: %s still refers to %s, whose life ended at line %s" % (name, show(e, f)[:60], f.vname(("v", r[1])) or "a temporary object", d.line))
    # variables that hold a pointer into the object
    for a in [i for i in f.all_insts() if i.op == "alloca" and (str(i.d.get("at")) == "ptr" or ITER.search(str(i.d.get("at"))))]:
        ws = O.slot_writes(f, a)
        for w in ws:
            src = w.args[0] if w.op == "store" else w.args[1] if len(w.args) > 1 else None
            if src is None:
                continue
            rs = [x for x in (O.of(f, src) if w.op == "store" else O.content(f, src, set())) if x[0] == "loc"]
            for r in rs:
                for d in dt.get(r[1], []):
                    if flows(f, w, [x for x in ws if x is not w], [(d, d.blk, d.idx)]) is None:
                        continue
                    n += 1
                    us = slot_reads(p, f, a, ws)
                    u = flows(f, d, ws, us)
                    if u is not None:
                        rep.ob(False, "dead:%s:%s" % (name, f.vname(("v", a.id)) or "temporary"), u.where(), "%s: %s still points into %s, whose life ended at line %s" % (name, f.vname(("v", a.id)) or "a variable", f.vname(("v", r[1])) or "a temporary object", d.line))
    rep.ob(True, "dead:%s" % name, f.where(), "%d ends of life, %d pointers into local objects" % (sum(len(x) for x in dt.values()), len(D)))
    return sum(len(x) for x in dt.values())


def harmless(p, u):
    return u.op == "call" and u.callee and (p.q(u.callee).startswith("llvm.lifetime") or is_dtor(p, p.q(u.callee)))


def slot_reads(p, f, a, ws):
    out = []
    work = [("v", a.id)]
    seen = set()
    while work:
        o = work.pop()
        for u in f.uses().get(o, []):
            if u.op in ("getelementptr", "bitcast") and u.args[0] == o:
                work.append(("v", u.id))
            elif u in ws or u.id in seen or harmless(p, u):
                continue
            elif u.op in ("load", "call"):
                seen.add(u.id)
                out.append((u, u.blk, u.idx))
    return out


DERIVE = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "operator[]", "at", "front", "back", "data", "c_str", "find", "insert", "emplace", "lower_bound", "upper_bound"}


def moved(p, S, O, f, name, rep):
    muts = []
    for i in f.all_insts():
        if i.op == "call" and i.callee:
            for e, how in O.changed_by(f, i):
                if stable(e):
                    muts.append((i, e, how))
    if not muts:
        return 0
    pts = {}
    for i in f.all_insts():
        if i.op == "call" and i.callee and i.ty == "ptr" and i.args:
            q = p.q(i.callee)
            if q.split("::")[-1] in DERIVE and (SEQ.match(q) or ASSOC.match(q)):
                pts.setdefault(S.expr(f, i.args[0]), []).append(i)
    slots = [(a, O.slot_writes(f, a)) for a in f.all_insts() if a.op == "alloca" and (str(a.d.get("at")) == "ptr" or ITER.search(str(a.d.get("at"))))]
    for m, e, how in muts:
        bad = None
        if how == "all":
            T = set(v.id for v in pts.get(e, []) if v is not m and f.idominates(v, m))
            grow = True
            while grow:
                grow = False
                for i in f.all_insts():
                    if i.id not in T and i.op in ("phi", "getelementptr", "select") and i.ty == "ptr" and i is not m and f.idominates(i, m) and any((x[0] if i.op == "phi" else x) in [("v", t) for t in T] for x in (i.args if i.op != "getelementptr" else i.args[:1])):
                        T.add(i.id)
                        grow = True
            u = stale_walk(f, m, T, [], lambda x: True)
            if u is not None:
                bad = (u, "a reference, pointer or iterator into it")
            for a, ws in slots:
                if not any(w.op == "store" and w.args[0][0] == "v" and any(w.args[0] == ("v", v.id) for v in pts.get(e, [])) or w.op == "call" and holds(p, O, S, f, w, e, pts) for w in ws):
                    continue
                mine = [w for w in ws if w.op == "store" and any(w.args[0] == ("v", v.id) for v in pts.get(e, [])) or w.op == "call"]
                if not any(flows(f, w, [x for x in ws if x is not w], [(m, m.blk, m.idx)]) for w in mine):
                    continue
                u = flows(f, m, ws, [x for x in slot_reads(p, f, a, ws) if x[0] is not m])
                if u is not None:
                    bad = bad or (u, "the iterator %s" % (f.vname(("v", a.id)) or ""))
        else:
            s = erased(p, O, f, m)
            if s is not None:
                ws = O.slot_writes(f, s)
                u = flows(f, m, ws, [x for x in slot_reads(p, f, s, ws) if x[0] is not m])
                if u is not None:
                    bad = (u, "the erased iterator %s" % (f.vname(("v", s.id)) or ""))
        rep.ob(bad is None, "moved:%s:%s" % (name, show(e, f)[:40]), (bad[0] if bad else m).where(),
               "%s: %s is changed (line %s) and %s" % (name, show(e, f)[:40], m.line, bad[1] + " is used afterwards" if bad else "nothing that pointed into it is used afterwards"))
    return len(muts)


def holds(p, O, S, f, w, e, pts):
    """a copy of an iterator into container e"""
    src = w.args[1] if len(w.args) > 1 else None
    s = O.slot(f, src) if src is not None else None
    if s is None:
        return False
    return any(x.op == "store" and any(x.args[0] == ("v", v.id) for v in pts.get(e, [])) for x in O.slot_writes(f, s))


def erased(p, O, f, m):
    """the iterator variable whose value is handed to erase"""
    if len(m.args) < 2 or m.args[1][0] != "v":
        return None
    i = f.insts[m.args[1][1]]
    if i.op != "load":
        return None
    s = O.slot(f, i.args[0])
    if s is not None:
        mods = [u for u in f.uses().get(("v", s.id), []) if u.op == "store" or u.op == "call" and u.callee and re.search(r"::operator(\+\+|--|\+=|-=|=)$", p.q(u.callee)) and u.args[0] == ("v", s.id)]
        if flows(f, i, mods + [w for w in O.slot_writes(f, s)], [(m, m.blk, m.idx)]) is None:
            return None  # the variable has moved on before
    for _ in range(4):
        if s is None:
            return None
        ws = O.slot_writes(f, s)
        if f.vname(("v", s.id)) and not str(f.vname(("v", s.id))).startswith(("agg.tmp", "ref.tmp")):
            return s
        nx = None
        for w in ws:
            if w.op == "call" and len(w.args) > 1:
                nx = O.slot(f, w.args[1])
        if nx is None:
            return None if any(w.op == "store" for w in ws) else s
        s = nx
    return s
