"""Typestate of one owned field: along every path of every member function, from unknown to released, null, freshly allocated or borrowed.
State of a field: (s, fl, at)
  s:  U as it was at entry, N null, L released but still referred to, F allocated by this object, A handed in as an argument, B taken from another object
  fl: what is known of the flag that says whether the object owns it (1, 0, None unknown, '-' no flag)"""
import grid
from own import releases
from paths import Walker


class Cell:
    """how the field's address is recognised in a function: a member of `this`, of another object, or what argument k refers to"""

    def __init__(self, kind, what, field=None, flag=None):
        self.kind, self.what, self.field, self.flag = kind, what, field, flag
        self.key = (kind, what, field, flag)


class FieldOwn:
    def __init__(self, p, S, O):
        self.p, self.S, self.O = p, S, O
        self.memo = {}
        self.busy = set()
        self.steps = 0
        self.releases_seen = set()
        self.stores_seen = set()

    # ---- owned fields of each class: those a member function releases; with the flag that every such release in the destructor is under
    def owned(self):
        out = {}
        for f in self.O.funcs:
            if not f.this:
                continue
            cls = self.p.q(f.name).rsplit("::", 1)[0]
            for fld, facts in self.released(f, frozenset()):
                out.setdefault(cls, {}).setdefault(fld, []).append((f, facts))
        res = {}
        for cls, flds in out.items():
            res[cls] = {}
            for fld, rs in flds.items():
                flags = None
                for f, facts in rs:
                    g = {t[1][2] for t in facts if t[0] == "true" and isinstance(t[1], tuple) and t[1][0] == "fld" and t[1][1] == ("this",)} | \
                        {t[1][1][2] for t in facts if t[0] in ("true",) and isinstance(t[1], tuple) and t[1][0] == "ld" and t[1][1][0] == "fld" and t[1][1][1] == ("this",)}
                    if "::~" in self.p.q(f.name) or flags is None:
                        flags = g if flags is None else flags | g
                res[cls][fld] = sorted(flags)[0] if flags else None
        return res

    def released(self, f, seen):
        """[(field of this, facts at the release)] in f itself and in what it passes the field's address to"""
        S, p = self.S, self.p
        r = []
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            g = self.O.byname.get(i.callee)
            if g is None:
                q = releases(p.q(i.callee))
                if q and q[0] < len(i.args):
                    e = S.expr(f, i.args[q[0]])
                    if e[0] == "ld" and e[1][0] == "fld" and e[1][1] == ("this",):
                        r.append((e[1][2], S.facts(f, i.blk)))
            else:
                for k, a in enumerate(i.args):
                    if k == 0 and g.this:
                        continue
                    e = S.expr(f, a)
                    if e[0] == "fld" and e[1] == ("this",) and self.releases_out(g, k):
                        r.append((e[2], S.facts(f, i.blk)))
        return r

    def releases_out(self, g, k, depth=0):
        """function g releases what its argument k refers to"""
        key = ("ro", g.name, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        ok = False
        for i in g.all_insts():
            if i.op == "call" and i.callee:
                h = self.O.byname.get(i.callee)
                if h is None:
                    q = releases(self.p.q(i.callee))
                    if q and q[0] < len(i.args) and self.S.expr(g, i.args[q[0]]) == ("ld", ("arg", k)):
                        ok = True
                else:
                    for n, a in enumerate(i.args):
                        if a == ("a", k) and self.releases_out(h, n):
                            ok = True
        self.memo[key] = ok
        return ok

    # ---- the walk of one cell through one function
    def is_cell(self, f, op, c):
        if c.kind == "arg":
            return op == ("a", c.what)
        e = self.S.expr(f, op) if op[0] in ("v", "a") else None
        return e is not None and e[0] == "fld" and e[2] == c.field and e[1] == c.what

    def is_flag(self, f, op, c):
        if not c.flag or c.kind == "arg":
            return False
        e = self.S.expr(f, op) if op[0] in ("v", "a") else None
        return e is not None and e[0] == "fld" and e[2] == c.flag and e[1] == c.what

    def is_guard(self, f, op, c):
        if c.kind == "arg" or c.what != ("this",) or op[0] != "v":
            return False
        e = self.S.expr(f, op)
        return e[0] == "fld" and e[1] == ("this",) and e[2] in self.guards

    def value(self, f, op, c, depth=0):
        """what a stored value is: N, F, A, B, = (the cell's own value) or U"""
        kinds = set()
        for v, b in grid.split(f, op, 0):
            while v[0] == "v" and f.insts[v[1]].op in ("bitcast", "freeze"):
                v = f.insts[v[1]].args[0]
            if v[0] == "null" or v[0] == "c" and v[1] == 0:
                kinds.add("N")
            elif v[0] == "a":
                kinds.add("A")
            elif v[0] == "v":
                i = f.insts[v[1]]
                if i.op == "call":
                    kinds.add("F" if self.O.family(f, i) else "B" if self.getter(i) else "U")
                elif i.op == "load":
                    a = i.args[0]
                    if self.is_cell(f, a, c):
                        kinds.add("=")
                    elif a[0] == "v" and f.insts[a[1]].op == "alloca":
                        kinds |= self.slot(f, a, c, depth)
                    elif a[0] == "a":
                        kinds.add("A")
                    else:
                        e = self.S.expr(f, a)
                        kinds.add("B" if e[0] == "fld" else "U")
                elif i.op == "getelementptr":
                    kinds.add("B")
                else:
                    kinds.add("U")
            else:
                kinds.add("U")
        if "B" in kinds and self.moved(f, op):
            kinds = kinds - {"B"} | {"F"}
        for k in "BFA=UN":
            if k in kinds:
                return k
        return "U"

    def getter(self, i):
        g = self.O.byname.get(i.callee)
        return g is not None and g.this is not None

    def slot(self, f, a, c, depth):
        ks = set()
        if depth > 3:
            return {"U"}
        for u in f.uses().get(a, []):
            if u.op == "store" and u.args[1] == a:
                ks.add(self.value(f, u.args[0], c, depth + 1))
            elif u.op == "call" and u.callee in self.O.byname:
                g = self.O.byname[u.callee]
                for k, x in enumerate(u.args):
                    if x == a:
                        if any(t[0] == k for t in self.O.fresh(g)):
                            ks.add("F")
                        else:
                            o = self.run(g, Cell("arg", k), ("N", "-"))
                            ks |= {s for (s, fl), rv in o[0] if s in ("B", "A")}
        return ks or {"U"}

    def run(self, f, c, start, top=False):
        """-> (frozenset of ((s, fl), return value), frozenset of problems (text key, inst id, function name))"""
        key = (f.name, c.key, start)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return (frozenset({(start, None)}), frozenset())
        self.busy.add(key)
        outs, probs = set(), set()
        changed = set()  # calls that change what the cell holds: what they found before says nothing afterwards
        S = self.S
        q = self.p.q(f.name)
        heads = f.natural_loops()

        def assign(i, st, k):
            s, fl = st[0][:1], st[1]
            if k == "=":
                return st
            self.stores_seen.add((f.name, i.id))
            if s in ("F", "D") or s == "U" and fl in ("-", None, 1):
                if not (s == "U" and k == "U") and not self.moved_out(f, c):
                    probs.add(("overwritten", i.id, f.name, c.field))
            v = i.args[0]
            if k in "FA" and v[0] == "v" and f.insts[v[1]].op == "load" and f.insts[v[1]].args[0][0] == "v" and f.insts[f.insts[v[1]].args[0][1]].op == "alloca":
                k += "@%d" % f.insts[v[1]].args[0][1]
            return (k, fl)

        def release(i, st):
            s, fl = st[0][:1], st[1]
            self.releases_seen.add((f.name, i.id, c.field))
            if s == "L":
                probs.add(("released twice", i.id, f.name, c.field))
            elif s == "B":
                probs.add(("borrowed and released", i.id, f.name, c.field))
            elif s in ("U", "A") and fl in (None, 0):
                probs.add(("released without looking at the flag", i.id, f.name, c.field))
            return ("N", fl) if s == "N" else ("L", fl)

        def step(i, st, env, w):
            self.steps += 1
            full, (s, fl) = st, (st[0][:1], st[1])
            if i.op == "store" and "@" in st[0] and st[0].endswith("@%s" % (i.args[1][1:2] or [""])[0]) and i.args[1][0] == "v":
                st = (s, fl)  # the local variable has given it up
            if i.op == "load" and c.flag and fl is None and self.is_flag(f, i.args[0], c):
                return [((s, 1), {("v", i.id): 1}), ((s, 0), {("v", i.id): 0})]
            if i.op == "load" and c.flag and fl in (0, 1) and self.is_flag(f, i.args[0], c):
                return [(st, {("v", i.id): fl})]
            if i.op == "load" and s == "L" and self.is_cell(f, i.args[0], c):
                us = f.uses().get(("v", i.id), [])
                if any(u.op not in ("icmp", "store") and not (u.op == "call" and u.callee and releases(self.p.q(u.callee))) for u in us):
                    probs.add(("used after its release", i.id, f.name, c.field))
                return [(st, None)]
            if i.op == "store":
                if self.is_cell(f, i.args[1], c):
                    return [(assign(i, st, self.value(f, i.args[0], c)), None)]
                if self.is_flag(f, i.args[1], c):
                    v = w.val(i.args[0], env)
                    v = (v & 1) if isinstance(v, int) else None
                    if v == 0 and s == "U" and fl is None:
                        probs.add(("disowned", i.id, f.name, c.field))
                    elif v == 0 and (s == "F" or s == "U" and fl == 1):
                        s = "D"  # to be released or kept elsewhere, with the flag cleared first
                    if v == 1 and s == "U" and fl != 1 and c.kind == "fld":
                        s = "B"  # from now on counted as owned, although it may be borrowed
                    return [((s + full[0][1:] if s == full[0][0] else s, v), None)]
                if i.args[0][0] == "c" and i.args[0][1] & 1 == 0 and self.is_guard(f, i.args[1], c) and not (s == "N" or fl == 0):
                    probs.add(("said not to be initialised", i.id, f.name, c.field))
                return [(st, None)]
            if i.op == "ret":
                v = w.val(i.args[0], env) if i.args else None
                outs.add(((s, fl), (v & 1) if isinstance(v, int) and f.dity and f.dity[0] in ("bool", "i1") else None))
                return None
            if i.op == "call" and i.callee:
                g = self.O.byname.get(i.callee)
                qn = self.p.q(i.callee)
                if qn == "std::swap":
                    return [(st, None)]
                if g is None:
                    r = releases(qn)
                    if r and r[0] < len(i.args):
                        a = i.args[r[0]]
                        while a[0] == "v" and f.insts[a[1]].op in ("bitcast", "freeze"):
                            a = f.insts[a[1]].args[0]
                        if a[0] == "v" and f.insts[a[1]].op == "load" and self.is_cell(f, f.insts[a[1]].args[0], c):
                            return [(release(i, st), None)]
                        if any(u.op == "store" and u.args[0] == a and self.is_cell(f, u.args[1], c) and f.idominates(u, i) for u in f.uses().get(a, [])):
                            return [(release(i, st), None)]  # the value that was put into the cell before
                    elif not i.callee.startswith("llvm.") and any(self.is_cell(f, a, c) for a in i.args):
                        return [(("U", fl), None)]
                    return [(st, None)]
                if "@" in st[0] and any(a == ("v", int(st[0].split("@")[1])) and self.releases_out(g, k) for k, a in enumerate(i.args)):
                    return [(("L", fl), None)]  # released through the local variable it came from
                subs = []
                for k, a in enumerate(i.args):
                    if c.kind == "arg" and a == ("a", c.what):
                        subs.append((g, Cell("arg", k)))
                    elif c.kind != "arg" and self.is_cell(f, a, c):
                        subs.append((g, Cell("arg", k, c.field)))
                    elif c.kind != "arg" and g.this and k == g.this[1] and a[0] in ("v", "a") and S.expr(f, a) == c.what:
                        subs.append((g, Cell("fld", ("this",), c.field, c.flag)))
                cur = {(st, None)}
                for g2, c2 in subs:
                    new = set()
                    for st2, rv in cur:
                        if c.kind == "fld" and c2.kind == "arg" and st2[0][:1] in ("U", "F", "A", "B", "D") and not f.uses().get(("v", i.id)) and any(t[0] == c2.what for t in self.O.fresh(g2)):
                            probs.add(("filled while it may hold an array", i.id, f.name, c.field))
                        o, pr = self.run(g2, c2, (st2[0][:1], st2[1]))
                        for t in pr:
                            probs.add(t if t[2] != g2.name or c2.kind != "arg" else (t[0], i.id, f.name, c.field))
                        for st3, rv3 in o:
                            if st3[0] == st2[0][:1]:
                                st3 = (st2[0], st3[1])
                            new.add((st3, rv3))
                    cur = new
                if any(st3[0] != st[0] for st3, rv in cur):
                    changed.add(i.id)
                return [(st3, {("v", i.id): rv} if rv is not None else None) for st3, rv in cur]
            return [(st, None)]

        def edge(b, s2, st, env):
            s, fl = st[0][:1], st[1]
            tail = st[0][1:]
            facts = set()
            for e in f.cond_edges(b) or []:
                if e[0] == s2 and e[1] is not None and isinstance(e[2], bool) and len(e) == 3 and e[1][0] == "v" and len(f.succ(b)) > 1:
                    S.imply(f, e[1], e[2], facts, 3)
            stale = self.before(f, changed) if facts and changed else ()
            for t in facts:
                r = self.fact(t, c)
                if r is None or r[0] == "flag" or t in stale:
                    continue
                what, v = r
                if what == "null":
                    if v and s in ("F",):
                        return None
                    if v and s in ("U", "A", "B", "D"):
                        s = "N"
                    if not v and s == "N":
                        return None
                elif what == "unset" and s == "U":
                    s, fl = "N", (0 if c.flag else fl)
            if c.kind == "obj" and s2 in heads and b in heads[s2]:
                if s == "L":
                    probs.add(("left dangling", f.blocks[b][-1].id, f.name, c.field))
                return ("U", None if c.flag else "-")
            return (s + tail if s == st[0][:1] else s, fl)
        w = Walker(f, limit=40000)
        w.run([(0, 0, {}, start)], step, edge)
        if w.overflow:
            outs.add((("U", start[1]), None))
            self.overflow = getattr(self, "overflow", 0) + 1
        self.busy.discard(key)
        r = (frozenset(outs), frozenset(probs))
        self.memo[key] = r
        return r

    def before(self, f, calls):
        """what the results of these calls say about the state before them"""
        out = set()
        for k in calls:
            key = ("before", f.name, k)
            if key not in self.memo:
                r = set()
                if f.insts[k].ty == "i1":
                    for pol in (True, False):
                        self.S.imply(f, ("v", k), pol, r, 3)
                self.memo[key] = r
            out |= self.memo[key]
        return out

    def fact(self, t, c):
        """a branch fact about the cell or its flag: ('flag', 0/1), ('null', bool), ('infeasible', 0)"""
        def isld(e, fld):
            return isinstance(e, tuple) and e[0] == "ld" and isinstance(e[1], tuple) and e[1][0] == "fld" and e[1][2] == fld and e[1][1] == c.what
        if t[0] in ("true", "false") and c.kind != "arg" and len(t) == 2:
            if c.flag and isld(t[1], c.flag):
                return ("flag", 1 if t[0] == "true" else 0)
            if t[0] == "false" and isinstance(t[1], tuple) and t[1][0] == "ld" and isinstance(t[1][1], tuple) and t[1][1][0] == "fld" and t[1][1][1] == ("this",) and t[1][1][2] in self.guards:
                return ("unset", 0)
        if t[0] in ("eq", "ne") and len(t) == 3:
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                cell = isinstance(a, tuple) and (a == ("ld", ("arg", c.what)) if c.kind == "arg" else isld(a, c.field))
                if cell and (b == ("null",) or b == 0 or b == ("c", 0)):
                    return ("null", t[0] == "eq")
        return None

    # ---- initialisers and the members that say whether they have run
    def prepare(self):
        """functions that constructors call to give every field its first value, and the members under whose falsehood other functions call them"""
        self.init, self.guards = set(), set()
        own = self.owned()
        for f in self.O.funcs:
            if not f.this:
                continue
            parts = self.p.q(f.name).split("::")
            if len(parts) < 2 or parts[-1] != parts[-2]:
                continue
            for i in f.all_insts():
                g = self.O.byname.get(i.callee) if i.op == "call" and i.callee else None
                if g is None or not g.this or i.args[0] != ("a", f.this[1]) or self.p.q(g.name).rsplit("::", 1)[0] not in own:
                    continue
                if any(x.op == "store" and x.args[0][0] == "null" and (self.S.expr(g, x.args[1]) + (0, 0, 0))[:3] in [("fld", ("this",), k) for k in own[self.p.q(g.name).rsplit("::", 1)[0]]] for x in g.blocks[0]):
                    self.init.add(g.name)
        for f in self.O.funcs:
            for i in f.all_insts():
                if i.op == "call" and i.callee in self.init:
                    for t in self.S.facts(f, i.blk):
                        if t[0] == "false" and isinstance(t[1], tuple) and t[1][0] == "ld" and isinstance(t[1][1], tuple) and t[1][1][0] == "fld" and t[1][1][1] == ("this",):
                            self.guards.add(t[1][1][2])
        return own

    def moved_out(self, f, c):
        """the cell's value is stored somewhere else by the same function"""
        return any(x.op == "store" and x.args[0][0] == "v" and f.insts[x.args[0][1]].op == "load" and self.is_cell(f, f.insts[x.args[0][1]].args[0], c) and not self.is_cell(f, x.args[1], c) for x in f.all_insts())

    def moved(self, f, op):
        """the member a value was loaded from is emptied or given another value by the same function"""
        for v, b in grid.split(f, op, 0):
            if v[0] == "v" and f.insts[v[1]].op == "load":
                e = self.S.expr(f, f.insts[v[1]].args[0])
                if e[0] == "fld" and any(x.op == "store" and x.args[1][0] == "v" and self.S.expr(f, x.args[1]) == e for x in f.all_insts()):
                    return True
        return False

    # ---- every member function of every class with owned fields
    def entries(self):
        """[(function, class, field, cell, start state, constructor?, destructor?)]"""
        own = self.prepare()
        out = []
        classes = {self.p.q(f.name).rsplit("::", 1)[0] for f in self.O.funcs if f.this and f.acc == 3}  # where members without an access specifier are private
        for f in self.O.funcs:
            if f.this:
                q = self.p.q(f.name)
                parts = q.split("::")
                cls = q.rsplit("::", 1)[0]
                if cls in own and f.acc not in (1, 2) and not (f.acc == 0 and cls in classes) and f.name not in self.init:
                    ctor = parts[-1] == parts[-2]
                    for fld, flag in sorted(own[cls].items()):
                        out.append((f, cls, fld, Cell("fld", ("this",), fld, flag), ("N" if ctor else "U", None if flag else "-"), ctor, parts[-1].startswith("~")))
            bases = {}
            for i in f.all_insts():
                if i.op in ("call", "store"):
                    for a in i.args:
                        if a[0] == "v":
                            e = self.S.expr(f, a)
                            if e[0] == "fld" and e[1] != ("this",):
                                for cls in own:
                                    if e[2] in own[cls]:
                                        bases[(e[1], cls, e[2])] = 1
            for b, cls, fld in bases:
                flag = own[cls][fld]
                out.append((f, cls, fld, Cell("obj", b, fld, flag), ("U", None if flag else "-"), False, False))
        return own, out
