"""Reachability under assumptions: conditional constant propagation over a function and its callees where branch
conditions are decided from a finite set of assumed facts (linear integer facts, null/non-null, true/false)."""
from fractions import Fraction
from sym import Sym, subst, contains
from poly import Poly, add, const, nonneg, fact_polys, is_const, cval, key
from effects import Effects, path_of

MAXSET = 12


class Facts:
    def __init__(self, P, facts):
        self.P = P
        self.raw = list(facts)
        self.polys = fact_polys(P, facts)
        self.null = {}
        self.boolv = {}
        self.fields = set()
        for f in facts:
            self.add1(f)
        self.id = tuple(sorted(map(repr, self.raw)))

    def add1(self, f):
        P = self.P
        if f[0] in ("true", "false"):
            self.boolv[P.canon(f[1])] = f[0] == "true"
        elif f[0] in ("eq", "ne") and len(f) == 3 and ("null",) in (f[1], f[2]):
            e = f[2] if f[1] == ("null",) else f[1]
            self.null[P.canon(e)] = f[0] == "eq"

    def extend(self, more):
        r = Facts.__new__(Facts)
        r.P = self.P
        r.raw = self.raw + [m for m in more if m not in self.raw]
        r.polys = self.polys + fact_polys(self.P, more)
        r.null = dict(self.null)
        r.boolv = dict(self.boolv)
        r.fields = self.fields
        r.id = self.id
        for f in more:
            r.add1(f)
        return r

    def fcmp(self, pred, a, b):
        """decide a comparison of reals (strictness only through positive constants)"""
        P = self.P
        d = add(P.poly(a), P.poly(b), -1)
        neg = {m: -c for m, c in d.items()}
        eps = const(Fraction(-1, 1 << 40))
        ge, le = nonneg(d, self.polys), nonneg(neg, self.polys)
        gt, lt = nonneg(add(d, eps), self.polys), nonneg(add(neg, eps), self.polys)
        return {"slt": True if lt else False if ge else None, "sle": True if le else False if gt else None,
                "sgt": True if gt else False if le else None, "sge": True if ge else False if lt else None,
                "eq": False if gt or lt else True if ge and le else None,
                "ne": True if gt or lt else False if ge and le else None}[pred]

    def cmp(self, pred, a, b):
        """decide an integer comparison; True/False/None"""
        P = self.P
        d = add(P.poly(a), P.poly(b), -1)     # a - b
        m1 = const(-1)
        neg = {m: -c for m, c in d.items()}
        if pred in ("ult", "ule", "ugt", "uge"):
            # treat as signed when both sides are known non-negative
            if not (nonneg(P.poly(a), self.polys) and nonneg(P.poly(b), self.polys)):
                if is_const(d) and cval(d) == 0:
                    return pred in ("ule", "uge")
                return None
            pred = "s" + pred[1:]
        if pred == "slt":
            if nonneg(add(neg, m1), self.polys): return True
            if nonneg(d, self.polys): return False
        elif pred == "sle":
            if nonneg(neg, self.polys): return True
            if nonneg(add(d, m1), self.polys): return False
        elif pred == "sgt":
            if nonneg(add(d, m1), self.polys): return True
            if nonneg(neg, self.polys): return False
        elif pred == "sge":
            if nonneg(d, self.polys): return True
            if nonneg(add(neg, m1), self.polys): return False
        elif pred in ("eq", "ne"):
            r = None
            if nonneg(add(d, m1), self.polys) or nonneg(add(neg, m1), self.polys):
                r = False
            elif nonneg(d, self.polys) and nonneg(neg, self.polys):
                r = True
            if r is not None:
                return r == (pred == "eq")
        return None


class Result:
    __slots__ = ("blocks", "edges", "rets", "visited")


class Reach:
    def __init__(self, prog, S=None, E=None):
        self.p = prog
        self.s = S or Sym(prog)
        self.e = E or Effects(prog, self.s)
        self.P = Poly()
        self.cache = {}
        self.stack = []

    def facts(self, raw):
        return Facts(self.P, raw)

    def bind(self, fn):
        return tuple(("this",) if fn.this == ("a", i) else ("arg", i) for i in range(len(fn.params)))

    def rexpr(self, fn, op, binding):
        e = self.s.expr(fn, op)
        r = subst(e, fn, binding)
        return r if r is not None else ("opq", str(op), fn.name)

    def run(self, fn, facts, binding=None):
        binding = binding or self.bind(fn)
        k = (fn.name, binding, facts.id)
        if k in self.cache:
            return self.cache[k]
        res = Result()
        res.blocks, res.edges, res.rets, res.visited = {0}, set(), set(), []
        if fn.name in self.stack or len(self.stack) > 8:
            res.blocks = set(range(len(fn.blocks)))
            res.rets = {None}
            res.edges = set((b, s) for b in res.blocks for s in fn.succ(b))
            return res
        self.stack.append(fn.name)
        ch = True
        n = 0
        while ch and n < 60:
            ch = False
            n += 1
            for b in fn.rpo():
                if b not in res.blocks:
                    continue
                for s in self.live_succ(fn, b, facts, binding, res):
                    if (b, s) not in res.edges:
                        res.edges.add((b, s))
                        res.blocks.add(s)
                        ch = True
        for b in res.blocks:
            t = fn.term(b)
            if t.op == "ret" and t.args:
                for op in self.leaves(fn, t.args[0], res):
                    v = self.eval(fn, op, facts, binding, res, {}, b)
                    if v is None:
                        res.rets.add(None)
                    else:
                        res.rets |= v
            elif t.op == "ret":
                res.rets.add(None)
        self.stack.pop()
        self.cache[k] = res
        return res

    def leaves(self, fn, op, res):
        """the values a phi can take over the live edges"""
        out, seen, st = [], set(), [op]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "v" and fn.insts[x[1]].op == "phi":
                ph = fn.insts[x[1]]
                for v, b in ph.args:
                    if (b, ph.blk) in res.edges:
                        st.append(v)
            else:
                out.append(x)
        return out

    def noreturn_call(self, fn, b):
        for i in fn.blocks[b]:
            if i.op == "call" and i.callee and i.callee not in self.p.fns:
                d = self.p.decls.get(i.callee)
                if d and d["noret"]:
                    return True
        return False

    def live_succ(self, fn, b, facts, binding, res):
        ce = fn.cond_edges(b)
        if not ce:
            return fn.succ(b)
        t = fn.term(b)
        v = self.eval(fn, t.args[0], facts, binding, res, {}, b)
        if v is None:
            return fn.succ(b)
        out = []
        if t.op == "br":
            for s, c, pol in ce:
                if any(bool(x) == pol for x in v):
                    out.append(s)
        else:
            cases = dict((c, s) for c, s in t.d["cases"])
            for x in v:
                out.append(cases.get(x, t.d["def"]))
        return out

    def stale(self, fn, i, e):
        """may the function have overwritten, before instruction i, a field that expression e reads?"""
        fields = set()
        collect_fields(e, fields)
        if not fields:
            return False
        w = self.field_writers(fn)
        for fld in fields:
            for j in w.get(fld, ()):
                if (j.blk == i.blk and j.idx < i.idx) or i.blk in fn.reach(j.blk):
                    return True
        return False

    def field_writers(self, fn):
        k = ("fw", fn.name)
        if k not in self.cache:
            w = {}
            for i in fn.all_insts():
                if i.op in ("store", "call"):
                    for root, path in self.e.inst_writes(fn, i):
                        fl = [x for x in path if x.startswith(".")]
                        if fl and root[0] in ("this", "arg", "ld", "phi", "opq", "call"):
                            # element writes (through the pointer) do not change the field itself
                            tail = path[path.index(fl[-1]) + 1:]
                            if "*" in tail:
                                continue
                            w.setdefault(fl[-1][1:], []).append(i)
            self.cache[k] = w
        return self.cache[k]

    def eval(self, fn, op, facts, binding, res, memo, at):
        """set of possible integer values or None"""
        if op[0] == "c":
            return frozenset([op[1]])
        if op[0] == "null":
            return frozenset([0])
        if op[0] not in ("v", "a"):
            return None
        mk = (op, at)
        if mk in memo:
            return memo[mk]
        memo[mk] = None
        r = self._eval(fn, op, facts, binding, res, memo, at)
        memo[mk] = r
        return r

    def lookup(self, fn, op, facts, binding, i=None):
        e = self.rexpr(fn, op, binding)
        if i is not None and self.stale(fn, i, self.s.expr(fn, op)):
            return None
        neg = False
        while e[0] == "not":
            e, neg = e[1], not neg
        c = self.P.canon(e)
        if neg:
            return frozenset([0 if facts.boolv[c] else 1]) if c in facts.boolv else None
        if c in facts.boolv:
            return frozenset([1 if facts.boolv[c] else 0])
        p = self.P.poly(e)
        if is_const(p):
            v = p.get((), 0)
            if v == int(v):
                return frozenset([int(v)])
        return None

    def _eval(self, fn, op, facts, binding, res, memo, at):
        if op[0] == "a":
            return self.lookup(fn, op, facts, binding)
        i = fn.insts[op[1]]
        o = i.op
        ev = lambda x: self.eval(fn, x, facts, binding, res, memo, at)
        if o in ("zext", "sext", "trunc", "freeze"):
            v = ev(i.args[0])
            if v is None:
                return self.lookup(fn, op, facts, binding, i)
            if o == "trunc" and i.ty == "i1":
                return frozenset(x & 1 for x in v)
            if o == "zext" and self.s.width(fn, i.args[0]) == 1:
                return frozenset(abs(x) & 1 for x in v)
            return v
        if o == "icmp":
            return self.icmp(fn, i, facts, binding, res, memo, at)
        if o == "fcmp":
            p = {"o": "s", "u": "s"}.get(i.d["p"][0]) if i.d["p"] not in ("uno", "ord", "true", "false") else None
            if p is None:
                return None
            p = {"seq": "eq", "sne": "ne"}.get(p + i.d["p"][1:], p + i.d["p"][1:])
            ea, eb = self.rexpr(fn, i.args[0], binding), self.rexpr(fn, i.args[1], binding)
            if self.stale(fn, i, self.s.expr(fn, i.args[0])) or self.stale(fn, i, self.s.expr(fn, i.args[1])):
                return None
            r = facts.fcmp(p, ea, eb)
            return None if r is None else frozenset([1 if r else 0])
        if o == "xor":
            a, b = ev(i.args[0]), ev(i.args[1])
            if a is not None and b is not None and i.ty == "i1":
                return frozenset((x & 1) ^ (y & 1) for x in a for y in b)
            return None
        if o in ("and", "or"):
            a, b = ev(i.args[0]), ev(i.args[1])
            if i.ty == "i1":
                if o == "and":
                    if a == frozenset([0]) or b == frozenset([0]):
                        return frozenset([0])
                if o == "or":
                    if a == frozenset([1]) or b == frozenset([1]):
                        return frozenset([1])
            if a is None or b is None:
                return None
            return frozenset((x & y) if o == "and" else (x | y) for x in a for y in b)
        if o == "select":
            c = ev(i.args[0])
            if c == frozenset([1]) or c == frozenset([-1]):
                return ev(i.args[1])
            if c == frozenset([0]):
                return ev(i.args[2])
            a, b = ev(i.args[1]), ev(i.args[2])
            return a | b if a is not None and b is not None else None
        if o == "phi":
            out = set()
            for v, b in i.args:
                if (b, i.blk) in res.edges:
                    x = ev(v)
                    if x is None:
                        return self.lookup(fn, op, facts, binding, i)
                    out |= x
            return frozenset(out) if out and len(out) <= MAXSET else None
        if o in ("add", "sub"):
            a, b = ev(i.args[0]), ev(i.args[1])
            if a is not None and b is not None and len(a) * len(b) <= MAXSET:
                return frozenset(x + y if o == "add" else x - y for x in a for y in b)
            return self.lookup(fn, op, facts, binding, i)
        if o == "call" and i.callee in self.p.fns and i.ty.startswith("i"):
            v = self.lookup(fn, op, facts, binding, i)
            if v is not None:
                return v
            f = self.p.fns[i.callee]
            fx = facts
            r = self.run(f, fx, tuple(self.rexpr(fn, a, binding) for a in i.args))
            if None in r.rets or not r.rets:
                return None
            return frozenset(r.rets) if len(r.rets) <= MAXSET else None
        if o in ("load", "call"):
            return self.lookup(fn, op, facts, binding, i)
        return None

    def icmp(self, fn, i, facts, binding, res, memo, at):
        p = i.d["p"]
        A, B = i.args
        a, b = self.eval(fn, A, facts, binding, res, memo, at), self.eval(fn, B, facts, binding, res, memo, at)
        if a is not None and b is not None and A[0] != "null" and B[0] != "null":
            w = max(self.s.width(fn, A), self.s.width(fn, B), 1)
            return frozenset(1 if _cmp(p, x, y, w) else 0 for x in a for y in b)
        ea, eb = self.rexpr(fn, A, binding), self.rexpr(fn, B, binding)
        if self.stale(fn, i, self.s.expr(fn, A)) or self.stale(fn, i, self.s.expr(fn, B)):
            return None
        if ("null",) in (ea, eb) and p in ("eq", "ne"):
            e = eb if ea == ("null",) else ea
            if e == ("null",):
                return frozenset([1 if p == "eq" else 0])
            n = facts.null.get(self.P.canon(e))
            if n is None and e[0] in ("loc", "fld", "idx", "glob", "str", "fn"):
                n = False
            if n is None:
                return None
            return frozenset([1 if n == (p == "eq") else 0])
        r = facts.cmp(p, ea, eb)
        if r is None:
            # range test against a set on one side
            if b is not None and len(b) > 1:
                rs = set(facts.cmp(p, ea, ("c", y)) for y in b)
                if len(rs) == 1 and None not in rs:
                    return frozenset([1 if rs.pop() else 0])
            return None
        return frozenset([1 if r else 0])


def collect_fields(e, out):
    if not isinstance(e, tuple):
        return
    if e and e[0] in ("ld", "mapval", "mapat"):
        a = e[1]
        while isinstance(a, tuple) and a and a[0] in ("idx", "mapat"):
            a = a[1]
        if isinstance(a, tuple) and a and a[0] == "fld":
            out.add(a[2])
    for x in e[1:]:
        collect_fields(x, out)


def _cmp(p, x, y, w=32):
    if p[0] == "u":
        x &= (1 << w) - 1
        y &= (1 << w) - 1
        p = "s" + p[1:]
    return {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[p]
