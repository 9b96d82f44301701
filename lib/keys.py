"""Must-key analysis: which keys a std::map certainly holds at a program point.

Keys are expressions; temporaries that hold a key are replaced by the expression of the value stored into them."""
from sym import subst

INSERT = ("operator[]", "emplace", "try_emplace", "insert_or_assign", "emplace_hint", "insert")
DROP = ("clear", "erase", "swap", "extract")
TOP = None


def inst_map(q):
    return q.startswith("std::map::")


class Keys:
    def __init__(self, p, S):
        self.p, self.S = p, S
        self.ens = {}
        self.memo = {}
        self.stack = {}
        self.low = 0
        self.busy = set()

    def tabled(self, k, unknown, compute):
        """memoised recursive computation; a result that rests on the assumed answer of one still being computed is not kept"""
        if k in self.memo:
            return self.memo[k]
        if k in self.stack:
            self.low = min(self.low, self.stack[k])
            return unknown
        d = len(self.stack)
        self.stack[k] = d
        outer, self.low = self.low, d
        r = compute()
        del self.stack[k]
        if self.low >= d:
            self.memo[k] = r
            self.low = outer
        else:
            self.low = min(outer, self.low)
        return r

    def canon(self, fn, e):
        """replace temporaries holding a single stored value by that value"""
        if not isinstance(e, tuple):
            return e
        if e and e[0] == "glob":
            t = self.p.gptr(e[1])
            x = self.p.cstring(t) if t is not None else None
            return ("str", x) if x is not None else e
        if e and e[0] == "loc" and e[2] == fn.name and e[1] in fn.insts:
            a = fn.insts[e[1]]
            if a.op == "alloca":
                st = self.S.forward(fn, a)
                if st is not None:
                    x = self.canon(fn, self.S.expr(fn, st.args[0]))
                    return x if x[0] == "str" else ("tmp", bare(x))
                o = self.string_source(fn, ("v", e[1]))
                if o is not None:
                    x = self.canon(fn, self.S.expr(fn, o))
                    return x if x[0] == "str" else ("tmp", x)
        return tuple(self.canon(fn, x) if isinstance(x, tuple) else x for x in e)

    def key(self, fn, op):
        return self.canon(fn, self.S.expr(fn, op))

    def string_source(self, fn, op):
        """the text a temporary std::string is built from, if it is only built once and not changed"""
        src = None
        for u in fn.uses().get(op, []):
            if u.op == "call" and u.callee and u.args and u.args[0] == op:
                q = self.p.q(u.callee)
                last = q.split("::")[-1]
                if q == "std::basic_string::basic_string":
                    if src is not None or len(u.args) < 2:
                        return None
                    src = u.args[1]
                elif u.d.get("sret") or last in ("operator=", "append", "operator+=", "push_back", "assign", "erase", "clear", "insert", "swap", "resize", "pop_back", "replace"):
                    return None
        return src

    def pairkey(self, fn, op):
        """key of a pair built by make_pair or a pair constructor"""
        if op[0] != "v":
            return None
        for u in fn.uses().get(op, []):
            if u.op == "call" and u.callee:
                q = self.p.q(u.callee)
                if q == "std::make_pair" and u.d.get("sret") and u.args[0] == op:
                    return self.key(fn, u.args[1])
                if q == "std::pair::pair" and u.args[0] == op and len(u.args) > 2:
                    return self.key(fn, u.args[1])
                if q == "std::pair::pair" and u.args[0] == op and len(u.args) == 2 and u.args[1] != op:
                    return self.pairkey(fn, u.args[1])
        return None

    def literals(self, fn, e):
        """texts of the elements when e is an element of a constant local array of names"""
        x = e
        if x[0] == "ld":
            x = x[1]
        if x[0] != "idx" or not isinstance(x[1], tuple) or x[1][0] != "loc" or x[2][0] == "c":
            return None
        loc = x[1]
        out = []
        al = ("v", loc[1])
        if fn.insts[loc[1]].op != "alloca":
            return None
        for i in fn.all_insts():
            if i.op == "store" and self.S.root(fn, i.args[1]) is fn.insts[loc[1]]:
                t = self.S.expr(fn, i.args[0])
                if t[0] != "str":
                    return None
                out.append(t)
            if i.op == "call" and i.callee and self.p.q(i.callee) == "std::basic_string::basic_string" and i.args and self.S.root(fn, i.args[0]) is fn.insts[loc[1]]:
                t = self.S.expr(fn, i.args[1]) if len(i.args) > 1 else ("?",)
                if t[0] == "str":
                    out.append(t)
            if i.op == "call" and i.callee and i.callee.startswith("llvm.memcpy") and self.S.root(fn, i.args[0]) is fn.insts[loc[1]]:
                g = i.args[1]
                got = self.const_array(g)
                if got is None:
                    return None
                out += [("str", t) for t in got]
        return out or None

    def const_array(self, g):
        if g[0] != "g":
            return None
        d = self.p.globals.get(g[1], {})
        v = d.get("init")
        if not isinstance(v, list):
            return None
        r = []
        for x in v:
            s = self.p.cstring(tuple(x)) if isinstance(x, list) else None
            if s is None:
                return None
            r.append(s)
        return r

    # ---- effect of one instruction on the key set of map M (an address expression)
    def effect(self, fn, i, M):
        """(survivors: None when every key stays, else the keys that stay; generated keys)"""
        if i.op != "call" or not i.callee:
            return (None, ())
        hit = [n for n, a in enumerate(i.args) if self.S.expr(fn, a) == M]
        q = self.p.q(i.callee)
        last = q.split("::")[-1]
        if q.startswith("std::"):
            if not hit:
                return (None, ())
            n = hit[0]
            if inst_map(q):
                first = 1 if i.d.get("sret") else 0
                if n == first:
                    if last in DROP:
                        return (frozenset(), ())
                    if last in ("operator=", "map") and len(i.args) > first + 1:
                        g = self.source_keys(fn, i.args[first + 1], i)
                        return (frozenset(g), g)
                    if last == "map":
                        return (frozenset(), ())
                    if last in INSERT:
                        if last == "insert":
                            k = self.pairkey(fn, i.args[first + 1])
                        else:
                            k = self.key(fn, i.args[first + 1 + (1 if last == "emplace_hint" else 0)])
                        if k is None:
                            return (None, ())
                        ls = self.literals(fn, k)
                        if ls:
                            return (None, ("lits",) + tuple(ls))
                        return (None, (k,))
                return (None, ())
            if last == "swap":
                return (frozenset(), ())
            return (None, ())
        sv, gen = None, ()
        for f, m in self.relative(fn, i, M):
            if not self.touches(f, m):
                continue
            if i.d.get("sret") and self.S.expr(fn, i.args[0]) == M and m == ("arg", 0):
                g = self.mapargs(fn, i, f, self.ensured(f, m))
                return (frozenset(g), g)
            s = self.survive(f, m)
            if s is not None:
                s = frozenset(self.mapargs(fn, i, f, s))
                sv = s if sv is None else sv & s
            gen += self.mapargs(fn, i, f, self.ensured(f, m))
        return (sv, gen)

    def source_keys(self, fn, op, at):
        e = self.S.expr(fn, op)
        r = self.must(fn, e, at)
        return tuple(r) if r else ()

    def mapargs(self, fn, i, f, ks):
        out = []
        args = [self.canon(fn, self.S.expr(fn, a)) for a in i.args]
        for k in ks or ():
            r = subst(k, f, args)
            if r is not None:
                out.append(r)
        return tuple(out)

    def relative(self, fn, i, M):
        """(callee, the map as the callee sees it) for every argument through which a project function gets at the map"""
        f = self.p.fns.get(i.callee)
        out = []
        if f is None:
            return out
        for n, a in enumerate(i.args):
            e = self.S.expr(fn, a)
            if e == M:
                out.append((f, argref(f, n)))
            elif M[0] == "fld" and e == M[1]:
                out.append((f, ("fld", argref(f, n), M[2])))
        return out

    def touches(self, f, M, depth=0):
        return self.tabled(("touch", f.name, M), False, lambda: self._touches(f, M, depth))

    def _touches(self, f, M, depth=0):
        r = False
        for i in f.all_insts():
            if i.op == "call" and i.callee:
                if any(self.S.expr(f, a) == M for a in i.args):
                    r = True
                elif depth < 6 and any(self.touches(g, m, depth + 1) for g, m in self.relative(f, i, M) if g is not f):
                    r = True
                if r:
                    break
        return r

    def survive(self, f, M):
        return self.tabled(("sv", f.name, M), frozenset(), lambda: self._survive(f, M))

    def _survive(self, f, M):
        """keys of the map M (an expression over the arguments) that are still in it when f returns if they were when it was called; None: all of them"""
        sol = self.solve(f, M, True)
        r = None
        for b in f.blocks:
            t = b[-1]
            if t.op == "ret" and t.blk in sol:
                r = meet(r, self.flow(f, M, sol[t.blk], t))
        return None if r is None else frozenset(x for x in r if closed(x))

    def ensured(self, f, M, pol=None):
        return self.tabled(("ens", f.name, M, pol), frozenset(), lambda: self._ensured(f, M, pol))

    def _ensured(self, f, M, pol=None):
        """keys that the map M (an expression over the arguments) certainly holds when f returns (with result pol)"""
        r = None
        for b in f.blocks:
            t = b[-1]
            if t.op != "ret":
                continue
            if pol is not None and t.args:
                for keys in self.ret_sets(f, t, M, pol):
                    r = keys if r is None else r & keys
            else:
                keys = self.must(f, M, t)
                if keys is not TOP:
                    r = keys if r is None else r & keys
        r = frozenset(x for x in (r or ()) if closed(x))
        return r

    def ret_sets(self, f, t, M, pol):
        v = t.args[0]
        out = []
        seen = set()

        def go(v, blk, at, depth):
            while v[0] == "v" and f.insts[v[1]].op in ("zext", "sext", "trunc"):
                v = f.insts[v[1]].args[0]
            if v[0] == "undef" or (v, blk) in seen:
                return
            seen.add((v, blk))
            if v[0] == "c":
                seen.discard((v, blk))
                if bool(v[1]) == pol:
                    x = self.must(f, M, at)
                    if x is not TOP:
                        out.append(x)
                return
            if v[0] == "v" and f.insts[v[1]].op == "phi" and depth < 8 and (f.insts[v[1]].blk == blk or self.kept_from(f, f.insts[v[1]].blk, M)):
                for w, pb in f.insts[v[1]].args:
                    go(w, pb, f.blocks[pb][-1], depth + 1)
                return
            x = self.must(f, M, at)
            if x is not TOP:
                out.append(x | self.cond_keys(f, v, pol, M))
        go(v, t.blk, t, 0)
        return out

    def kept_from(self, f, b, M):
        """nothing from block b on removes keys from M"""
        return self.tabled(("kept", f.name, b, M), False, lambda: all(self.effect(f, i, M)[0] is None for x in f.reach(b) for i in f.blocks[x]))

    def cond_keys(self, fn, c, pol, M):
        """keys known to be in M when the condition has the given outcome"""
        out = set()
        fs = set()
        self.S.imply(fn, c, pol, fs, 0)
        for x in fs:
            if x[0] == "true" and x[1][0] == "has" and x[1][1] == M:
                out.add(self.canon(fn, x[1][2]))
        self.call_keys(fn, c, pol, M, out, 0)
        return out

    def call_keys(self, fn, c, pol, M, out, depth):
        if depth > 8 or c[0] != "v":
            return
        i = fn.insts[c[1]]
        if i.op in ("trunc", "zext", "sext", "freeze"):
            return self.call_keys(fn, i.args[0], pol, M, out, depth + 1)
        if i.op == "xor" and i.args[1][0] == "c":
            return self.call_keys(fn, i.args[0], not pol, M, out, depth + 1)
        if i.op == "and" and pol or i.op == "or" and not pol:
            for a in i.args:
                self.call_keys(fn, a, pol, M, out, depth + 1)
            return
        if i.op == "phi":
            g = (fn.name, i.id, pol, M)
            if g in self.busy:
                return
            self.busy.add(g)
            sets = []
            for v, b in i.args:
                if v[0] == "c" and bool(v[1]) != pol:
                    continue
                s = set()
                if v[0] != "c":
                    self.call_keys(fn, v, pol, M, s, depth + 1)
                x = self.must(fn, M, fn.blocks[b][-1])
                s |= set(x or ())
                # conditions on the way into the phi
                for e in fn.cond_edges(b):
                    if e[0] == i.blk and e[1][0] != "case" and sum(1 for y in fn.cond_edges(b) if y[0] == i.blk) == 1:
                        s |= self.cond_keys(fn, e[1], e[2], M) if depth < 4 else set()
                sets.append(s)
            self.busy.discard(g)
            if sets:
                out |= set.intersection(*sets)
            return
        if i.op == "call" and i.callee in self.p.fns:
            for f, m in self.relative(fn, i, M):
                out |= set(self.mapargs(fn, i, f, self.ensured(f, m, pol)))

    def must(self, fn, M, at):
        """keys certainly in map M just before instruction at; None when unreachable"""
        sol = self.solve(fn, M)
        if at.blk not in sol:
            return TOP
        return self.flow(fn, M, sol[at.blk], at)

    def flow(self, fn, M, cur, at):
        for i in fn.blocks[at.blk]:
            if i is at:
                break
            cur = self.apply(fn, i, M, cur)
        return cur

    def apply(self, fn, i, M, cur):
        """cur: set of keys, None for all keys"""
        sv, gen = self.effect(fn, i, M)
        if sv is not None:
            cur = frozenset(sv) if cur is None else cur & frozenset(sv)
        if gen and gen[0] != "lits" and cur is not None:
            cur = cur | frozenset(gen)
        return cur

    def solve(self, fn, M, every=False):
        return self.tabled(("sol", fn.name, M, every), {0: frozenset()}, lambda: self._solve(fn, M, every))

    def _solve(self, fn, M, every):
        lits = []
        for i in fn.all_insts():
            if i.op == "call":
                kill, gen = self.effect(fn, i, M)
                if gen and gen[0] == "lits":
                    lits.append((i, gen[1:]))
        inn = {0: None if every else frozenset()}
        loops = fn.natural_loops()
        work = [0]
        it = 0
        while work and it < 20000:
            it += 1
            b = work.pop()
            cur = inn[b]
            for i in fn.blocks[b]:
                cur = self.apply(fn, i, M, cur)
            ce = fn.cond_edges(b)
            for s in fn.succ(b):
                out = cur
                if out is not None:
                    es = [e for e in ce if e[0] == s]
                    if len(es) == 1 and len(ce) > 1 and es[0][1][0] != "case" and it < 4000:
                        out = out | self.cond_keys_light(fn, es[0][1], es[0][2], M)
                    # leaving a loop that inserts every name of a constant table
                    for h, body in loops.items():
                        if b in body and s not in body:
                            for i, ls in lits:
                                if i.blk in body and all(fn.dominates(i.blk, l) for l in fn.pred(h) if l in body) and full(self, fn, h, body, len(ls)):
                                    out = out | frozenset(ls)
                n = meet(inn[s], out) if s in inn else out
                if s not in inn or n != inn[s]:
                    inn[s] = n
                    work.append(s)
        if work:
            return {0: frozenset()}
        return inn

    def cond_keys_light(self, fn, c, pol, M):
        return self.tabled(("ck", fn.name, c, pol, M), frozenset(), lambda: frozenset(self.cond_keys(fn, c, pol, M)))


def bare(x):
    """an integer key whatever conversions it went through (no map here has a floating-point key)"""
    while x[0] in ("i2f", "f2i", "f2f") and isinstance(x[1], tuple):
        x = x[1]
    return x


def meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a & b


def full(K, fn, h, body, n):
    """the loop is left only after n rounds: its counter is followed from its first value"""
    for b in body:
        for e in fn.cond_edges(b):
            if e[0] in body:
                continue
            if e[1][0] != "v":
                return False
            i = fn.insts[e[1][1]]
            if i.op == "call":
                continue
            if i.op != "icmp":
                return False
            r = rounds(fn, h, body, i, e[2])
            if r is not None and r < n:
                return False
            if r is None and any(a[0] == "c" for a in i.args):
                return False
    return True


CMP = {"slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
       "ult": lambda a, b: a < b, "ule": lambda a, b: a <= b, "ugt": lambda a, b: a > b, "uge": lambda a, b: a >= b,
       "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def rounds(fn, h, body, cmp, leave):
    """number of rounds before the comparison of a header counter with a constant has the given outcome"""
    def strip(v):
        while v[0] == "v" and fn.insts[v[1]].op in ("zext", "sext", "trunc"):
            v = fn.insts[v[1]].args[0]
        return v
    a, b = strip(cmp.args[0]), strip(cmp.args[1])
    if b[0] != "c" or a[0] != "v" or fn.insts[a[1]].op != "phi" or fn.insts[a[1]].blk != h:
        return None
    ph = fn.insts[a[1]]
    start = step = None
    for v, pb in ph.args:
        if pb in body:
            s = fn.insts[v[1]] if v[0] == "v" else None
            if s is None or s.op not in ("add", "sub") or s.args[0] != a or s.args[1][0] != "c":
                return None
            step = s.args[1][1] if s.op == "add" else -s.args[1][1]
        elif v[0] == "c":
            start = v[1]
    if start is None or step is None:
        return None
    x, n = start, 0
    while n < 1000 and bool(CMP[cmp.d["p"]](x, b[1])) != leave:
        x += step
        n += 1
    return n


def argref(f, n):
    return ("this",) if f.this == ("a", n) else ("arg", n)


def closed(e):
    """expression over arguments and constants only"""
    if not isinstance(e, tuple):
        return True
    if e and e[0] in ("phi", "loc", "icall", "op", "opq", "deep", "lits"):
        return False
    return all(closed(x) for x in e[1:])
