"""Path-disjunctive walks over a function: states are explored separately, with the conditions already decided on the way remembered
(constants merged by phis, earlier outcomes of the same test, null tests), so that contradictory continuations are not followed."""

NN = "nonnull"
MB = "maybe null"  # the tracked value itself, not yet tested


class Walker:
    def __init__(self, fn, limit=60000, keep=None):
        self.fn = fn
        self.keep = keep  # values worth remembering, if not all are
        self.limit = limit
        self._rel = {}
        self._live = {}
        self.overflow = False

    # ---- which values are worth remembering
    def relevant(self, op):
        r = self._rel.get(op)
        if r is None:
            r = False
            fn = self.fn
            n = 0
            for u in fn.uses().get(op, []):
                if u.op in ("icmp", "br", "switch", "select", "xor", "trunc", "zext", "phi", "and", "or"):
                    n += 1
                if u.op in ("phi", "select"):
                    n += 1
            i = fn.insts.get(op[1]) if op[0] == "v" else None
            r = n > 1 or n == 1 and i is not None and i.op == "phi" or n == 1 and op[0] == "a"
            self._rel[op] = r
        return r

    def live(self, op, b):
        """some use of the value can be reached from the start of block b before the value is defined anew"""
        L = self._live.get(op)
        if L is None:
            fn = self.fn
            L = set()
            d = fn.insts[op[1]].blk if op[0] == "v" else -1
            work = []
            todo = [op]
            n = 0
            while todo and n < 60:
                o = todo.pop()
                n += 1
                for u in fn.uses().get(o, []):
                    if u.op == "phi":
                        work.extend(pb for v, pb in u.args if v == o)  # live out of pb
                    elif u.blk != d:
                        work.append(u.blk)
                    if u.op in ("xor", "trunc", "zext", "sext", "icmp", "bitcast", "freeze", "select", "getelementptr", "and", "or"):
                        todo.append(("v", u.id))  # val() looks through these
            while work:
                x = work.pop()
                if x in L or x == d:
                    continue
                L.add(x)
                work.extend(fn.pred(x))
            self._live[op] = L
        return b in L

    # ---- evaluation under the remembered values
    def val(self, op, env, depth=0):
        t = op[0]
        if t == "c":
            return op[1]
        if t == "null":
            return 0
        if t in ("g", "cg", "fn"):
            return NN
        if t == "a":
            return env.get(op)
        if t != "v":
            return None
        if op in env:
            return env[op]
        if depth > 8:
            return None
        i = self.fn.insts[op[1]]
        o = i.op
        if o in ("trunc", "zext", "sext", "freeze", "bitcast"):
            v = self.val(i.args[0], env, depth + 1)
            if o == "trunc" and isinstance(v, int) and i.ty == "i1":
                return v & 1
            return v
        if o == "xor":
            a, b = self.val(i.args[0], env, depth + 1), self.val(i.args[1], env, depth + 1)
            if isinstance(a, int) and isinstance(b, int):
                return (1 - (a & 1)) if i.ty == "i1" and b in (1, -1) else a ^ b
            return None
        if o == "icmp":
            a, b = self.val(i.args[0], env, depth + 1), self.val(i.args[1], env, depth + 1)
            return icmp(i.d["p"], a, b)
        if o == "select":
            c = self.val(i.args[0], env, depth + 1)
            if isinstance(c, int):
                return self.val(i.args[1] if c & 1 else i.args[2], env, depth + 1)
            a, b = self.val(i.args[1], env, depth + 1), self.val(i.args[2], env, depth + 1)
            return a if a == b else None
        if o == "alloca":
            return NN
        if o == "getelementptr":
            v = self.val(i.args[0], env, depth + 1)
            return NN if v == NN else None
        if o in ("and", "or"):
            a, b = self.val(i.args[0], env, depth + 1), self.val(i.args[1], env, depth + 1)
            if isinstance(a, int) and isinstance(b, int):
                return a & b if o == "and" else a | b
            if o == "and" and (a == 0 or b == 0):
                return 0
        return None

    def learn(self, op, pol, env, depth=0):
        """remember what a branch condition says"""
        if op[0] != "v" or depth > 6:
            if op[0] == "a":
                env[op] = 1 if pol else 0
            return
        i = self.fn.insts[op[1]]
        if self.relevant(op):
            env[op] = 1 if pol else 0
        if i.op == "xor" and i.args[1][0] == "c":
            self.learn(i.args[0], not pol, env, depth + 1)
        elif i.op in ("trunc", "zext", "freeze"):
            self.learn(i.args[0], pol, env, depth + 1)
        elif i.op == "icmp":
            a, b = i.args
            if a[0] in ("c", "null"):
                a, b = b, a
            if b[0] in ("c", "null"):
                k = b[1] if b[0] == "c" else 0
                eq = i.d["p"] == "eq" and pol or i.d["p"] == "ne" and not pol
                ne = i.d["p"] == "ne" and pol or i.d["p"] == "eq" and not pol
                if eq:
                    self.setval(a, k, env, depth)
                elif ne and k == 0:
                    self.setval(a, NN, env, depth)

    def setval(self, op, v, env, depth=0):
        if v == NN and isinstance(self.val(op, env), int):
            return  # known more precisely
        if op[0] == "a":
            env[op] = v
            return
        if op[0] != "v":
            return
        env[op] = v
        i = self.fn.insts[op[1]]
        if i.op in ("bitcast", "zext", "sext") and depth < 6:
            self.setval(i.args[0], v, env, depth + 1)

    def flow(self, b, s, env):
        """environment on entering s from b"""
        fn = self.fn
        new = {}
        defs = [i for i in fn.blocks[s] if i.op == "phi"]
        for i in defs:
            for v, pb in i.args:
                if pb == b:
                    x = self.val(v, env)
                    if x is not None:
                        new[("v", i.id)] = x
        out = {}
        here = set(("v", i.id) for i in fn.blocks[s])
        for k, v in env.items():
            if k in here:
                continue
            if self.live(k, s):
                out[k] = v
        out.update(new)
        if self.keep is not None:
            out = dict((k, v) for k, v in out.items() if k in self.keep)
        return out

    def run(self, starts, step, edge=None):
        """starts: [(block, index, env dict, state)]; step(inst, state, env, walker) -> iterable of (state, env changes or None) or None to stop;
        edge(b, s, state, env) -> state or None"""
        fn = self.fn
        seen = set()
        work = [(b, k, dict(env), st, None) for b, k, env, st in starts]
        n = 0
        while work:
            b, k, env, st, _ = work.pop()
            n += 1
            if n > self.limit:
                self.overflow = True
                return
            cont = [(k, env, st)]
            blk = fn.blocks[b]
            while cont:
                k, env, st = cont.pop()
                stop = False
                while k < len(blk):
                    i = blk[k]
                    if i.op == "phi":
                        k += 1
                        continue
                    r = step(i, st, env, self)
                    if r is None:
                        stop = True
                        break
                    r = list(r)
                    k += 1
                    if not r:
                        stop = True
                        break
                    for st2, ch in r[1:]:
                        e2 = dict(env)
                        if ch:
                            e2.update(ch)
                        cont.append((k, e2, st2))
                    st, ch = r[0]
                    if ch:
                        env = dict(env)
                        env.update(ch)
                if stop:
                    continue
                for s, c, pol in self.succs(b, env):
                    e2 = dict(env)
                    if c is not None:
                        if c[0] == "case":
                            if c[2] is not None and len(c[2]) == 1:
                                self.setval(c[1], list(c[2])[0], e2)
                        else:
                            self.learn(c, pol, e2)
                    st2 = st if edge is None else edge(b, s, st, e2)
                    if st2 is None:
                        continue
                    e2 = self.flow(b, s, e2)
                    key = (s, frozenset(e2.items()), st2)
                    if key in seen:
                        continue
                    seen.add(key)
                    work.append((s, 0, e2, st2, b))

    def succs(self, b, env):
        fn = self.fn
        out = []
        ce = fn.cond_edges(b)
        if not ce:
            return [(s, None, None) for s in fn.succ(b)]
        for e in ce:
            s, c, pol = e[0], e[1], e[2] if len(e) > 2 else None
            if c is None:
                out.append((s, None, None))
                continue
            if c[0] == "case":
                v = self.val(c[1], env)
                if isinstance(v, int):
                    if c[2] is not None and v not in c[2]:
                        continue
                    if c[2] is None and v in c[3]:
                        continue
                out.append((s, c, pol))
                continue
            v = self.val(c, env)
            if isinstance(v, int) and bool(v & 1) != pol:
                continue
            out.append((s, c, pol))
        done = set(x[0] for x in out)
        return out


def icmp(p, a, b):
    if a is None or b is None or a == MB or b == MB or isinstance(a, tuple) or isinstance(b, tuple):
        return None
    if a == NN or b == NN:
        o = b if a == NN else a
        if o == 0 and a != b:
            if p == "eq":
                return 0
            if p == "ne":
                return 1
        return None
    f = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}
    if p in f:
        return int(f[p])
    if a >= 0 and b >= 0:
        return int({"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[p])
    return None
