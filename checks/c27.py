"""C27: every loop and every recursion comes to an end."""
import re
from paths import Walker
from poly import Poly, add
from sym import show, contains

TECH = "ranking of every natural loop: the condition that keeps the loop running is rewritten to 'distance >= 0' and the distance has to shrink on every cyclic path (counters, pointers, bisections), or its iterator, reader or container has to advance on every cyclic path; recursive calls need an exit and changed arguments"
NOTE = "A loop whose only exits are decided by something the analysis has no ranking for is counted as unjudged. Library calls are taken to return; directory trees and files are taken to be finite."

INF = 10 ** 9
# reader calls: what their result looks like while there is more
READERS = {"readdir": "nonnull", "mongoc_gridfs_file_list_next": "nonnull", "mongoc_cursor_next": "true", "bson_iter_next": "true", "fgets": "nonnull", "getline": "stream",
           "operator>>": "stream", "fread": "positive", "read": "positive", "fgetc": "noteof", "getc": "noteof", "strtok": "nonnull", "strtok_r": "nonnull",
           "mongoc_gridfs_file_readv": "positive", "mongoc_stream_read": "positive", "get": "stream", "recv": "positive", "fscanf": "positive", "ignore": "stream"}
RESTART = {"rewinddir", "seekdir", "rewind", "fseek", "bson_iter_init", "bson_iter_init_find", "seekg", "clear", "str"}
STATE = {"operator bool", "operator!", "fail", "good", "eof", "bad"}
GROW = {"push_back", "insert", "emplace", "emplace_back", "push_front", "resize", "append", "operator+=", "push"}
SHRINK = {"pop_back", "pop_front", "erase", "clear", "pop", "remove"}
NEG = {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "eq": "ne", "ne": "eq"}
CASTS = ("sext", "zext", "trunc", "freeze", "bitcast")


class Loops:
    def __init__(self, p, S, E):
        self.p, self.S, self.E = p, S, E
        self.P = Poly()
        self.adv = {}

    # ---- how a value changes in one pass
    def delta(self, f, body, h, op, phi):
        """(lowest, highest) difference of op to the header phi in one pass; None when it is not that cursor"""
        lo, hi = {}, {}

        def step(a):
            """(node or None, difference interval) of an operand: node stands for another phi of the body"""
            c0 = c1 = 0
            n = 0
            while n < 40:
                n += 1
                if a[0] != "v":
                    return ("const", c0, c1)
                i = f.insts[a[1]]
                if i.id == phi:
                    return ("base", c0, c1)
                if i.blk not in body:
                    return ("const", c0, c1)
                if i.op in CASTS:
                    a = i.args[0]
                    continue
                if i.op in ("add", "sub"):
                    x, y = i.args
                    if i.op == "add" and x[0] == "c":
                        x, y = y, x
                    if y[0] == "c":
                        k = y[1] if i.op == "add" else -y[1]
                        if k > 2 ** 62:
                            k -= 2 ** 64
                        c0 += k
                        c1 += k
                        a = x
                        continue
                    r = self.sign(f, i, y)
                    rx = self.sign(f, i, x) if i.op == "add" else None
                    if i.op == "add" and rx is not None and self.reaches(f, body, y, phi):
                        x, y, r = y, x, rx
                    if r is None or not self.reaches(f, body, x, phi):
                        return ("other", 0, 0)
                    if i.op == "add":
                        c0 += r
                        c1 = INF
                    else:
                        c1 -= r
                        c0 = -INF
                    a = x
                    continue
                if i.op == "getelementptr" and i.d.get("path") and len(i.d["path"]) == 1 and i.d["path"][0][0] == "x":
                    ix = i.d["path"][0][1]
                    ix = tuple(ix)
                    if ix[0] == "c":
                        k = ix[1] - 2 ** 64 if ix[1] > 2 ** 62 else ix[1]
                        c0 += k
                        c1 += k
                        a = i.args[0]
                        continue
                    r = self.sign(f, i, ix)
                    if r is None:
                        return ("other", 0, 0)
                    c0 += r
                    c1 = INF
                    a = i.args[0]
                    continue
                if i.op == "phi":
                    return (i.id, c0, c1)
                if i.op == "call":
                    w = self.p.q(i.callee).split("::")[-1] if i.callee else ""
                    if w in ("find", "find_first_of", "find_first_not_of") and len(i.args) >= 3:
                        c1 = INF
                        a = i.args[2]
                        continue
                    if w in ("max", "min"):
                        return ("other", 0, 0)
                return ("other", 0, 0)
            return ("other", 0, 0)

        nodes = {}

        def collect(a):
            s = step(a)
            if s[0] in ("other", "const"):
                return s
            if s[0] != "base" and s[0] not in nodes:
                nodes[s[0]] = None
                nodes[s[0]] = [collect(v) for v, b in f.insts[s[0]].args]
            return s

        top = collect(op)
        if top[0] in ("other", "const"):
            return None
        for n, ins in nodes.items():
            if any(s[0] in ("other", "const") for s in ins):
                return None
            lo[n], hi[n] = INF, -INF
        for r in range(len(nodes) + 2):
            ch = False
            for n, ins in nodes.items():
                l = min((0 if s[0] == "base" else lo[s[0]]) + s[1] for s in ins)
                u = max((0 if s[0] == "base" else hi[s[0]]) + s[2] for s in ins)
                l, u = (INF if l > INF // 2 else l), (-INF if u < -INF // 2 else u)
                if l < lo[n]:
                    lo[n], ch = l, True
                if u > hi[n]:
                    hi[n], ch = u, True
            if not ch:
                break
        else:
            for n in nodes:   # an inner loop keeps moving it
                if any(s[0] not in ("base",) and lo[s[0]] + s[1] < lo[n] for s in nodes[n]):
                    lo[n] = -INF
                hi[n] = INF
        b0, b1 = (0, 0) if top[0] == "base" else (lo[top[0]], hi[top[0]])
        return (max(-INF, b0 + top[1]), min(INF, b1 + top[2]))

    def reaches(self, f, body, op, phi, seen=None):
        seen = seen if seen is not None else set()
        if op[0] != "v" or op in seen:
            return False
        seen.add(op)
        i = f.insts[op[1]]
        if i.id == phi:
            return True
        if i.blk not in body:
            return False
        if i.op == "phi":
            return any(self.reaches(f, body, v, phi, seen) for v, b in i.args)
        if i.op in ("add", "sub", "getelementptr") or i.op in CASTS:
            return any(self.reaches(f, body, a, phi, seen) for a in i.args)
        return False

    def sign(self, f, inst, op):
        """1 when op is known to be positive at inst, 0 when known not to be negative, else None"""
        n = 0
        while op[0] == "v" and f.insts[op[1]].op in CASTS and n < 6:
            if f.insts[op[1]].op == "zext":
                base = 0
            op = f.insts[op[1]].args[0]
            n += 1
        if op[0] == "c":
            return 1 if op[1] > 0 else 0 if op[1] == 0 else None
        e = self.S.expr(f, op)
        for k in (1, 0):
            for x in self.S.facts(f, inst.blk):
                if len(x) == 3 and x[1] == e and x[2][0] == "c":
                    c = x[2][1]
                    if x[0] in ("sgt", "ugt") and c >= k - 1 or x[0] in ("sge", "uge") and c >= k or k == 1 and x[0] == "ne" and c == 0 and self.unsigned(e):
                        return k
        if self.unsigned(e):
            if e[0] == "call" and e[1].split("::")[-1] in ("size", "length", "strlen") and len(e) > 2:
                return 1    # a step by the length of a separator
            return 0
        return None

    def unsigned(self, e):
        return e[0] == "call" and e[1].split("::")[-1] in ("size", "length", "count", "strlen", "capacity")

    # ---- atoms
    def header_of(self, f, body, h, pid, seen=None):
        """header phi that a phi of the body is derived from by constant steps"""
        seen = seen if seen is not None else set()
        if pid in seen:
            return set()
        seen.add(pid)
        i = f.insts[pid]
        if i.blk == h:
            return {pid}
        out = set()
        for v, b in i.args:
            n = 0
            while v[0] == "v" and n < 20:
                j = f.insts[v[1]]
                if j.op in CASTS or j.op in ("add", "sub", "getelementptr"):
                    ops = [a for a in j.args if a[0] == "v"]
                    if not ops:
                        break
                    v = ops[0]
                    n += 1
                    continue
                break
            if v[0] == "v" and f.insts[v[1]].op == "phi" and f.insts[v[1]].blk in body:
                out |= self.header_of(f, body, h, v[1], seen)
            else:
                out.add(None)
        return out

    def phis(self, e, out):
        if isinstance(e, tuple):
            if len(e) > 2 and e[0] == "phi" and isinstance(e[1], int):
                out.add(e[1])
                return out
            for x in e:
                self.phis(x, out)
        return out

    def latches(self, f, h, body):
        return [b for b in f.pred(h) if b in body]

    def always(self, f, h, body, b):
        return all(f.dominates(b, l) for l in self.latches(f, h, body))

    # ---- must-advance over the body
    def must(self, f, h, body, good):
        """every cyclic path passes an instruction that good() accepts"""
        blocks = {b: any(good(i) for i in f.blocks[b]) for b in body}
        seen, work, ok = set(), [h], True
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            if blocks[b]:
                continue
            for s in f.succ(b):
                if s == h:
                    ok = False
                if s in body:
                    work.append(s)
        if ok:
            return True
        # the same along paths whose conditions fit together
        bad = []

        def step(i, st, env, w):
            return None if i.blk in blocks and blocks[i.blk] and good(i) else [(st, None)]

        def edge(b, s, st, env):
            if s == h:
                # a pass without progress may set what ends the loop at the start of the next one
                if st:
                    bad.append(b)
                    return None
                return 1
            return st if s in body else None
        w = Walker(f, limit=20000)
        w.run([(h, 0, {}, 0)], step, edge)
        return not bad and not w.overflow

    def slot(self, f, op):
        n = 0
        while op[0] == "v" and n < 8:
            i = f.insts[op[1]]
            if i.op == "alloca":
                return ("loc", i.id)
            if i.op in ("getelementptr", "bitcast"):
                op = i.args[0]
            elif i.op == "load" and i.ty == "ptr":
                k = self.slot(f, i.args[0])
                return ("in", k) if k else None
            else:
                return None
            n += 1
        return ("arg", op[1]) if op[0] == "a" else None

    def moves(self, f, i, it, way):
        """the instruction moves the iterator kept at `it` on"""
        if i.op == "call" and i.callee:
            q = self.p.q(i.callee)
            w = q.split("::")[-1]
            if w in ("operator++", "advance", "operator+=") and i.args and any(self.slot(f, a) == it for a in i.args[:2]):
                return way >= 0 or "reverse" in self.p.dem(i.callee)
            if w in ("operator--", "operator-=") and i.args and any(self.slot(f, a) == it for a in i.args[:2]):
                return way <= 0
            if w == "operator=" and len(i.args) > 1 and self.slot(f, i.args[0]) == it:
                return self.fresh(f, i.args[1])
            if i.callee in self.p.fns and not q.startswith("std::"):
                g = self.p.fns[i.callee]
                for k, a in enumerate(i.args):
                    if self.slot(f, a) == it and self.callee_moves(g, k, way):
                        return True
            if i.callee.startswith("llvm.memcpy") and self.slot(f, i.args[0]) == it:
                return self.fresh(f, i.args[1])
        if i.op == "store" and self.slot(f, i.args[1]) == it:
            return self.fresh(f, i.args[0])
        return False

    def callee_moves(self, g, k, way):
        key = (g.name, k, way)
        if key not in self.adv:
            self.adv[key] = False
            good = lambda i: self.moves(g, i, ("arg", k), way)
            blocks = {b: any(good(i) for i in g.blocks[b]) for b in range(len(g.blocks))}
            seen, work, ok = set(), [0], True
            while work:
                b = work.pop()
                if b in seen or blocks[b]:
                    continue
                seen.add(b)
                if not g.succ(b):
                    ok = ok and g.blocks[b][-1].op == "unreachable"
                work += g.succ(b)
            self.adv[key] = ok
        return self.adv[key]

    def fresh(self, f, op, n=0):
        """the value comes from erase(), next() or the like: one element less is left"""
        if n > 8 or op[0] != "v":
            return False
        i = f.insts[op[1]]
        if i.op == "call" and i.callee:
            w = self.p.q(i.callee).split("::")[-1]
            if w in ("erase", "next", "operator++", "operator+", "upper_bound", "prev"):
                return True
            return any(self.fresh(f, a, n + 1) for a in i.args) if w in ("move", "forward", "__normal_iterator", "_Rb_tree_const_iterator", "_Rb_tree_iterator") else False
        if i.op in CASTS or i.op in ("getelementptr", "load"):
            return self.fresh(f, i.args[0], n + 1)
        if i.op == "phi":
            return all(self.fresh(f, v, n + 1) for v, b in i.args)
        if i.op == "alloca":
            for u in f.uses()[op]:
                if u.op == "store" and u.args[1] == op and self.fresh(f, u.args[0], n + 1):
                    return True
                if u.op == "call" and u.callee and u.args and u.args[0] == op and (u.d.get("sret") or self.p.q(u.callee).split("::")[-1] in ("__normal_iterator", "_Rb_tree_const_iterator")):
                    if self.p.q(u.callee).split("::")[-1] in ("erase", "next", "operator++", "operator+", "upper_bound"):
                        return True
                    if len(u.args) > 1 and self.fresh(f, u.args[1], n + 1):
                        return True
                if u.op == "getelementptr":
                    for v in f.uses()[("v", u.id)]:
                        if v.op == "store" and v.args[1] == ("v", u.id) and self.fresh(f, v.args[0], n + 1):
                            return True
        return False

    # ---- calls behind a condition
    def calls(self, f, body, h, op, seen=None):
        """calls of the body whose result the condition is computed from, and whether it is only that result of the last pass"""
        seen = seen if seen is not None else set()
        if op[0] != "v" or op in seen:
            return []
        seen.add(op)
        i = f.insts[op[1]]
        if i.op == "phi":
            out = []
            for v, b in i.args:
                if i.blk == h and b not in body:
                    continue
                out += self.calls(f, body, h, v, seen)
            return out
        if i.blk not in body:
            return []
        if i.op == "call":
            q = self.p.q(i.callee) if i.callee else ""
            w = q.split("::")[-1]
            if w in STATE or w in ("operator!=", "operator==", "operator*", "operator[]"):
                out = [i]
                for a in i.args:
                    out += self.calls(f, body, h, a, seen)
                return out
            return [i]
        if i.op == "load":
            s = self.slot(f, i.args[0])
            out = self.calls(f, body, h, i.args[0], seen)
            if s and s[0] == "loc":
                for j in f.uses()[("v", s[1])]:
                    if j.op == "store" and j.args[1] == ("v", s[1]) and j.blk in body:
                        out += self.calls(f, body, h, j.args[0], seen)
            return out
        out = []
        for a in i.args:
            if isinstance(a, tuple) and a and a[0] == "v":
                out += self.calls(f, body, h, a, seen)
        return out

    def reader(self, callee, depth=0, seen=None):
        """kind of reader a call is, also through own helpers"""
        if not callee:
            return None
        q = self.p.q(callee)
        w = q.split("::")[-1]
        if w in READERS and (callee not in self.p.fns or q.startswith("std::")):
            if w in ("get", "ignore", "read") and not re.search(r"istream|^read$", q):
                return None
            return READERS[w]
        if callee in self.p.fns and depth < 3 and not q.startswith("std::"):
            for i in self.p.fns[callee].all_insts():
                if i.op == "call" and i.callee and self.reader(i.callee, depth + 1):
                    return "helper"
        return None

    # ---- one exit
    def judge(self, f, h, body, b, x):
        """('ok'|'stuck'|'aside'|'unknown', text) for the exit edge b -> x"""
        S = self.S
        t = f.blocks[b][-1]
        if t.op != "br" or not t.args or len(t.args) < 3:
            return ("aside", "switch") if t.op == "switch" else ("aside", t.op)
        edges = [e for e in f.cond_edges(b)]
        stay = [e for e in edges if e[0] in body]
        if not stay:
            return ("aside", "both ways leave")
        cond, pol = stay[0][1], stay[0][2]
        atoms = []
        self.atoms(f, h, body, cond, pol, atoms)
        res = []
        for a in atoms:
            res.append(self.atom(f, h, body, b, *a))
        for k in ("ok", "unknown", "stuck", "call"):
            for r in res:
                if r[0] == k:
                    if k == "ok" and not self.always(f, h, body, b):
                        # reached on some passes only: fine when the passes without it make progress elsewhere; not judged
                        return ("unknown", r[1] + " (tested on some passes only)")
                    return r
        return ("aside", show(S.expr(f, cond), f)[:80])

    def atoms(self, f, h, body, c, pol, out, depth=0):
        if depth > 8:
            return
        if c[0] == "v":
            i = f.insts[c[1]]
            if i.op == "icmp":
                a, b = i.args
                if b[0] == "c" and i.d["p"] in ("eq", "ne") and b[1] in (0, 1) and a[0] == "v":
                    j = f.insts[a[1]]
                    if j.op in ("zext", "sext", "trunc") and self.S.width(f, j.args[0]) == 1 or j.ty == "i1" or j.op == "phi" and j.ty == "i8" or j.op in ("zext", "trunc") and j.ty == "i8":
                        self.atoms(f, h, body, j.args[0] if j.op in ("zext", "sext", "trunc") else a, pol if (i.d["p"] == "ne") == (b[1] == 0) else not pol, out, depth + 1)
                        return
                out.append(("cmp", i, i.d["p"] if pol else NEG[i.d["p"]]))
                return
            if i.op in ("xor",) and i.args[1][0] == "c":
                return self.atoms(f, h, body, i.args[0], not pol, out, depth + 1)
            if i.op in ("trunc", "zext", "freeze"):
                return self.atoms(f, h, body, i.args[0], pol, out, depth + 1)
            if i.op == "select":
                if pol and i.args[2][0] == "c" and not i.args[2][1] or not pol and i.args[1][0] == "c" and i.args[1][1]:
                    self.atoms(f, h, body, i.args[0], pol, out, depth + 1)
                    self.atoms(f, h, body, i.args[1] if pol else i.args[2], pol, out, depth + 1)
                return
            if i.op == "and" and pol or i.op == "or" and not pol:
                self.atoms(f, h, body, i.args[0], pol, out, depth + 1)
                self.atoms(f, h, body, i.args[1], pol, out, depth + 1)
                return
            if i.op == "phi" and i.ty in ("i1", "i8"):
                if i.blk == h:
                    out.append(("flag", i, pol))
                ins = [(v, b) for v, b in i.args if not (i.blk == h and b not in body)]
                live = [(v, b) for v, b in ins if not (v[0] == "c" and bool(v[1]) != pol)]
                if len(live) >= 1:
                    sets = []
                    for v, b in live:
                        o = []
                        # conditions of the edge into the merge
                        d = b
                        k = 0
                        while k < 12:
                            for e in f.cond_edges(d):
                                nxt = i.blk if d == b else prev
                                if e[0] == nxt and e[2] in (True, False) and e[1][0] == "v":
                                    self.atoms(f, h, body, e[1], e[2], o, depth + 1)
                            ps = [q for q in f.pred(d)]
                            if len(ps) != 1 or ps[0] not in body or d == h:
                                break
                            prev, d = d, ps[0]
                            k += 1
                        if v[0] == "v" and v != c:
                            self.atoms(f, h, body, v, pol, o, depth + 1)
                        sets.append(o)
                    common = [a for a in sets[0] if all(a in s for s in sets[1:])]
                    out += common
                return
            if i.op == "call":
                out.append(("call", i, pol))
                return
            if i.op == "load":
                out.append(("load", i, pol))
                return

    def atom(self, f, h, body, b, kind, i, p):
        S = self.S
        if kind == "cmp":
            return self.compare(f, h, body, b, i, p)
        if kind == "call":
            q = self.p.q(i.callee) if i.callee else ""
            w = q.split("::")[-1]
            if w in ("operator!=", "operator==") or q.startswith(("operator!=", "operator==")):
                if (w == "operator!=") == p:
                    return self.iterator(f, h, body, i)
                return ("aside", "stays while equal")
            if w == "empty" and not p:
                return self.drain(f, h, body, i)
            r = self.read(f, h, body, b, [i], "true" if p else "false")
            return r or (self.outcome(i), "outcome of " + q)
        if kind == "load":
            cs = self.calls(f, body, h, ("v", i.id))
            r = self.read(f, h, body, b, cs, "true" if p else "false") if cs else None
            return r or ("aside", "flag in memory")
        return ("aside", "")

    def outcome(self, i):
        """a call that decides whether the loop goes on: it may be what moves it on, when it changes something of the caller's"""
        if not i.callee:
            return "unknown"
        q = self.p.q(i.callee)
        if i.callee in self.p.fns and not q.startswith("std::"):
            for root, path in self.E.summary(self.p.fns[i.callee]):
                if root[0] in ("arg", "this", "glob") and "free" not in path and not (root[0] == "glob" and str(root[1]).startswith("_ZSt")):
                    return "unknown"
            return "aside"
        return "call"

    def iterator(self, f, h, body, i):
        if not self.p.q(i.callee).startswith(("std::", "__gnu_cxx::")):
            return ("unknown", "own comparison")
        cands = []
        for a in i.args[-2:]:
            s = self.slot(f, a)
            if s:
                cands.append((s, a))
        if any(re.search(r"basic_string|char const\*", t or "") for t in [self.p.dem(i.callee).split("(")[-1]]) and not re.search(r"iterator", self.p.dem(i.callee)):
            return ("unknown", "text comparison")
        best = None
        for s, a in cands:
            mv = [j for bb in body for j in f.blocks[bb] if self.moves(f, j, s, 0)]
            if not mv:
                continue
            other = [a2 for s2, a2 in cands if s2 != s]
            target = self.origin(f, other[0]) if other else None
            way = -1 if target == "begin" else 1
            if target in ("begin",) and any("reverse" in self.p.dem(j.callee) for j in mv if j.op == "call" and j.callee):
                way = 0
            if not self.must(f, h, body, lambda j: self.moves(f, j, s, way)):
                best = ("stuck", "the iterator is not moved on along every way round the loop")
                continue
            back = [j for bb in body for j in f.blocks[bb] if self.restarts(f, j, s)]
            if back:
                best = ("stuck", "the iterator is set back to the beginning in the loop (line %s)" % back[0].line)
                continue
            if way == 1 and not any(self.reader(j.callee) or self.p.q(j.callee).split("::")[-1] in ("erase", "remove") for bb in body for j in f.blocks[bb] if j.op == "call" and j.callee):
                back = [j for bb in body for j in f.blocks[bb] if j.op == "call" and j.callee and self.p.q(j.callee).split("::")[-1] in ("operator--", "operator-=") and j.args and self.slot(f, j.args[0]) == s]
                if back:
                    best = ("stuck", "the iterator is also moved backwards (line %s)" % back[0].line)
                    continue
            g = self.grows(f, body, self.container(f, other[0]) if other else None)
            if g is not None:
                best = ("stuck", "the container grows in the loop (line %s)" % g.line)
                continue
            return ("ok", "iterator")
        if best:
            return best
        if cands and any(self.typed_iter(f, s) for s, a in cands):
            return ("stuck", "the iterator is never moved on")
        return ("unknown", "comparison")

    def typed_iter(self, f, s):
        return s[0] == "loc" and "iterator" in str(f.insts[s[1]].d.get("at", ""))

    def restarts(self, f, j, s):
        if j.op == "store" and self.slot(f, j.args[1]) == s:
            return self.origin(f, j.args[0]) in ("begin", "rbegin")
        if j.op == "call" and j.callee and self.p.q(j.callee).split("::")[-1] == "operator=" and len(j.args) > 1 and self.slot(f, j.args[0]) == s:
            return self.origin(f, j.args[1]) in ("begin", "rbegin")
        return False

    def origin(self, f, op, n=0):
        """begin / end / ... when the iterator operand is made by that call"""
        c = self.maker(f, op)
        return self.p.q(c.callee).split("::")[-1] if c is not None else None

    def container(self, f, op):
        c = self.maker(f, op)
        if c is None:
            return None
        a = c.args[1] if c.d.get("sret") and len(c.args) > 1 else c.args[0] if c.args else None
        return self.S.expr(f, a) if a else None

    def maker(self, f, op, n=0):
        if n > 8 or op[0] != "v":
            return None
        i = f.insts[op[1]]
        if i.op == "call" and i.callee:
            w = self.p.q(i.callee).split("::")[-1]
            if w in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "find", "lower_bound", "upper_bound"):
                return i
            return None
        if i.op in CASTS or i.op in ("getelementptr", "load"):
            return self.maker(f, i.args[0], n + 1)
        if i.op == "alloca":
            got = None
            for u in f.uses()[op]:
                c = None
                if u.op == "store" and u.args[1] == op:
                    c = self.maker(f, u.args[0], n + 1)
                elif u.op == "call" and u.callee and u.args and u.args[0] == op:
                    w = self.p.q(u.callee).split("::")[-1]
                    if u.d.get("sret") and w in ("begin", "end", "rbegin", "rend", "cbegin", "cend"):
                        c = u
                    elif w in ("__normal_iterator", "_Rb_tree_const_iterator", "reverse_iterator") and len(u.args) > 1:
                        c = self.maker(f, u.args[1], n + 1)
                elif u.op == "call" and u.callee and u.callee.startswith("llvm.memcpy") and u.args[0] == op:
                    c = self.maker(f, u.args[1], n + 1)
                elif u.op == "getelementptr":
                    for v in f.uses()[("v", u.id)]:
                        if v.op == "store" and v.args[1] == ("v", u.id):
                            c = c or self.maker(f, v.args[0], n + 1)
                got = got or c
            return got
        return None

    def grows(self, f, body, cont):
        if cont is None:
            return None
        for bb in body:
            for j in f.blocks[bb]:
                if j.op == "call" and j.callee and j.args:
                    q = self.p.q(j.callee)
                    w = q.split("::")[-1]
                    if w in GROW and q.startswith("std::"):
                        a = j.args[1] if j.d.get("sret") and len(j.args) > 1 else j.args[0]
                        if self.S.expr(f, a) == cont:
                            # leaves the loop straight afterwards?
                            return j
        return None

    def shrinks(self, j, f, c):
        if j.op != "call" or not j.callee or not j.args or self.p.q(j.callee).split("::")[-1] not in SHRINK:
            return False
        return self.P.canon(self.S.expr(f, j.args[1] if j.d.get("sret") and len(j.args) > 1 else j.args[0])) == c

    def drain(self, f, h, body, i):
        c = self.S.expr(f, i.args[0])

        def good(j):
            if j.op != "call" or not j.callee or not j.args:
                return False
            w = self.p.q(j.callee).split("::")[-1]
            return w in SHRINK and self.S.expr(f, j.args[1] if j.d.get("sret") and len(j.args) > 1 else j.args[0]) == c
        if self.must(f, h, body, good):
            return ("ok", "emptied container")
        if any(good(j) for bb in body for j in f.blocks[bb]):
            return ("stuck", "the container is not emptied further along every way round the loop")
        return ("unknown", "empty()")

    def read(self, f, h, body, b, cs, stay):
        """exit decided by the result of reader calls"""
        rd = [(c, self.reader(c.callee)) for c in cs]
        st = [c for c in cs if c.callee and self.p.q(c.callee).split("::")[-1] in STATE]
        kinds = set(k for c, k in rd if k)
        if not kinds and not st:
            return None
        if not kinds and st:
            # stream state tested apart from the reading
            w = self.p.q(st[0].callee).split("::")[-1]
            so = self.stream(f, st[0].args[0])

            def good(j):
                return j.op == "call" and j.callee and j.args and self.reader(j.callee) in ("stream", "helper") and any(self.stream(f, a) == so for a in j.args)
            if so is None:
                return ("unknown", "stream state")
            if w == "eof" and "stringstream" not in str(f.insts[so[1]].d.get("at", "") if so[0] == "loc" else ""):
                return ("stuck", "only the end-of-file flag ends the loop, and a failed or never opened stream does not set it")
            if self.must(f, h, body, good):
                if (w in ("operator!", "fail", "eof", "bad")) == (stay == "false") or (w in ("operator bool", "good")) == (stay == "true"):
                    pass
                return ("ok", "stream state")
            return ("stuck", "nothing is read from the stream along some way round the loop")
        c, k = [(c, k) for c, k in rd if k][0]
        if k == "helper":
            return ("ok", "reader behind an own function")
        if k == "stream":
            w = [self.p.q(s.callee).split("::")[-1] for s in st]
            neg = any(x in ("operator!", "fail", "eof", "bad") for x in w)
            if (stay == "true") == neg:
                return ("stuck", "the loop goes on when reading has failed")
        elif k in ("nonnull", "true") and stay in ("false", "null"):
            return ("aside", "leaves on success")
        # the reader's object must not start over in the loop
        args = c.args[1:] if c.d.get("sret") else c.args
        if args:
            a = args[0]
            so = self.stream(f, a)
            if a[0] == "v" and f.insts[a[1]].blk in body and f.insts[a[1]].op == "call" and f.insts[a[1]].callee and not self.reader(f.insts[a[1]].callee):
                w = self.p.q(f.insts[a[1]].callee).split("::")[-1]
                if re.search(r"open|_new|find|init", w):
                    return ("stuck", "the reader is opened again in every pass of the loop")
            if so is not None:
                for bb in body:
                    for j in f.blocks[bb]:
                        if j.op == "call" and j.callee and j.args:
                            w = self.p.q(j.callee).split("::")[-1]
                            if w in RESTART and self.stream(f, j.args[0]) == so and not (w == "str" and len(j.args) < 2) and not (w == "clear" and not self.p.q(j.callee).startswith("std::basic_ios")):
                                return ("stuck", "the reader is set back in the loop (line %s)" % j.line)
        if not self.must(f, h, body, lambda j: j.op == "call" and j.callee == c.callee):
            return ("stuck", "nothing is read along some way round the loop")
        return ("ok", "reader " + self.p.q(c.callee))

    def stream(self, f, op, n=0):
        """the object a stream argument (or a base class of it) is"""
        while op[0] == "v" and n < 14:
            i = f.insts[op[1]]
            if i.op == "alloca":
                return ("loc", i.id)
            if i.op in ("getelementptr", "bitcast"):
                op = i.args[0]
            elif i.op == "call" and i.callee and self.p.q(i.callee).split("::")[-1] in ("getline", "operator>>", "get", "ignore") and i.args:
                op = i.args[0]
            elif i.op == "load" and i.ty == "ptr":
                s = self.slot(f, i.args[0])
                return ("in", s) if s else None
            elif i.op == "call":
                return ("res", i.id)
            else:
                return None
            n += 1
        return ("arg", op[1]) if op[0] == "a" else None

    # ---- comparisons
    def compare(self, f, h, body, b, i, p):
        S, P = self.S, self.P
        ops = i.args
        cs = []
        for a in ops:
            cs += self.calls(f, body, h, a)
        null = any(a[0] == "null" or a[0] == "c" for a in ops)
        isnull = any(a[0] == "null" for a in ops)
        if cs and null:
            k = [self.reader(c.callee) for c in cs]
            if any(k):
                c0 = [a for a in ops if a[0] in ("null", "c")][0]
                v = 0 if c0[0] == "null" else c0[1]
                if p in ("ne", "sgt", "ugt") and v == 0 or p in ("sge", "uge") and v == 1:
                    stay = "true"
                elif p == "ne" and v in (-1, 2 ** 32 - 1) and "noteof" in k:
                    stay = "true"
                elif p in ("ne",) and v in (-1, 2 ** 32 - 1):
                    stay = "true"
                elif p == "eq" and v == 0 or p in ("slt", "sle", "ult"):
                    stay = "null"
                else:
                    stay = "true"
                if "noteof" in k and p in ("ne", "sgt") and v == 0:
                    return ("stuck", "the end of the input is not told apart")
                r = self.read(f, h, body, b, cs, stay)
                if r:
                    return r
        ea, eb = S.expr(f, ops[0]), S.expr(f, ops[1])
        # text positions: find() != npos
        fc = [c for c in cs if self.p.q(c.callee or "").split("::")[-1] in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of") and re.search(r"basic_string", self.p.dem(c.callee))]
        if fc and p == "ne":
            return self.finding(f, h, body, fc[0])
        if self.unsigned(ea) or self.unsigned(eb):
            ex = ea if self.unsigned(ea) else eb
            if len(ex) > 2 and (eb if ex is ea else ea)[0] == "c" and cs:
                d = self.drain(f, h, body, cs[0])
                if d[0] != "unknown":
                    return d
        # sentinels: *cursor compared with a constant or null
        for e, o, oth in ((ea, ops[0], eb), (eb, ops[1], ea)):
            j = o
            while j[0] == "v" and f.insts[j[1]].op in CASTS:
                j = f.insts[j[1]].args[0]
            if j[0] == "v" and f.insts[j[1]].op == "load" and p in ("ne", "eq") and (oth[0] in ("c", "null") or oth == ("call", "null") or isnull):
                ph = set()
                self.phis(S.expr(f, f.insts[j[1]].args[0]), ph)
                ph = [x for x in ph if f.insts[x].blk in body]
                if len(ph) == 1:
                    hs = self.header_of(f, body, h, ph[0])
                    if len(hs) == 1 and None not in hs:
                        hp = next(iter(hs))
                        d = self.header_delta(f, h, body, hp)
                        if d is None:
                            return ("unknown", "scan")
                        if d[0] >= 1 or d[1] <= -1:
                            return ("ok", "scan to a terminator")
                        return ("stuck", "the position that is tested is not moved on along every way round the loop")
        if p in ("eq",):
            return ("aside", "stays while equal")
        if p == "ne" and f.insts[ops[0][1]].ty == "ptr" if ops[0][0] == "v" else False:
            for o in ops:
                for ph in f.blocks[h]:
                    if ph.op == "phi" and ph.ty == "ptr" and self.reaches(f, body, o, ph.id):
                        d = self.header_delta(f, h, body, ph.id)
                        if d is None:
                            return ("unknown", "pointer")
                        return ("ok", "pointer to an exact value") if d[0] >= 1 or d[1] <= -1 else ("stuck", "the pointer is not moved on along every way round the loop")
        A, B = P.poly(ea), P.poly(eb)
        if A is None or B is None:
            return ("unknown", "value")
        pos = add(B, A, -1) if p in ("slt", "sle", "ult", "ule", "ne") else add(A, B, -1)
        if p in ("slt", "ult", "sgt", "ugt"):
            pos = add(pos, {(): 1}, -1)
        # header cursors in the distance
        cur = {}
        for m, c in pos.items():
            for a in m:
                ph = set()
                self.phis(a, ph)
                ph = [x for x in ph if f.insts[x].blk in body]
                if not ph:
                    continue
                if len(m) != 1 or not (len(a) > 2 and a[0] == "phi" and isinstance(a[1], int)):
                    if len(ph) and not (a[0] == "phi"):
                        # a cell at the cursor compared with a value: a search, its end is decided elsewhere
                        return ("aside", "data at the cursor")
                    return ("unknown", "product")
                hs = self.header_of(f, body, h, a[1])
                if len(hs) != 1 or None in hs:
                    return self.joint(f, h, body, pos) if len(hs) else ("unknown", "cursor")
                k = next(iter(hs))
                cur[k] = cur.get(k, 0) + c
        cur = {k: c for k, c in cur.items() if c}
        if p in ("uge",) and eb[0] == "c" and eb[1] == 0 or p == "ule" and ea[0] == "c" and ea[1] == 0:
            return ("stuck", "the test of an unsigned counter against zero is always true")
        if not cur:
            r = self.memory(f, h, body, pos, p)
            if r:
                return r
            if cs:
                return ("unknown" if not all(self.unsigned(S.expr(f, ("v", c.id))) for c in cs) else "aside", "call result")
            return ("aside", "does not change in the loop")
        # narrow counters
        for k in cur:
            n = self.narrow(f, h, body, k, ops, p)
            if n:
                return ("stuck", n)
        up = 0
        dn = 0
        for k, c in cur.items():
            d = self.header_delta(f, h, body, k)
            if d is None:
                d = self.halving(f, h, body, k, c)
                if d is None:
                    return self.joint(f, h, body, pos)
            if d[1] - d[0] == 0 or len(cur) == 1:
                up += max(c * d[0], c * d[1])
                dn += min(c * d[0], c * d[1])
            else:
                return self.joint(f, h, body, pos)
        g = self.bound_grows(f, h, body, pos)
        if g is not None:
            return ("stuck", "the bound is moved away in the loop (line %s)" % g.line)
        if p == "ne":
            if up <= -1 or dn >= 1:
                if up == dn == 1 or up == dn == -1 or True:
                    return ("ok", "counter to an exact value")
            return ("stuck", "the counter is not moved on along every way round the loop")
        if up <= -1:
            return ("ok", "counter")
        if dn >= 1:
            return ("stuck", "the counter moves away from its bound")
        if len(cur) == 1:
            k, c = next(iter(cur.items()))
            sizes = [a[2] for m, x in pos.items() for a in m if x > 0 and a[0] == "call" and a[1].split("::")[-1] in ("size", "length") and len(a) > 2]
            if self.must(f, h, body, lambda j: self.mover(f, body, h, j, k, c) or any(self.shrinks(j, f, x) for x in sizes)) and dn >= -INF // 2 and not any(self.mover(f, body, h, j, k, -c) for bb in body for j in f.blocks[bb]):
                return ("ok", "counter")
        return ("stuck", "the counter is not moved towards its bound along every way round the loop")

    def mover(self, f, body, h, j, phi, c):
        """the instruction moves the cursor the way that makes c * cursor smaller"""
        if j.op not in ("add", "sub", "getelementptr") or not self.reaches(f, body, ("v", j.id), phi):
            return False
        if not any(b in body and self.through(f, body, v, j.id) for v, b in f.insts[phi].args):
            return False
        k = [a for a in j.args[1:] if a[0] == "c"]
        if j.op == "getelementptr":
            k = [tuple(x[1]) for x in j.d.get("path") or [] if x[0] == "x" and tuple(x[1])[0] == "c"]
        if not k:
            return False
        v = k[0][1] - 2 ** 64 if k[0][1] > 2 ** 62 else k[0][1]
        if j.op == "sub":
            v = -v
        return v * c < 0

    def through(self, f, body, op, j, seen=None):
        seen = seen if seen is not None else set()
        if op[0] != "v" or op in seen:
            return False
        seen.add(op)
        if op[1] == j:
            return True
        i = f.insts[op[1]]
        if i.blk not in body:
            return False
        if i.op == "phi":
            return any(self.through(f, body, v, j, seen) for v, b in i.args)
        if i.op in ("add", "sub", "getelementptr") or i.op in CASTS:
            return any(self.through(f, body, a, j, seen) for a in i.args)
        return False

    def header_delta(self, f, h, body, phi):
        lo, hi, got = INF, -INF, False
        for v, b in f.insts[phi].args:
            if b not in body:
                continue
            d = self.delta(f, body, h, v, phi)
            if d is None:
                if v[0] == "c" or v[0] == "v" and f.insts[v[1]].blk not in body:
                    return (0, 0)   # set to the same value in every pass
                return None
            lo, hi, got = min(lo, d[0]), max(hi, d[1]), True
        return (lo, hi) if got else None

    def halving(self, f, h, body, phi, c):
        """n /= 10 and the like, counted down to zero"""
        for v, b in f.insts[phi].args:
            if b not in body:
                continue
            while v[0] == "v" and f.insts[v[1]].op in CASTS:
                v = f.insts[v[1]].args[0]
            if v[0] != "v":
                return None
            j = f.insts[v[1]]
            if not (j.op in ("sdiv", "udiv") and j.args[1][0] == "c" and j.args[1][1] >= 2 or j.op in ("lshr", "ashr") and j.args[1][0] == "c" and j.args[1][1] >= 1):
                return None
            a = j.args[0]
            while a[0] == "v" and f.insts[a[1]].op in CASTS:
                a = f.insts[a[1]].args[0]
            if a != ("v", phi):
                return None
        return (-1, -1) if c > 0 else None

    def narrow(self, f, h, body, phi, ops, p):
        """a counter of 8 or 16 bits against a wider bound"""
        ty = f.insts[phi].ty
        if ty not in ("i8", "i16"):
            return None
        w = int(ty[1:])
        for k in (0, 1):
            o = ops[k]
            signed = None
            n = 0
            while o[0] == "v" and f.insts[o[1]].op in ("sext", "zext") and n < 4:
                signed = f.insts[o[1]].op == "sext"
                o = f.insts[o[1]].args[0]
                n += 1
            if signed is None or not self.reaches(f, body, o, phi):
                continue
            other = ops[1 - k]
            top = 2 ** (w - 1) - 1 if signed else 2 ** w - 1
            if other[0] == "c":
                if other[1] > top or p in ("sle", "ule", "sge", "uge") and other[1] == top:
                    return "a %d-bit counter never reaches the bound %d" % (w, other[1])
                return None
            x = other
            while x[0] == "v" and f.insts[x[1]].op in ("sext", "zext"):
                x = f.insts[x[1]].args[0]
            if self.S.width(f, x) is not None and self.S.width(f, x) > w:
                return "a %d-bit counter wraps before it reaches a larger bound" % w
        return None

    def memory(self, f, h, body, pos, p):
        """counters that are kept in memory"""
        for m, c in pos.items():
            if len(m) != 1:
                continue
            a = m[0]
            if a[0] not in ("ld", "loc", "fld", "idx"):
                continue
            st = [j for bb in body for j in f.blocks[bb] if j.op == "store" and self.same(f, j.args[1], a)]
            if not st:
                continue
            good = []
            for j in st:
                d = self.P.poly(self.S.expr(f, j.args[0]))
                if d is None:
                    return ("unknown", "counter in memory")
                d = add(d, {(a,): 1}, -1)
                if not d:
                    continue
                if list(d) != [()]:
                    return ("unknown", "counter in memory")
                k = d[()] * c
                if k < 0 or p == "ne":
                    good.append(j)
                else:
                    return ("stuck", "the counter moves away from its bound")
            if self.must(f, h, body, lambda j: j in good):
                return ("ok", "counter in memory")
            return ("stuck", "the counter is not moved on along every way round the loop")
        return None

    def same(self, f, addr, a):
        e = self.S.expr(f, addr)
        return a == ("ld", e) or a == e

    def bound_grows(self, f, h, body, pos):
        S = self.S
        for m, c in pos.items():
            for a in m:
                if a[0] == "call" and a[1].split("::")[-1] in ("size", "length") and c > 0 and len(a) > 2:
                    g = self.grows(f, body, a[2])
                    if g is not None and self.every(f, h, body, g):
                        return g
                if a[0] == "ld" and c > 0:
                    for bb in body:
                        for j in f.blocks[bb]:
                            if j.op == "store" and S.expr(f, j.args[1]) == a[1]:
                                d = self.P.poly(S.expr(f, j.args[0]))
                                d = add(d, {(a,): 1}, -1) if d is not None else None
                                if d is not None and list(d) == [()] and d[()] > 0 and self.every(f, h, body, j):
                                    return j
        return None

    def every(self, f, h, body, j):
        """the instruction is on a way round the loop"""
        seen, work = set(), [j.blk]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for s in f.succ(b):
                if s == h:
                    return True
                if s in body:
                    work.append(s)
        return False

    def joint(self, f, h, body, pos):
        """several cursors that change together (bisection): every way round makes the distance smaller"""
        S, P = self.S, self.P
        phis = [i for i in f.blocks[h] if i.op == "phi"]
        used = set()
        for m in pos:
            for a in m:
                self.phis(a, used)
        used = [x for x in used if f.insts[x].blk == h]
        if not used or any(f.insts[x].blk in body and f.insts[x].blk != h for m in pos for a in m for x in self.phis(a, set())):
            return ("unknown", "cursors")
        inner = [hh for hh in f.natural_loops() if hh in body and hh != h]
        ways = []
        # flags that end the loop at the start of the next pass
        flags = {}
        for b in body:
            if any(x not in body for x in f.succ(b)):
                for e in f.cond_edges(b):
                    if e[0] in body and e[2] in (True, False) and e[1][0] == "v":
                        out = []
                        self.atoms(f, h, body, e[1], e[2], out)
                        for kind, i, pol in out:
                            if kind == "flag":
                                flags[i.id] = pol
        nums = len(used)
        used = used + [x for x in flags if x not in used]

        def expand(vals, frm, depth):
            if depth > 10 or len(ways) > 64:
                return False
            k = [n for n, v in enumerate(vals) if v[0] == "v" and f.insts[v[1]].op == "phi" and f.insts[v[1]].blk in body and f.insts[v[1]].blk != h]
            if not k:
                ways.append((vals, frm))
                return True
            blk = f.insts[vals[k[0]][1]].blk
            if blk in inner:
                return False
            for q in f.pred(blk):
                nv = list(vals)
                for n in range(len(vals)):
                    v = vals[n]
                    if v[0] == "v" and f.insts[v[1]].op == "phi" and f.insts[v[1]].blk == blk:
                        nv[n] = [x for x, pb in f.insts[v[1]].args if pb == q][0]
                if not expand(nv, q, depth + 1):
                    return False
            return True
        for l in self.latches(f, h, body):
            vals = [[v for v, b in f.insts[x].args if b == l][0] for x in used]
            if not expand(vals, l, 0):
                return ("unknown", "cursors")
        for vals, frm in ways:
            d = {}
            if any(x in flags and v[0] == "c" and bool(v[1]) != flags[x] for x, v in zip(used, vals)):
                continue
            for x, v in list(zip(used, vals))[:nums]:
                old = [a for m in pos for a in m if len(a) > 2 and a[0] == "phi" and a[1] == x]
                if not old:
                    continue
                c = sum(cc for m, cc in pos.items() if m == (old[0],))
                new = P.poly(S.expr(f, v))
                if new is None:
                    return ("unknown", "cursors")
                d = add(d, add(new, {(old[0],): 1}, -1), c)
            r = self.smaller(d, pos)
            if r is None:
                return ("unknown", "cursors")
            if not r:
                return ("stuck", "a way round the loop leaves the distance of the two cursors as it is")
        return ("ok", "cursors that approach each other")

    def smaller(self, d, pos):
        """d <= -1 given pos >= 0; None when it cannot be told"""
        if not d:
            return False
        if list(d) == [()]:
            return d[()] < 0
        # replace halves: q = (r - l) / 2 lies in [0, r - l]
        lo_hi = []
        best = None
        for m in d:
            if len(m) == 1 and m[0][0] == "bin" and m[0][1] in ("/", "sdiv", "udiv", ">>", "ashr", "lshr"):
                num = self.P.poly(m[0][2])
                k = self.P.poly(m[0][3])
                if num is None or k is None or list(k) != [()]:
                    return None
                half = int(k[()]) if m[0][1] in ("/", "sdiv", "udiv") else 2 ** int(k[()])
                if half < 2:
                    return None
                # pos = r - l (- 1 or 0 constants); num = r - l or r + l
                c = d[m]
                rest = {x: y for x, y in d.items() if x != m}
                ext = []
                # with num = s: s/half >= (s - half + 1)/half and <= s/half
                # scaled by half: half*d = half*rest + c*(num - e), e in [0, half-1]
                sc = add({x: y * half for x, y in rest.items()}, num, c)
                worst = add(sc, {(): 1}, 0 if c > 0 else -c * (half - 1))
                ext.append(worst)
                # want worst <= -1 given base(pos) >= 0: worst + t*pos is constant for some t >= 0
                w = ext[0]
                vs = [x for x in w if x != ()]
                if not vs:
                    return w.get((), 0) < 0
                base = {x: y for x, y in pos.items()}
                x0 = vs[0]
                if x0 not in base or base[x0] == 0:
                    return None
                t = -w[x0] / base[x0]
                if t < 0:
                    return False
                s = {}
                for x in set(w) | set(base):
                    y = w.get(x, 0) + t * base.get(x, 0)
                    if y:
                        s[x] = y
                if any(x != () for x in s):
                    return None
                return s.get((), 0) < 0
        return None

    def finding(self, f, h, body, c):
        """while ((p = s.find(x, p)) != npos)"""
        so = self.S.expr(f, c.args[0])
        if any(j.op == "call" and j.callee and j.args and self.p.q(j.callee).split("::")[-1] in ("erase", "replace", "operator=", "assign", "substr", "clear", "resize") and (self.S.expr(f, j.args[0]) == so) for bb in body for j in f.blocks[bb]):
            return ("ok", "text that is used up")
        st = c.args[2] if len(c.args) > 2 else None
        if st is None or st[0] == "c":
            return ("stuck", "the search starts at the same place in every pass")
        ph = set()
        self.phis(self.S.expr(f, st), ph)
        ph = [x for x in ph if f.insts[x].blk in body]
        if not ph:
            if st[0] == "v" and self.reaches(f, body, st, c.id):
                return ("unknown", "find")
            a = self.S.expr(f, st)
            cell = [j for bb in body for j in f.blocks[bb] if j.op == "store" and self.same(f, j.args[1], a)]
            return ("unknown", "find") if cell else ("stuck", "the search starts at the same place in every pass")
        hs = self.header_of(f, body, h, ph[0])
        return self.after(f, h, body, st, c)

    def after(self, f, h, body, st, c):
        """the start of the next search lies behind the place that was found"""
        def from_hit(op, n=0):
            """least distance of op behind the hit"""
            if n > 12 or op[0] != "v":
                return None
            if op[1] == c.id:
                return 0
            i = f.insts[op[1]]
            if i.op in CASTS:
                return from_hit(i.args[0], n + 1)
            if i.op == "add":
                for x, y in (i.args, i.args[::-1]):
                    k = from_hit(x, n + 1)
                    if k is not None:
                        s = y[1] if y[0] == "c" else self.sign(f, i, y)
                        if s is not None and s < 2 ** 62:
                            return k + s
                return None
            if i.op == "phi" and i.blk == h:
                ks = [from_hit(v, n + 1) for v, b in i.args if b in body]
                return min(ks) if ks and all(k is not None for k in ks) else None
            if i.op == "phi":
                ks = [from_hit(v, n + 1) for v, b in i.args]
                return min(ks) if ks and all(k is not None for k in ks) else None
            return None
        k = from_hit(st)
        if k is None:
            # pos is itself the phi of hits: for (p = find(x); p != npos; p = find(x, p + 1))
            ph = st
            n = 0
            add = 0
            while ph[0] == "v" and n < 12:
                i = f.insts[ph[1]]
                if i.op == "add" and i.args[1][0] == "c":
                    add += i.args[1][1]
                    ph = i.args[0]
                elif i.op in CASTS:
                    ph = i.args[0]
                elif i.op == "add":
                    s = self.sign(f, i, i.args[1])
                    if s is None:
                        return ("unknown", "find")
                    add += s
                    ph = i.args[0]
                else:
                    break
                n += 1
            if ph[0] == "v" and f.insts[ph[1]].op == "phi" and f.insts[ph[1]].blk == h:
                if all(v == ("v", c.id) for v, b in f.insts[ph[1]].args if b in body):
                    k = add
        if k is None:
            return ("unknown", "find")
        return ("ok", "search that goes on behind the hit") if k >= 1 else ("stuck", "the next search starts at the place that was found")


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    L = Loops(p, S, ctx.effects())
    rep.rule("every loop has an exit test that every way round passes and whose counter, iterator, reader or container every way round brings nearer to its end; bounds and containers do not move away in the loop; "
             "a recursive function can return without calling itself and does not hand on its parameters unchanged")
    n = un = 0
    for f in p.project():
        for h, body in sorted(f.natural_loops().items()):
            i = next((x for x in f.blocks[h] if x.line), f.blocks[h][-1])
            key = "loop:%s:%s" % (p.q(f.name), i.line)
            ex = [(b, x) for b in sorted(body) for x in f.succ(b) if x not in body and not dead(f, x)]
            n += 1
            if not ex:
                rep.ob(False, key, i.where(), "a loop that nothing ends")
                continue
            js = [L.judge(f, h, body, b, x) for b, x in ex]
            if any(j[0] == "ok" for j in js):
                rep.ob(True, key, i.where(), "loop in %s: %s" % (p.q(f.name), [j[1] for j in js if j[0] == "ok"][0]))
                continue
            if any(j[0] == "unknown" for j in js) or any(j[0] == "call" for j in js) and not any(j[0] == "stuck" for j in js):
                un += 1
                rep.count("loops not judged")
                continue
            st = [j[1] for j in js if j[0] == "stuck"]
            rep.ob(False, key, i.where(), "the loop in %s need not end: %s" % (p.q(f.name), st[0] if st else "its exits are not decided by anything that every pass brings nearer to an end"))
    rep.count("loops", n)
    recursion(p, S, ctx, rep)
    rep.need(n, 60, "loops")


def dead(f, b, depth=0):
    """the block ends in unreachable (a failed assertion, a throw)"""
    t = f.blocks[b][-1]
    return t.op == "unreachable"


def recursion(p, S, ctx, rep):
    E = ctx.effects()
    for f in p.project():
        grp = set(g.name for g in E.group(f))
        calls = [i for i in f.all_insts() if i.op == "call" and i.callee in grp and (len(grp) > 1 or i.callee == f.name)]
        if not calls:
            continue
        rep.count("recursive functions")
        key = "recursion:" + p.q(f.name)
        # can it return without a call into the cycle?
        blk = set(i.blk for i in calls)
        seen, work, out = set(), [0], False
        while work:
            b = work.pop()
            if b in seen or b in blk:
                continue
            seen.add(b)
            if not f.succ(b) and f.blocks[b][-1].op == "ret":
                out = True
            work += f.succ(b)
        rep.ob(out or len(grp) > 1 and any(free(p.fns[g], grp) for g in grp), key, f.where(), "%s calls itself on every way through it" % p.q(f.name))
        for i in calls:
            if i.callee != f.name:
                continue
            same = len(i.args) == len(f.params) and all(a == ("a", k) or k == 0 and f.sret is not None for k, a in enumerate(i.args))
            rep.ob(not same, key + ":args", i.where(), "%s calls itself with its own unchanged arguments" % p.q(f.name))


def free(g, grp):
    blk = set(i.blk for i in g.all_insts() if i.op == "call" and i.callee in grp)
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen or b in blk:
            continue
        seen.add(b)
        if not g.succ(b) and g.blocks[b][-1].op == "ret":
            return True
        work += g.succ(b)
    return False
