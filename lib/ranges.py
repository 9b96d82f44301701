"""Lower and upper bounds of integer operands, from the values they can stand for and the branch facts that hold there."""
from poly import Poly, fact_polys, nonneg, add, const
from sym import subst


class Ranges:
    def __init__(self, prog, S, P=None):
        self.p, self.s, self.P = prog, S, P or Poly()

    def polys(self, fn, facts):
        return fact_polys(self.P, facts)

    def holds(self, fn, goal, facts):
        return nonneg(goal, self.polys(fn, facts))

    def unproved_ge(self, fn, op, blk, k, depth=0, seen=None, extra=frozenset()):
        """leaf values (text) of an operand that are not shown to be >= k where it is used in block blk"""
        facts = set(self.s.facts(fn, blk)) | set(extra)
        return self._ge(fn, op, facts, k, depth, seen or set())

    def _ge(self, fn, op, facts, k, depth, seen):
        if depth > 8:
            return ["a value too deep to follow"]
        e = self.s.expr(fn, op)
        if self.holds(fn, add(self.P.poly(e), const(-k)), facts):
            return []
        if op[0] == "v":
            if op in seen:
                return []
            seen = seen | {op}
            i = fn.insts[op[1]]
            if i.op in ("zext", "sext", "trunc", "freeze"):
                return self._ge(fn, i.args[0], facts, k, depth + 1, seen)
            if i.op == "phi":
                out = []
                for v, b in i.args:
                    out += self._ge(fn, v, facts | set(self.s.edge_facts(fn, b, i.blk)), k, depth + 1, seen)
                return out
            if i.op == "select":
                out = []
                for n, pol in ((1, True), (2, False)):
                    f = set(facts)
                    self.s.imply(fn, i.args[0], pol, f, 3)
                    out += self._ge(fn, i.args[n], f, k, depth + 1, seen)
                return out
            if i.op == "call" and i.callee:
                q = self.p.q(i.callee)
                if q.startswith("llvm.smax") or q.startswith("llvm.umax"):
                    if any(not self._ge(fn, a, facts, k, depth + 1, seen) for a in i.args[:2]):
                        return []
                if q.startswith("llvm.smin") or q.startswith("llvm.umin"):
                    return [x for a in i.args[:2] for x in self._ge(fn, a, facts, k, depth + 1, seen)]
                g = self.p.fns.get(i.callee)
                if g is not None and not g.sret:
                    out = []
                    n = 0
                    for b in g.blocks:
                        t = b[-1]
                        if t.op == "ret" and t.args:
                            n += 1
                            f = set(self.s.facts(g, t.blk))
                            # what the caller knows about the arguments is not used
                            out += self._ge(g, t.args[0], f, k, depth + 1, set())
                    if n:
                        return out
        from sym import show
        return [show(e, fn)]
