"""Polynomial normal form of symbolic expressions and a small linear-implication test.

A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of atoms (canonical expressions).
Division by a non-constant becomes multiplication with the atom ("inv", q)."""
from fractions import Fraction


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def const(c):
    return {(): Fraction(c)} if c else {}


def atom(e):
    return {(e,): Fraction(1)}


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _norm(m + n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _norm(m):
    """sort and cancel x * inv(x)"""
    L = list(m)
    for x in m:
        if isinstance(x, tuple) and x and x[0] == "inv":
            y = unkey(x[1])
            if len(y) == 1:
                (mm, c), = y.items()
                if len(mm) == 1 and c == 1 and mm[0] in L and x in L:
                    L.remove(mm[0])
                    L.remove(x)
    return tuple(sorted(L, key=repr))


def key(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def unkey(k):
    return dict(k)


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), Fraction(0)) if is_const(p) else None


class Poly:
    def __init__(self):
        self.c = {}

    def canon(self, e):
        """expression with arithmetic sub-terms in normal form (hashable)"""
        p = self.poly(e)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c == 1:
                return m[0]
        return ("poly", key(p))

    def poly(self, e):
        r = self.c.get(e)
        if r is None:
            r = self.c[e] = self._poly(e)
        return r

    def _poly(self, e):
        if not isinstance(e, tuple) or not e:
            return atom(e)
        t = e[0]
        if t == "c":
            return const(e[1])
        if t == "f":
            try:
                return const(Fraction(float(e[1])))
            except (ValueError, OverflowError):
                return atom(e)
        if t == "poly":
            return unkey(e[1])
        if t == "i2f":
            return self.poly(e[1])
        if t == "bin":
            o = e[1]
            if o in ("add", "fadd"):
                return add(self.poly(e[2]), self.poly(e[3]))
            if o in ("sub", "fsub"):
                return add(self.poly(e[2]), self.poly(e[3]), -1)
            if o in ("mul", "fmul"):
                return mul(self.poly(e[2]), self.poly(e[3]))
            if o == "shl" and e[3][0] == "c":
                return mul(self.poly(e[2]), const(2 ** e[3][1]))
            if o == "fdiv":
                d = self.poly(e[3])
                if is_const(d) and cval(d):
                    return mul(self.poly(e[2]), const(1 / cval(d)))
                if len(d) == 1:
                    (m, c), = d.items()
                    if len(m) == 1:
                        return mul(mul(self.poly(e[2]), const(1 / c)), {(("inv", key(atom(m[0]))),): Fraction(1)})
                return mul(self.poly(e[2]), {(("inv", key(d)),): Fraction(1)})
            if o in ("sdiv", "udiv") and e[3] in (("c", 1),):
                return self.poly(e[2])
            return atom(("bin", o, self.canon(e[2]), self.canon(e[3])))
        if t == "phi" or t == "loc" or t == "arg" or t == "this" or t == "str":
            return atom(e)
        out = [t]
        for x in e[1:]:
            out.append(self.canon(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x)
        return atom(tuple(out))


def fact_polys(P, facts):
    """facts -> polynomials known to be >= 0 (integers)"""
    out = []
    for f in facts:
        p = f[0]
        if p in ("slt", "sle", "sgt", "sge", "eq") and len(f) == 3:
            if f[1][0] in ("null",) or f[2][0] in ("null",):
                continue
            a, b = P.poly(f[1]), P.poly(f[2])
            if p == "slt":
                out.append(add(add(b, a, -1), const(-1)))
            elif p == "sle":
                out.append(add(b, a, -1))
            elif p == "sgt":
                out.append(add(add(a, b, -1), const(-1)))
            elif p == "sge":
                out.append(add(a, b, -1))
            else:
                out.append(add(a, b, -1))
                out.append(add(b, a, -1))
    return out


def nonneg(goal, facts, depth=5, seen=None):
    """goal >= 0 follows from the facts (polynomials >= 0) by a non-negative combination"""
    if is_const(goal):
        return goal.get((), 0) >= 0
    if depth == 0:
        return False
    k = key(goal)
    seen = seen or set()
    if k in seen:
        return False
    seen = seen | {k}
    # eliminate one non-constant monomial (try each)
    for m, c in goal.items():
        if m == ():
            continue
        for f in facts:
            d = f.get(m, 0)
            if d and (d > 0) == (c > 0):
                r = add(goal, f, -Fraction(c) / d)
                if len(r) <= len(goal) + 2 and nonneg(r, facts, depth - 1, seen):
                    return True
        break_ = False
    return False
