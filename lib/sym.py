"""Symbolic expressions of SSA values and guard facts.

Expressions are nested tuples:
  ("c", int) ("f", str) ("null",) ("undef",) ("arg", n) ("this",)
  ("ld", addr)              value loaded from an address
  ("fld", base, name)       address of a data member      ("idx", base, index, size)  element address
  ("loc", id)               address of a local variable   ("glob", name)              address of a global
  ("str", text)             string literal / std::string constructed from it
  ("call", qualname, args.) result of a call              ("mapat", map, key)         map element value address
  ("bin", op, a, b) ("cmp", pred, a, b) ("not", a) ("f2i", a) ("i2f", a) ("phi", id) ("sel", c, a, b) ("op", opcode, ...)
Integer width changes are transparent.
"""
from ir import qualname

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "oeq": "une", "une": "oeq", "olt": "uge_f", "oge": "ult_f", "ogt": "ule_f", "ole": "ugt_f",
       "one": "ueq", "ueq": "one", "uno": "ord", "ord": "uno"}
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "eq": "eq", "ne": "ne", "olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole"}

STR_CTOR = ("std::basic_string::basic_string",)
REFPURE = ("std::pair::pair", "std::make_pair", "std::min", "std::max", "std::forward")
REFPURE_LAST = ("emplace", "emplace_back", "push_back", "insert", "find", "count", "at", "operator[]", "operator<<", "fill_n", "fill", "assign", "vector")
LIST_AT = ("std::map::at", "std::map::operator[]")


def element(base, index, size):
    """address of an element; steps over the same element size are added up"""
    if base[0] == "idx" and base[3] == size:
        if index == ("c", 0):
            return base
        if base[2] == ("c", 0):
            return ("idx", base[1], index, size)
        if base[2][0] == "c" and index[0] == "c":
            return ("idx", base[1], ("c", base[2][1] + index[1]), size)
        return ("idx", base[1], ("bin", "add", base[2], index), size)
    return ("idx", base, index, size)


class Sym:
    def __init__(self, prog, summaries=True, maxdepth=60):
        self.p = prog
        self.cache = {}
        self.summ = {}
        self.use_summ = summaries
        self.override = {}   # qualified name -> function of the argument expressions giving the result expression
        self.maxdepth = maxdepth
        self.active = set()

    # ---- addresses of local objects -------------------------------------------------------------
    def root(self, fn, op):
        """alloca instruction that an address operand is based on (through geps), or None"""
        while op[0] == "v":
            i = fn.insts[op[1]]
            if i.op == "alloca":
                return i
            if i.op in ("getelementptr", "bitcast"):
                op = i.args[0]
                continue
            return None
        return None

    def string_at(self, fn, op, at=None):
        """text of the std::string (or char*) operand if it is built from one literal, else None"""
        if op[0] in ("g", "cg"):
            return self.p.cstring(op)
        if op[0] != "v":
            return None
        i = fn.insts[op[1]]
        if i.op == "load":
            a = i.args[0]
            if a[0] == "g":
                tgt = self.p.gptr(a[1])
                if tgt is not None:
                    return self.p.cstring(tgt)
                # static std::string?
            return None
        if i.op == "alloca":
            ctor = None
            for u in fn.uses().get(op, []):
                if u.op == "call" and u.callee:
                    q = self.p.q(u.callee)
                    if u.args and u.args[0] == op:
                        if q == "std::basic_string::basic_string":
                            if ctor is not None:
                                return None
                            ctor = u
                        elif q in ("std::basic_string::operator=", "std::basic_string::assign", "std::basic_string::append",
                                   "std::basic_string::operator+=", "std::basic_string::push_back"):
                            return None
                    if u.d.get("sret") and u.args[0] == op and q != "std::basic_string::basic_string":
                        # string returned by value: utils like GetUpper
                        return None
            if ctor is None or len(ctor.args) < 2:
                return None
            a = ctor.args[1]
            return self.string_at(fn, a)
        return None

    # ---- expressions ----------------------------------------------------------------------------
    def expr(self, fn, op, depth=0):
        k = (fn.name, op)
        r = self.cache.get(k)
        if r is None:
            if depth > self.maxdepth:
                return ("deep", op)
            r = self._expr(fn, op, depth)
            self.cache[k] = r
        return r

    def _expr(self, fn, op, depth):
        t = op[0]
        if t == "c":
            return ("c", op[1])
        if t == "f":
            return ("f", op[1])
        if t == "null":
            return ("null",)
        if t in ("undef", "zero"):
            return (t,)
        if t == "a":
            if fn.this == op:
                return ("this",)
            return ("arg", op[1])
        if t == "g" or t == "cg":
            s = self.p.cstring(op)
            if s is not None:
                return ("str", s)
            return ("glob", op[1]) if t == "g" else ("globoff", op[1][1] if len(op[1]) > 1 else "?", op[2])
        if t == "fn":
            return ("fn", op[1])
        if t != "v":
            return ("opq", str(op))
        i = fn.insts[op[1]]
        o = i.op
        e = lambda x: self.expr(fn, x, depth + 1)
        if o == "load":
            a = i.args[0]
            if a[0] == "g":
                tgt = self.p.gptr(a[1])
                if tgt is not None:
                    s = self.p.cstring(tgt)
                    if s is not None:
                        return ("str", s)
            if a[0] == "v" and fn.insts[a[1]].op == "alloca":
                st = self.forward(fn, fn.insts[a[1]])
                if st is not None and fn.idominates(st, i):
                    return e(st.args[0])
            ae = e(a)
            if ae[0] == "mapat":
                return ("mapval", ae[1], ae[2])
            return ("ld", ae)
        if o == "alloca":
            s = self.string_at(fn, op)
            if s is not None:
                return ("str", s)
            return ("loc", i.id, fn.name)
        if o == "getelementptr":
            b = e(i.args[0])
            for el in i.d["path"]:
                if el[0] == "f":
                    if b[0] == "node" and el[1] in ("first", "second"):
                        b = ("mapat", b[1], b[2]) if el[1] == "second" else ("fld", b, el[1])
                    else:
                        b = ("fld", b, el[1])
                else:
                    x = el[1]
                    x = tuple(x) if x[0] not in ("cg", "ce") else ("opq", str(x))
                    b = element(b, e(x), el[2])
            return b
        if o in ("sext", "zext", "trunc", "bitcast", "fpext", "fptrunc", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            x = e(i.args[0])
            if o == "zext" and i.args[0][0] == "v":
                pass
            return x
        if o in ("sitofp", "uitofp"):
            return ("i2f", e(i.args[0]))
        if o in ("fptosi", "fptoui"):
            return ("f2i", e(i.args[0]))
        if o in ("icmp", "fcmp"):
            return ("cmp", i.d["p"], e(i.args[0]), e(i.args[1]))
        if o == "select":
            return ("sel", e(i.args[0]), e(i.args[1]), e(i.args[2]))
        if o == "phi":
            vals = set()
            for v, b in i.args:
                if v == op:
                    continue
                vals.add(v)
            if len(vals) == 1:
                return e(next(iter(vals)))
            return ("phi", i.id, fn.name)
        if o == "xor" and i.args[1] == ("c", 1, 1) or o == "xor" and i.args[1] == ("c", -1, 1):
            return ("not", e(i.args[0]))
        if o in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "ashr", "lshr",
                 "fadd", "fsub", "fmul", "fdiv", "frem"):
            return ("bin", o, e(i.args[0]), e(i.args[1]))
        if o == "fneg":
            return ("bin", "fsub", ("f", "0"), e(i.args[0]))
        if o == "call":
            return self.callexpr(fn, i, depth)
        if o == "extractvalue":
            return ("ev", e(i.args[0]), i.d["ix"][0])
        return ("op", o, i.id, fn.name)

    def callexpr(self, fn, i, depth):
        if not i.callee:
            return ("icall", i.id, fn.name)
        q = self.p.q(i.callee)
        args = [self.expr(fn, a, depth + 1) for a in i.args]
        if q in LIST_AT and len(args) >= 2:
            return ("mapat", args[0], args[1])
        if q in ("llvm.fabs.f64", "llvm.fabs.f32", "fabs", "fabsf", "abs"):
            return ("call", "fabs", args[0])
        if q.startswith("std::") and q.split("::")[-1] in ("operator*", "operator->") and "iterator" in q.lower():
            v = self.iterval(fn, i.args[0], depth + 1) if i.args else None
            if v and v[0] == "call" and v[1] == "std::map::find" and len(v) == 4:
                return ("node", v[2], v[3])    # the entry of the map that has this key
            return ("deref", args[0])
        last = q.split("::")[-1]
        if last in ("operator!=", "operator==") and q.startswith("std::") and len(i.args) == 2:
            a, b = self.iterval(fn, i.args[0], depth), self.iterval(fn, i.args[1], depth)
            if a and b:
                for x, y in ((a, b), (b, a)):
                    if x[0] == "call" and x[1].split("::")[-1] == "find" and len(x) == 4 and y[0] == "call" and y[1].split("::")[-1] == "end" and y[2] == x[2]:
                        h = ("has", x[2], x[3])
                        return h if last == "operator!=" else ("not", h)
        ov = self.override.get(q)
        if ov is not None:
            return ov(args)
        f = self.p.fns.get(i.callee)
        if f is not None and self.use_summ:
            s = self.summary(f, depth)
            if s is not None:
                r = subst(s, f, args)
                if r is not None:
                    return r
        return ("call", q) + tuple(args)

    def forward(self, fn, al):
        """the only store to a scalar local whose address is otherwise only read through, or None"""
        k = ("fwd", fn.name, al.id)
        if k in self.cache:
            return self.cache[k]
        st = None
        op = ("v", al.id)
        ok = True
        for u in fn.uses().get(op, []):
            if u.op == "load":
                continue
            if u.op == "store" and u.args[1] == op and u.args[0] != op:
                if st is not None:
                    ok = False
                st = u
                continue
            if u.op == "call" and u.callee:
                q = self.p.q(u.callee)
                if q.startswith("llvm.lifetime") or q in REFPURE or q.split("::")[-1] in REFPURE_LAST and q.startswith("std::"):
                    continue
                f = self.p.fns.get(u.callee)
                if f is not None:
                    off = 1 if f.sret else 0
                    ts = [f.dity[1 + n - off] if 1 + n - off < len(f.dity) else "" for n, a in enumerate(u.args) if a == op and n >= off]
                    if ts and all(t.startswith("const ") for t in ts):
                        continue
            ok = False
            break
        r = st if ok else None
        self.cache[k] = r
        return r

    def iterval(self, fn, op, depth=0):
        """expression held by an iterator object (local with a single store)"""
        r = self.root(fn, op)
        if r is None:
            return None
        val = None
        for i in fn.all_insts():
            if i.op == "store" and self.root(fn, i.args[1]) is r:
                if val is not None:
                    return None
                val = i.args[0]
            elif i.op == "call" and i.args and i.args[0] == ("v", r.id) and i.callee:
                n = self.p.q(i.callee).split("::")[-1]
                if n in ("operator++", "operator--", "operator=", "operator+="):
                    return None
        if val is None:
            return None
        return self.expr(fn, val, depth + 1)

    def summary(self, f, depth=0):
        """expression of the result of a small function without loops and side effects, over its arguments; else None"""
        if f.name in self.summ:
            return self.summ[f.name]
        self.summ[f.name] = None
        if f.sret or f.ret == "void":
            return None
        rets = [b[-1] for b in f.blocks if b[-1].op == "ret"]
        if len(rets) != 1 or any(len(f.succ(b)) > 1 for b in range(len(f.blocks))):
            return None
        for i in f.all_insts():
            if i.op == "store":
                # stores to locals only (temporaries of const& parameters)
                if self.root(f, i.args[1]) is None:
                    return None
        r = self.expr(f, rets[0].args[0], depth + 1)
        if contains(r, ("phi", "loc", "deep", "icall", "undef")):
            # temporaries holding strings are resolved to ("str", ...) already
            r = None
        if r is not None and size(r) > 60:
            r = None
        self.summ[f.name] = r
        return r

    # ---- facts ----------------------------------------------------------------------------------
    def facts(self, fn, blk):
        """set of atomic facts that hold whenever control is at blk: tuples (pred, a, b) / ('true', e) / ('false', e) / ('in', e, vals) / ('notin', e, vals)"""
        k = ("facts", fn.name, blk)
        if k in self.cache:
            return self.cache[k]
        out = set()
        self.cache[k] = out
        for c, pol, b in fn.raw_facts(blk):
            self.imply(fn, c, pol, out, 0)
        return out

    def imply(self, fn, c, pol, out, depth):
        if depth > 12:
            return
        if c[0] == "case":
            e = self.expr(fn, c[1])
            if c[2] is not None:
                out.add(("in", e, c[2]))
            else:
                out.add(("notin", e, c[3]))
            return
        if c[0] == "c":
            if bool(c[1]) != pol:
                out.add(("dead",))
            return
        if c[0] == "v":
            i = fn.insts[c[1]]
            if i.op in ("icmp", "fcmp"):
                p = i.d["p"]
                a, b = i.args
                # comparison of a widened bool with 0/1
                if i.op == "icmp" and b[0] == "c" and b[1] == 0 and a[0] == "v" and fn.insts[a[1]].op in ("zext", "sext") \
                        and p in ("eq", "ne"):
                    src = fn.insts[a[1]].args[0]
                    if self.width(fn, src) == 1:
                        self.imply(fn, src, pol if p == "ne" else not pol, out, depth + 1)
                        return
                if not pol:
                    p = NEG.get(p, "not_" + p)
                ea, eb = self.expr(fn, a), self.expr(fn, b)
                out.add((p, ea, eb))
                if ea[0] == "call" and ea[1].split("::")[-1] == "count" and len(ea) == 4 and eb[0] == "c":
                    if (p in ("ne", "sgt", "ugt") and eb[1] == 0) or (p in ("eq", "sge", "uge") and eb[1] == 1):
                        out.add(("true", ("has", ea[2], ea[3])))
                    if (p in ("eq", "sle", "ule") and eb[1] == 0) or (p in ("slt", "ult", "ne") and eb[1] == 1):
                        out.add(("false", ("has", ea[2], ea[3])))
                # value of an i8-ish bool result compared: also expose calls
                if i.op == "icmp" and p in ("eq", "ne") and b[0] == "c":
                    self.imply_value(fn, a, p, b[1], out, depth + 1)
                return
            if i.op == "xor" and i.args[1][0] == "c":
                self.imply(fn, i.args[0], not pol, out, depth + 1)
                return
            if i.op in ("trunc", "zext", "freeze"):
                self.imply(fn, i.args[0], pol, out, depth + 1)
                return
            if i.op == "and" and pol or i.op == "or" and not pol:
                self.imply(fn, i.args[0], pol, out, depth + 1)
                self.imply(fn, i.args[1], pol, out, depth + 1)
                return
            if i.op == "select":
                # a ? b : false (and) / a ? true : b (or)
                if pol and i.args[2][0] == "c" and not i.args[2][1]:
                    self.imply(fn, i.args[0], True, out, depth + 1)
                    self.imply(fn, i.args[1], True, out, depth + 1)
                if not pol and i.args[1][0] == "c" and i.args[1][1]:
                    self.imply(fn, i.args[0], False, out, depth + 1)
                    self.imply(fn, i.args[2], False, out, depth + 1)
            if i.op == "phi":
                self.imply_phi(fn, i, pol, out, depth)
            if i.op == "call" and i.callee in self.p.fns:
                f = self.p.fns[i.callee]
                for fact in self.bool_summary(f, pol):
                    r = substfact(fact, f, [self.expr(fn, a) for a in i.args])
                    if r is not None:
                        out.add(r)
            e = self.expr(fn, c)
            while e[0] == "not":
                e, pol = e[1], not pol
            out.add(("true" if pol else "false", e))
            return
        out.add(("true" if pol else "false", self.expr(fn, c)))

    def imply_value(self, fn, a, p, n, out, depth):
        # (x == n) where x is a phi of constants and others
        if a[0] == "v" and fn.insts[a[1]].op in ("zext", "sext", "trunc"):
            src = fn.insts[a[1]].args[0]
            if self.width(fn, src) == 1 and n == 0:
                self.imply(fn, src, p == "ne", out, depth + 1)

    def imply_phi(self, fn, i, pol, out, depth):
        k = (fn.name, i.id, pol)
        if k in self.active:
            return
        self.active.add(k)
        try:
            self._imply_phi(fn, i, pol, out, depth)
        finally:
            self.active.discard(k)

    def _imply_phi(self, fn, i, pol, out, depth):
        sets = []
        for v, b in i.args:
            if v[0] == "c":
                if bool(v[1]) != pol:
                    continue
                s = set(self.edge_facts(fn, b, i.blk))
                sets.append(s)
            else:
                if v == ("v", i.id):
                    continue
                s = set(self.edge_facts(fn, b, i.blk))
                self.imply(fn, v, pol, s, depth + 1)
                sets.append(s)
        sets = [s for s in sets if ("dead",) not in s]
        if not sets:
            out.add(("dead",))
            return
        r = set.intersection(*sets)
        out |= r

    def edge_facts(self, fn, b, s):
        out = set(self.facts(fn, b))
        es = [e for e in fn.cond_edges(b) if e[0] == s]
        if len(es) == 1 and len(set(e[0] for e in fn.cond_edges(b))) > 1:
            self.imply(fn, es[0][1], es[0][2], out, 3)
        return out

    def width(self, fn, op):
        if op[0] == "c":
            return op[2]
        if op[0] == "v":
            ty = fn.insts[op[1]].ty or ""
        elif op[0] == "a":
            ty = fn.params[op[1]]["t"]
        else:
            return 0
        return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else 0

    def bool_summary(self, f, pol):
        """facts over the parameters of f that hold when f returns pol (intersection over its returning paths)"""
        k = ("bs", f.name, pol)
        if k in self.cache:
            return self.cache[k]
        self.cache[k] = set()
        if f.ret not in ("i1", "i8", "i32"):
            return set()
        sets = []
        for b in f.blocks:
            t = b[-1]
            if t.op != "ret" or not t.args:
                continue
            s = set(self.facts(f, t.blk))
            v = t.args[0]
            if v[0] == "c":
                if bool(v[1]) != pol:
                    continue
            else:
                self.imply(f, v, pol, s, 4)
            sets.append(s)
        sets = [s for s in sets if ("dead",) not in s]
        r = set.intersection(*sets) if sets else set()
        r = set(x for x in r if not any(contains(y, ("phi", "loc", "deep", "icall")) for y in x[1:] if isinstance(y, tuple)))
        # what was found in memory that f then writes says nothing about the state f leaves behind
        w = self.written(f) if any(contains(x, ("ld",)) for x in r) else ()
        if w:
            r = set(x for x in r if not reads(x, w))
        self.cache[k] = r
        return r

    def written(self, f, depth=0):
        """addresses, in terms of its parameters, that f or what it calls writes"""
        k = ("wr", f.name)
        if k in self.cache:
            return self.cache[k]
        self.cache[k] = r = set()
        for i in f.all_insts():
            if i.op == "store":
                e = self.expr(f, i.args[1])
                if not contains(e, ("phi", "loc", "deep", "icall")):
                    r.add(e)
            elif i.op == "call" and i.callee in self.p.fns and depth < 6:
                g = self.p.fns[i.callee]
                w = self.written(g, depth + 1)
                if w:
                    args = [self.expr(f, a) for a in i.args]
                    for e in w:
                        e = subst(e, g, args)
                        if e is not None and not contains(e, ("phi", "loc", "deep", "icall")):
                            r.add(e)
        return r


def contains(e, tags):
    if not isinstance(e, tuple):
        return False
    if e and e[0] in tags and isinstance(e[0], str):
        return True
    return any(contains(x, tags) for x in e[1:])


def reads(e, w):
    if not isinstance(e, tuple):
        return False
    if e[0] == "ld" and len(e) > 1 and e[1] in w:
        return True
    return any(reads(x, w) for x in e[1:])


def size(e):
    if not isinstance(e, tuple):
        return 0
    return 1 + sum(size(x) for x in e[1:])


def subst(e, f, args):
    if not isinstance(e, tuple):
        return e
    if e[0] == "this":
        t = f.this
        return args[t[1]] if t and t[1] < len(args) else None
    if e[0] == "arg":
        return args[e[1]] if e[1] < len(args) else None
    if e[0] in ("c", "f", "str", "glob", "null", "fn", "undef", "phi", "loc", "icall", "op", "opq"):
        return e
    out = [e[0]]
    for x in e[1:]:
        if isinstance(x, tuple):
            y = subst(x, f, args)
            if y is None:
                return None
            out.append(y)
        else:
            out.append(x)
    # re-normalise address-of/deref pairs introduced by substitution
    if out[0] == "ld" and isinstance(out[1], tuple) and out[1][0] == "mapat":
        return ("mapval", out[1][1], out[1][2])
    return tuple(out)


def substfact(x, f, args):
    out = [x[0]]
    for y in x[1:]:
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            z = subst(y, f, args)
            if z is None:
                return None
            out.append(z)
        else:
            out.append(y)
    return tuple(out)


def show(e, fn=None, d=0):
    """readable form for reports"""
    if not isinstance(e, tuple) or not e:
        return str(e)
    t = e[0]
    s = lambda x: show(x, fn, d + 1)
    if d > 8:
        return "..."
    if t == "c":
        return str(e[1])
    if t == "f":
        return str(e[1])
    if t == "this":
        return "this"
    if t == "arg":
        return fn.argname(e[1]) if fn else "arg%d" % e[1]
    if t == "ld":
        return s(e[1]) if e[1][0] in ("fld", "idx", "glob", "loc") else "*" + s(e[1])
    if t == "fld":
        b = s(e[1])
        return e[2] if b == "this" else b + "." + e[2]
    if t == "idx":
        return "%s[%s]" % (s(e[1]), s(e[2]))
    if t == "loc":
        n = fn.vname(("v", e[1])) if fn else None
        return n or "local%d" % e[1]
    if t == "phi":
        n = fn.vname(("v", e[1])) if fn else None
        return n or "phi%d" % e[1]
    if t == "glob":
        return e[1]
    if t == "str":
        return '"%s"' % e[1]
    if t == "mapval":
        return "%s.at(%s)" % (s(e[1]), s(e[2]))
    if t == "call":
        return "%s(%s)" % (e[1].split("::")[-1], ", ".join(s(x) for x in e[2:]))
    if t == "bin":
        o = {"add": "+", "sub": "-", "mul": "*", "sdiv": "/", "udiv": "/", "srem": "%", "urem": "%", "fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}.get(e[1], e[1])
        return "(%s %s %s)" % (s(e[2]), o, s(e[3]))
    if t == "cmp":
        return "(%s %s %s)" % (s(e[2]), e[1], s(e[3]))
    if t in ("f2i", "i2f"):
        return s(e[1])
    return "%s(%s)" % (t, ", ".join(s(x) for x in e[1:]))
