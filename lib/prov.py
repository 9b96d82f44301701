"""Provenance of text: what the string (or character pointer, or stream) operand of an instruction was put together from.

Pieces: ("param", k), ("entry", readdir call id), ("lit", text), ("elem", container operand), ("cut", where), ("member", path), ("fn", qualified name), ("num",), ("?", what)."""

STRUCT = ("basic_string", "basic_ostringstream", "basic_stringstream", "operator=", "append", "assign", "operator+=", "push_back", "insert", "operator<<", "write", "put", "str", "replace", "emplace_back",
          "strcpy", "strcat", "strncpy", "strncat", "sprintf", "snprintf", "memcpy", "strlcpy", "operator+")
SAME = ("c_str", "data", "begin", "GetAbsolutePath", "Trim", "string", "move", "forward", "ref", "operator basic_string")
CUTS = ("substr", "resize", "erase", "pop_back", "strncpy", "strncat", "snprintf", "strlcpy", "GetPathFromFullName", "GetCoreFileName", "SplitString", "clear")
IGNORE = ("~basic_string", "length", "size", "empty", "find", "find_last_of", "find_first_of", "compare", "operator==", "operator!=", "end", "capacity", "reserve", "max_size", "get_allocator", "rfind")
ELEM = ("operator[]", "at", "front", "back", "operator*", "operator->")


class Prov:
    def __init__(self, p, S):
        self.p, self.S = p, S
        self.resolved = []  # calls on the way that resolve symbolic links

    def last(self, n):
        return self.p.q(n).split("::")[-1] if n else ""

    def of(self, f, op, seen=None):
        seen = set() if seen is None else seen
        if op in seen:
            return set()
        seen.add(op)
        p = self.p
        t = op[0]
        if t == "a":
            return {("param", op[1])} if not (f.this and op == f.this) else {("member", "this")}
        if t in ("g", "cg"):
            s = p.cstring(op)
            return {("lit", s)} if s is not None else {("glob", str(op[1]))}
        if t == "c":
            return {("lit", chr(op[1]))} if 0 < op[1] < 256 else {("num",)}
        if t in ("null", "undef", "f"):
            return {("num",)}
        if t != "v":
            return {("?", str(op))}
        i = f.insts[op[1]]
        o = i.op
        if o == "alloca":
            return self.object(f, op, seen)
        if o in ("getelementptr", "bitcast", "sext", "zext", "trunc", "inttoptr", "ptrtoint"):
            e = i.args[0]
            r = self.of(f, e, seen)
            if o == "getelementptr" and r == {("member", "this")}:
                from sym import show
                return {("member", str(self.S.expr(f, op)))}
            return r
        if o == "load":
            a = i.args[0]
            if a[0] == "v" and f.insts[a[1]].op == "alloca":
                return self.object(f, a, seen)
            if a[0] == "g":
                tgt = p.gptr(a[1])
                s = p.cstring(tgt) if tgt is not None else None
                return {("lit", s)} if s is not None else {("glob", a[1])}
            return self.of(f, a, seen)
        if o == "phi":
            return set(x for v, b in i.args for x in self.of(f, v, seen))
        if o == "select":
            return self.of(f, i.args[1], seen) | self.of(f, i.args[2], seen)
        if o == "call":
            return self.call(f, i, seen)
        if o in ("add", "sub", "mul"):
            return {("num",)}
        return {("?", o)}

    def call(self, f, i, seen):
        if not i.callee:
            return {("?", "indirect call")}
        n = self.last(i.callee)
        q = self.p.q(i.callee)
        args = i.args[1:] if i.d.get("sret") else i.args
        if n == "readdir":
            return {("entry", i.id)}
        if n in ELEM and args and not (n in ("operator*", "operator->") and False):
            return set(("elem", r) for r in self.containers(f, args[0], set()))
        r = set()
        if n in ("GetAbsolutePath", "realpath", "canonicalize_file_name"):
            self.resolved.append(i)
        if n in CUTS:
            r.add(("cut", "%s at %s" % (n, i.where())))
        if n in SAME or n in CUTS or n in STRUCT:
            for a in args:
                if a[0] == "c" and n in ("operator+", "operator<<", "operator+=") and 0 < a[1] < 256:
                    r.add(("lit", chr(a[1])))
                if self.textual(f, a):
                    r |= self.of(f, a, seen)
            return r
        if i.ty == "ptr" or i.d.get("sret"):
            r.add(("fn", q))
            for a in args:
                if self.textual(f, a):
                    r |= self.of(f, a, seen)
            return r
        return {("num",)}

    def textual(self, f, a):
        if a[0] in ("c",):
            return False
        if a[0] == "v" and f.insts[a[1]].ty not in ("ptr", "i8", None):
            return False
        return True

    def object(self, f, op, seen):
        """everything put into a local object"""
        r = set()
        for u in f.uses().get(op, []):
            if u.op == "store" and u.args[1] == op:
                r |= self.of(f, u.args[0], seen)
            elif u.op == "call" and u.callee:
                n = self.last(u.callee)
                if n in IGNORE or n.startswith("~"):
                    continue
                if u.d.get("sret") and u.args[0] == op:
                    r |= self.call(f, u, seen)
                elif u.args and u.args[0] == op and n in STRUCT:
                    if n in CUTS:
                        r.add(("cut", "%s at %s" % (n, u.where())))
                    fmt = n in ("sprintf", "snprintf")
                    for k, a in enumerate(u.args[1:]):
                        if fmt and k == (0 if n == "sprintf" else 1):
                            continue
                        if n == "basic_string" and k == 1 and self.isalloc(f, a):
                            continue
                        if a[0] == "c":
                            if n in ("operator<<", "operator+=", "push_back", "put") and 0 < a[1] < 256:
                                r.add(("lit", chr(a[1])))
                            continue
                        if self.textual(f, a):
                            r |= self.of(f, a, seen)
                    if n == "operator<<":
                        r |= self.chain(f, u, seen)
                elif u.args and u.args[0] == op and n in CUTS:
                    r.add(("cut", "%s at %s" % (n, u.where())))
                elif op in u.args:
                    k = u.args.index(op)
                    g = self.p.fns.get(u.callee)
                    if g is not None and g.blocks and self.p.q(g.name).startswith("ccgl") and self.writes(g, k):
                        r.add(("fn", self.p.q(g.name)))
            elif u.op == "getelementptr":
                for x in f.uses().get(("v", u.id), []):
                    if x.op == "store" and x.args[1] == ("v", u.id):
                        r |= self.of(f, x.args[0], seen)
                    elif x.op == "call" and x.callee and x.args and x.args[0] == ("v", u.id) and self.last(x.callee) in STRUCT:
                        n = self.last(x.callee)
                        if n in CUTS:
                            r.add(("cut", "%s at %s" % (n, x.where())))
                        for k, a in enumerate(x.args[1:]):
                            if n in ("sprintf", "snprintf") and k == (0 if n == "sprintf" else 1):
                                continue
                            if a[0] != "c" and self.textual(f, a):
                                r |= self.of(f, a, seen)
                        if n == "operator<<":
                            r |= self.chain(f, x, seen)
        return r

    def isalloc(self, f, a):
        return a[0] == "v" and f.insts[a[1]].op == "alloca" and "allocator" in str(f.insts[a[1]].d.get("at"))

    def writes(self, g, k):
        k -= 1 if g.sret else 0
        t = g.dity[1 + k] if g.dity and len(g.dity) > 1 + k else ""
        return "const" not in t

    def chain(self, f, u, seen):
        """s << a << b: the results of << are the stream"""
        r = set()
        for x in f.uses().get(("v", u.id), []):
            if x.op == "call" and x.callee and self.last(x.callee) == "operator<<" and x.args[0] == ("v", u.id):
                for a in x.args[1:]:
                    if a[0] == "c":
                        if 0 < a[1] < 256:
                            r.add(("lit", chr(a[1])))
                    elif a[0] != "fn" and self.textual(f, a):
                        r |= self.of(f, a, seen)
                r |= self.chain(f, x, seen)
        return r

    def containers(self, f, op, seen):
        """the container behind an iterator or element access"""
        if op in seen:
            return set()
        seen.add(op)
        if op[0] != "v":
            return {op}
        i = f.insts[op[1]]
        if i.op == "alloca":
            r = set()
            src = False
            for u in f.uses().get(op, []):
                vs = []
                if u.op == "store" and u.args[1] == op:
                    vs = [u.args[0]]
                elif u.op == "call" and u.callee and u.d.get("sret") and u.args[0] == op and self.last(u.callee) in ("begin", "end", "cbegin", "rbegin"):
                    vs = [u.args[1]]
                elif u.op == "getelementptr":
                    vs = [x.args[0] for x in f.uses().get(("v", u.id), []) if x.op == "store" and x.args[1] == ("v", u.id)]
                elif u.op == "call" and u.callee and self.last(u.callee) in ("__normal_iterator", "operator=") and u.args[0] == op:
                    vs = u.args[1:2]
                for v in vs:
                    src = True
                    r |= self.containers(f, v, seen)
            return r if src else {op}
        if i.op == "call" and i.callee and i.args:
            return self.containers(f, i.args[1] if i.d.get("sret") else i.args[0], seen)
        if i.op in ("getelementptr", "bitcast"):
            return self.containers(f, i.args[0], seen)
        if i.op == "load":
            return self.containers(f, i.args[0], seen)
        if i.op == "phi":
            return set(x for v, b in i.args for x in self.containers(f, v, seen))
        return {op}
