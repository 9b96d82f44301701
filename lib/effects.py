"""Side-effect summaries: which memory (access paths over parameters, globals, locals) a function may write."""
from sym import Sym, subst

MAXP = 7

# non-const std member functions that do not change the object by themselves
STD_PURE = {"begin", "end", "rbegin", "rend", "find", "at", "size", "length", "empty", "data", "c_str", "back", "front", "operator[]",
            "lower_bound", "upper_bound", "operator*", "operator->", "operator==", "operator!=", "base", "count", "compare", "substr", "find_last_of",
            "find_first_of", "is_open", "str", "good", "eof", "fail", "get_allocator", "max_size", "capacity", "operator-", "operator+", "operator<", "operator bool", "operator!"}
STD_FREE_PURE = {"operator==", "operator!=", "operator+", "operator<", "operator-", "operator>", "isnan", "isinf", "modf", "distance",
                 "__distance", "make_pair", "to_string", "setprecision", "setw", "fixed", "find", "__find_if", "count", "max", "min", "fabs", "abs",
                 "pow", "sqrt", "exp", "log", "floor", "ceil", "ios_base", "operator|", "setiosflags", "setfill", "move", "forward", "addressof",
                 "numeric_limits", "__addressof", "type_info", "get", "allocator", "__new_allocator", "initializer_list", "for_each"}
STD_ALGO_WRITES = {"sort", "stable_sort", "partial_sort", "nth_element", "reverse", "fill", "fill_n", "swap", "iter_swap", "copy", "copy_n", "copy_if", "copy_backward", "move_backward", "transform", "replace",
                   "replace_if", "replace_copy", "iota", "rotate", "unique", "remove", "remove_if", "partition", "random_shuffle", "swap_ranges", "partial_sum", "generate", "make_heap", "sort_heap"}
# C functions: index of arguments written through
C_WRITES = {"memcpy": (0,), "memset": (0,), "memmove": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "sprintf": (0,),
            "snprintf": (0,), "vsnprintf": (0,), "fgets": (0,), "localtime_r": (1,), "gmtime_r": (1,), "time": (0,), "gettimeofday": (0, 1),
            "strtol": (1,), "strtoul": (1,), "strtoll": (1,), "strtoull": (1,), "strtod": (1,), "strtof": (1,), "free": (0,), "realloc": (0,), "stat": (1,), "lstat": (1,),
            "readlink": (1,), "getcwd": (0,), "sscanf": (2, 3, 4, 5, 6, 7, 8, 9), "__isoc99_sscanf": (2, 3, 4, 5, 6, 7, 8, 9), "modf": (1,), "frexp": (1,),
            "strftime": (0,), "gethostname": (0,), "strtok": (0,), "strtok_r": (0, 2), "qsort": (0,), "read": (1,), "fread": (0,), "mktime": (0,), "asctime_r": (1,), "ctime_r": (1,), "realpath": (1,),
            "bson_oid_to_string": (1,), "mbstowcs": (0,), "wcstombs": (0,), "swprintf": (0,), "vsprintf": (0,), "sprintf_s": (0,), "gcvt": (2,), "stpcpy": (0,), "memccpy": (0,),
            "uname": (0,), "fstat": (1,), "clock_gettime": (1,), "getline": (0, 1), "strptime": (2,), "div": (), "setlocale": ()}


def path_of(e):
    """(root, path tuple) of an address expression"""
    p = []
    while isinstance(e, tuple):
        t = e[0]
        if t == "fld":
            p.append("." + e[2])
            e = e[1]
        elif t == "idx":
            p.append("[]")
            e = e[1]
        elif t == "ld":
            p.append("*")
            e = e[1]
        elif t == "mapval":
            p.append("*")
            p.append("[]")
            e = e[1]
        elif t == "mapat":
            p.append("[]")
            e = e[1]
        elif t == "deref":
            p.append("[]")
            e = e[1]
        elif t == "globoff":
            return (("glob", e[1]), tuple(reversed(p)))
        elif t == "call" and len(e) > 2 and e[1].startswith("std::") and e[1].split("::")[-1] in ("begin", "end", "find", "at", "operator[]", "back", "front", "data", "base", "operator*", "operator->", "operator<<", "operator++", "c_str", "operator+", "operator-", "rbegin"):
            p.append("[]")
            e = e[2]
        else:
            break
    if not isinstance(e, tuple):
        e = ("opq",)
    return (e, tuple(reversed(p)))


class Effects:
    def __init__(self, prog, S=None):
        self.p = prog
        self.s = S or Sym(prog)
        self.sum = {}
        self.scc = None

    def resolve(self, fn, op, seen=None):
        """set of address/pointer expressions an operand may stand for (phi and select are split)"""
        seen = seen if seen is not None else set()
        if op in seen:
            return set()
        seen.add(op)
        if op[0] == "v":
            i = fn.insts[op[1]]
            if i.op == "phi":
                out = set()
                for v, b in i.args:
                    out |= self.resolve(fn, v, seen)
                return out
            if i.op == "select":
                return self.resolve(fn, i.args[1], seen) | self.resolve(fn, i.args[2], seen)
            if i.op == "getelementptr":
                out = set()
                base = i.args[0]
                full = self.s.expr(fn, op)
                be = self.s.expr(fn, base)
                for x in self.resolve(fn, base, seen):
                    out.add(repl(full, be, x))
                return out
            if i.op in ("bitcast", "addrspacecast"):
                return self.resolve(fn, i.args[0], seen)
        return {self.s.expr(fn, op)}

    def local_targets(self, fn, op):
        """write targets (root, path) for storing through operand op"""
        return set((path_of(e)[0], path_of(e)[1][:MAXP]) for e in self.resolve(fn, op))

    def inst_writes(self, fn, i):
        """set of (root expr, path) an instruction may write"""
        if i.op == "store":
            return self.local_targets(fn, i.args[1])
        if i.op in ("atomicrmw", "cmpxchg"):
            return self.local_targets(fn, i.args[0 if i.op == "atomicrmw" else 0])
        if i.op != "call":
            return set()
        return self.call_writes(fn, i)

    def call_writes(self, fn, i):
        out = set()
        c = i.callee
        if c is None:
            return out
        if c.startswith("llvm."):
            if c.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                out |= self.local_targets(fn, i.args[0])
            return out
        if c in self.p.fns:
            for (root, path) in self.summary(self.p.fns[c]):
                if root[0] == "arg" or root[0] == "this":
                    n = root[1] if root[0] == "arg" else self.p.fns[c].this[1]
                    if n < len(i.args):
                        for e in self.resolve(fn, i.args[n]):
                            r, p = path_of(e)
                            # a pointer argument: the path starts at the pointee
                            out.add((r, (p + path)[:MAXP]))
                else:
                    out.add((root, path))
            return out
        q = self.p.q(c)
        last = q.split("::")[-1]
        if q.startswith("std::"):
            dem = self.p.dem(c)
            first = 0
            if i.d.get("sret"):
                out |= self.local_targets(fn, i.args[0])
                first = 1
            if c.startswith("_ZNK"):
                return out
            if c.startswith("_ZNS") or c.startswith("_ZN9__gnu") or c.startswith("_ZNS"):
                if last in STD_PURE or last in STD_FREE_PURE:
                    return out
                if len(i.args) > first:
                    for (r, p) in self.local_targets(fn, i.args[first]):
                        out.add((r, (p + ("[]",))[:MAXP]))
                if last == "swap" and len(i.args) > 1:
                    for (r, p) in self.local_targets(fn, i.args[1]):
                        out.add((r, (p + ("[]",))[:MAXP]))
                return out
            if last in STD_FREE_PURE:
                return out
            if last in ("operator<<", "endl", "getline", "operator>>", "flush"):
                if i.args:
                    for (r, p) in self.local_targets(fn, i.args[0]):
                        out.add((r, (p + ("[]",))[:MAXP]))
                if last in ("getline", "operator>>") and len(i.args) > 1:
                    for (r, p) in self.local_targets(fn, i.args[1]):
                        out.add((r, (p + ("[]",))[:MAXP]))
                return out
            if last in STD_ALGO_WRITES:
                for a in (i.args[2:] if last in ("copy", "copy_n", "copy_if", "transform", "replace_copy", "partial_sum", "move_backward", "copy_backward") else i.args):
                    for (r, p) in self.local_targets(fn, a):
                        out.add((r, (p + ("[]",))[:MAXP]))
            return out
        for n in C_WRITES.get(c, C_WRITES.get(q, ())):
            if n < len(i.args):
                for (r, p) in self.local_targets(fn, i.args[n]):
                    out.add((r, (p + ("[]",))[:MAXP]))
        if q in ("operator delete", "operator delete[]") and i.args:
            for (r, p) in self.local_targets(fn, i.args[0]):
                out.add((r, (p + ("free",))[:MAXP]))
        if i.d.get("sret") and i.args:
            out |= self.local_targets(fn, i.args[0])
        return out

    def summary(self, f):
        """writes visible to the caller: roots this / arg n / glob (a fixed point over functions that call each other)"""
        r = self.sum.get(f.name)
        if r is not None:
            return r
        group = self.group(f)
        for g in group:
            self.sum[g.name] = set()
        for _ in range(30):
            changed = False
            for g in group:
                out = set()
                for i in g.all_insts():
                    if i.op in ("store", "call", "atomicrmw", "cmpxchg"):
                        for (root, path) in self.inst_writes(g, i):
                            if root[0] in ("this", "arg", "glob"):
                                out.add((root, path))
                if out != self.sum[g.name]:
                    self.sum[g.name] = out
                    changed = True
            if not changed or len(group) == 1 and not self.selfcall(f):
                break
        return self.sum[f.name]

    def selfcall(self, f):
        return any(i.op == "call" and i.callee == f.name for i in f.all_insts())

    def group(self, f):
        """the functions that call each other with f (strongly connected component of the call graph)"""
        if self.scc is None:
            self.scc = {}
            fns = self.p.fns
            index, low, on, stack, n = {}, {}, set(), [], 0
            for root in fns:
                if root in index:
                    continue
                work = [(root, None)]
                while work:
                    v, it = work.pop()
                    if it is None:
                        index[v] = low[v] = n
                        n += 1
                        stack.append(v)
                        on.add(v)
                        it = iter(sorted(set(i.callee for i in fns[v].all_insts() if i.op == "call" and i.callee in fns)))
                    again = False
                    for w in it:
                        if w not in index:
                            work.append((v, it))
                            work.append((w, None))
                            again = True
                            break
                        if w in on:
                            low[v] = min(low[v], low[w])
                    if again:
                        continue
                    if low[v] == index[v]:
                        c = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        for w in c:
                            self.scc[w] = c
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
        return [self.p.fns[x] for x in sorted(self.scc[f.name])]


def repl(e, a, b):
    if e == a:
        return b
    if not isinstance(e, tuple):
        return e
    return tuple(repl(x, a, b) if isinstance(x, tuple) else x for x in e)
