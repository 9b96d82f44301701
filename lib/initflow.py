"""Definite initialisation of memory cells (members of an object, scalars and arrays whose address is taken), path by path and through own callees."""
from paths import Walker, NN

SCANF = ("__isoc23_sscanf", "sscanf", "__isoc99_sscanf", "__isoc23_fscanf", "fscanf", "__isoc99_fscanf", "swscanf", "__isoc23_swscanf", "__isoc99_swscanf")
# external operations that leave the object unset when they report failure: name -> (argument, value of the result on failure)
MAYFAIL = {"stat": (1, -1), "lstat": (1, -1), "fstat": (1, -1), "localtime_r": (1, 0), "gmtime_r": (1, 0),
           "bson_iter_init": (0, 0), "bson_iter_init_find": (0, 0), "bson_iter_recurse": (1, 0), "bson_init_from_json": (0, 0), "mongoc_gridfs_file_error": (1, 0),
           "GDALRasterBand::ComputeRasterMinMax": (2, 3), "GDALComputeRasterMinMax": (2, 3), "GDALRasterBand::GetStatistics": (3, 3)}


# operations that read the text they are given: leaf name of std operations, name of C functions
STD_READS = {"operator+", "operator<<", "append", "operator+=", "operator=", "assign", "compare", "operator==", "operator!=", "basic_string", "find", "push_back"}
C_READS = {"strlen": 0, "strcmp": 0, "strncmp": 0, "strcasecmp": 0, "atoi": 0, "atof": 0, "atol": 0, "strtol": 0, "strtod": 0, "puts": 0, "perror": 0, "strchr": 0, "strstr": 0, "strdup": 0, "__isoc23_strtol": 0}


def text_args(q, i, sret):
    """arguments of the call whose text is read"""
    n = q.split("::")[-1]
    if q in C_READS:
        return (0,) if q not in ("strcmp", "strncmp", "strcasecmp", "strstr") else (0, 1)
    if q in ("strcpy", "strcat", "strncpy", "strncat"):
        return (1,)
    if q.startswith("std::") and n in STD_READS:
        return tuple(range(1, len(i.args)))
    return ()


class InitFlow:
    def __init__(self, p, S, own):
        self.p, self.S, self.own = p, S, own
        self.memo = {}
        self.busy = set()
        self.walks = 0
        self.overflows = []

    # ---- addresses
    def address(self, f, op):
        """(root, (field, ...), inside): inside means an element of an array at that path"""
        return self.addr_of(f, self.S.expr(f, op))

    def addr_of(self, f, e):
        path = []
        inside = False
        while True:
            t = e[0]
            if t == "fld":
                path.append(e[2])
                e = e[1]
            elif t == "idx":
                inside = True
                path = []
                e = e[1]
            else:
                break
        if t == "loc":
            if e[2] != f.name:
                return None
            return ("loc", e[1]), tuple(reversed(path)), inside
        if t == "arg":
            return ("arg", e[1]), tuple(reversed(path)), inside
        if t == "this" and f.this:
            return ("arg", f.this[1]), tuple(reversed(path)), inside
        return None

    def touches(self, f, op, cell):
        """how operand op, used as an address, relates to the cell: 'is' the cell (or an element of it), 'whole' an object containing it, None"""
        a = self.address(f, op)
        if a is None or a[0] != cell[0]:
            return None
        path = a[1]
        if path == cell[1]:
            return "is"
        if len(path) < len(cell[1]) and cell[1][:len(path)] == path and not a[2]:
            return "whole"
        if len(path) > len(cell[1]) and path[:len(cell[1])] == cell[1]:
            return "is"
        return None

    # ---- outcomes
    def outcomes(self, f, cell):
        """(set of (written, returned value or None) at the returns, [(instruction, text)] uses while unset)"""
        k = (f.name, cell)
        r = self.memo.get(k)
        if r is None:
            if k in self.busy:
                return {(1, None)}, []
            self.busy.add(k)
            r = self.memo[k] = self._outcomes(f, cell)
            self.busy.discard(k)
        return r

    def _outcomes(self, f, cell):
        res = set()
        uses = {}
        self.walks += 1
        rel = {}

        def kind(op):
            if op not in rel:
                rel[op] = self.touches(f, op, cell) if op[0] in ("v", "a") else None
            return rel[op]

        def step(i, st, env, w):
            o = i.op
            if o == "store":
                k = kind(i.args[1])
                if k:
                    return None
                if i.args[0][0] in ("v", "a") and kind(i.args[0]) and self.is_address(f, i.args[0]):
                    return None  # its address is kept somewhere: no longer followed
            elif o == "load":
                if kind(i.args[0]) == "is":
                    uses.setdefault(i.id, (i, "read"))
                    return None
            elif o in ("atomicrmw", "cmpxchg"):
                if kind(i.args[0]):
                    return None
            elif o == "ret":
                v = w.val(i.args[0], env) if i.args else None
                res.add((0, v if isinstance(v, int) or v == NN else None))
                return None
            elif o == "call":
                return self.call(f, i, st, env, w, kind, uses, cell)
            elif o == "phi" or o == "select":
                pass
            return [(st, None)]

        # a choice between this object and another one is not followed
        for i in f.all_insts():
            if i.op in ("phi", "select") and i.ty == "ptr":
                for a in i.args:
                    x = a[0] if i.op == "phi" else a
                    if x[0] == "v" and f.insts[x[1]].op in ("alloca", "getelementptr") and kind(x):
                        return {(1, None)}, []
        # without regard to conditions first: cheap, and mostly enough
        W = Walker(f, limit=30000, keep=frozenset())
        W.run([(0, 0, {}, 0)], step)
        if uses or res and cell[0][0] != "loc":
            res.clear()
            uses.clear()
            W = Walker(f, limit=30000)
            W.run([(0, 0, {}, 0)], step)
        if W.overflow:
            self.overflows.append((f.name, cell))
            return {(1, None)}, []
        if not res:
            res.add((1, None))
        elif self.writes_somewhere(f, kind):
            res.add((1, None))
        return res, list(uses.values())

    def is_address(self, f, op):
        return op[0] == "a" or op[0] == "v" and f.insts[op[1]].op in ("alloca", "getelementptr", "bitcast")

    def writes_somewhere(self, f, kind):
        for i in f.all_insts():
            if i.op == "store" and kind(i.args[1]):
                return True
            if i.op == "call" and any(a[0] in ("v", "a") and kind(a) for a in i.args):
                return True
        return False

    def call(self, f, i, st, env, w, kind, uses, cell):
        hits = [(n, kind(a)) for n, a in enumerate(i.args) if a[0] in ("v", "a") and self.is_address(f, a) and kind(a)]
        if not hits:
            return [(st, None)]
        if not i.callee:
            return None
        q = self.p.q(i.callee)
        g = self.p.fns.get(i.callee)
        if q.startswith("llvm."):
            if q.startswith(("llvm.memcpy", "llvm.memmove")) and [n for n, k in hits if n == 1] and not [n for n, k in hits if n == 0]:
                if [k for n, k in hits if k == "is"]:
                    uses.setdefault(i.id, (i, "copied"))
                    return None
                return [(st, None)]
            if q.startswith(("llvm.mem", "llvm.va_start", "llvm.va_copy")):
                return None
            return [(st, None)]
        if g is not None and g.blocks and i.callee in self.own:
            out = None
            for n, k in hits:
                a = self.address(f, i.args[n])
                # the callee's view: its n-th argument points to the object at a[1]
                sub = ("arg", n), cell[1][len(a[1]):] if len(a[1]) <= len(cell[1]) else ()
                o, us = self.outcomes(g, sub)
                if us:
                    uses.setdefault(i.id, (i, "used by %s" % q.split("::")[-1]))
                    return None
                if all(x[0] for x in o):
                    return None
                out = o if out is None else set((max(x[0], y[0]), x[1] if x[1] == y[1] else None) for x in out for y in o)
            r = []
            for wr, v in out:
                if not wr:
                    r.append((st, {("v", i.id): v} if v is not None and i.ty != "void" else None))
            return r or None
        if any(n in text_args(q, i, False) for n, k in hits):
            uses.setdefault(i.id, (i, "used by %s" % q.split("::")[-1]))
            return None
        if q in SCANF:
            n = hits[0][0]
            first = 2
            if n < first:
                return [(st, None)]
            return [(st, {("v", i.id): v}) for v in range(-1, n - first + 1)]
        if q in MAYFAIL:
            n, bad = MAYFAIL[q]
            if any(h[0] == n for h in hits):
                return [(st, {("v", i.id): bad})]
        return None
