"""C11: a failed step makes the operation fail."""
from paths import Walker, NN
from grid import header_writes

TECH = "path-disjunctive failure propagation: from every call of an operation that can fail, with its result fixed to failure, no return of success is reached; typestate of output streams and written datasets"
NOTE = ("Failing steps are the calls of the library's own operations that report by bool, null or a negative number and do something (their effect summary is not empty), and the calls of GDAL, GridFS and the C "
        "library that read, write, make or remove. Callers are the library's functions that can report; constructors, void functions and the main functions of the applications cannot.")

# external operations: result that stands for failure
EXT = {"GDALRasterBand::RasterIO": 3, "remove": -1, "mkdir": -1, "rmdir": -1, "rename": -1, "unlink": -1, "opendir": 0, "fopen": 0, "GDALOpen": 0, "GDALDriver::Create": 0,
       "mongoc_gridfs_file_save": 0, "mongoc_gridfs_file_remove": 0, "mongoc_gridfs_file_list_error": 1, "mongoc_cursor_error": 1, "mongoc_gridfs_file_writev": -1, "mongoc_stream_readv": -1, "mongoc_stream_read": -1, "mongoc_collection_insert_one": 0,
       "mongoc_collection_drop": 0, "mongoc_database_drop": 0, "mongoc_database_get_collection_names_with_opts": 0, "mongoc_client_get_database_names_with_opts": 0, "mongoc_client_get_gridfs": 0,
       "mongoc_gridfs_find_one_with_opts": 0, "mongoc_client_new_from_uri": 0, "mongoc_uri_new": 0, "fwrite": 0, "fread": 0, "fclose": -1, "fflush": -1, "fputs": -1}
# failing to open something need not be a failure of the caller: another way to the same end may follow
OPENING = ("opendir", "fopen", "GDALOpen", "mongoc_client_get_gridfs", "mongoc_gridfs_find_one_with_opts")
OUT = ("basic_ofstream", "basic_fstream")
TESTS = ("fail", "good", "bad", "operator!", "operator bool", "rdstate")


def last(p, n):
    return p.q(n).split("::")[-1] if n else ""


def reports(f):
    """how a function reports success: 'bool', 'int', 'ptr' or None"""
    if not f.dity or not f.blocks or f.sret:
        return None
    t = f.dity[0]
    if t in ("bool", "i1"):
        return "bool"
    r = [i for i in f.all_insts() if i.op == "ret" and i.args]
    if not r:
        return None
    if t == "int":
        vs = [v for i in r for v in leaves(f, i.args[0]) if v[0] != "undef"]
        ext = lambda v: v[0] == "v" and f.insts[v[1]].op == "call" and f.insts[v[1]].callee and EXT.get(f.prog.q(f.insts[v[1]].callee)) == -1  # the status of a system call handed on
        return "int" if all(v[0] == "c" or ext(v) for v in vs) and any(v[0] == "c" and sgn(v[1]) < 0 for v in vs) else None
    if any(v[0] == "null" for i in r for v in leaves(f, i.args[0])):
        return "ptr"
    return None


def sgn(v):
    return v - (1 << 32) if v >= 1 << 31 and v < 1 << 32 else v


def sgn32(v, ty):
    n = int(ty[1:])
    return v - (1 << n) if v >= 1 << (n - 1) else v


def leaves(f, op, seen=None):
    seen = set() if seen is None else seen
    if op in seen:
        return []
    seen.add(op)
    if op[0] == "v":
        i = f.insts[op[1]]
        if i.op == "phi":
            return [x for v, b in i.args for x in leaves(f, v, seen)]
        if i.op == "select":
            return leaves(f, i.args[1], seen) + leaves(f, i.args[2], seen)
    return [op]


def success(kind, v):
    if kind == "bool":
        return isinstance(v, int) and v & 1 == 1
    if kind == "int":
        return isinstance(v, int) and sgn(v) >= 0
    return v == NN


class Fail:
    def __init__(self, ctx):
        self.p, self.S, self.E = ctx.prog(), ctx.sym(), ctx.effects()
        p = self.p
        self.funcs = [f for f in p.project() if f.blocks]
        self.kind = dict((f.name, reports(f)) for f in self.funcs)
        self.never = {}
        self.ops = {}
        for f in self.funcs:
            k = self.kind[f.name]
            if k in ("bool", "int") and (self.E.summary(f) or any(i.op == "call" and i.callee and p.q(i.callee) in ("remove", "rmdir", "rename", "unlink") for i in f.all_insts())) and self.canfail(f, k) and not self.query(f):
                self.ops[f.name] = (f, 0 if k == "bool" else -1)
        self._nul = {}

    def canfail(self, f, k):
        """some return is not a constant success"""
        for i in f.all_insts():
            if i.op == "ret" and i.args:
                for v in leaves(f, i.args[0]):
                    if v[0] != "c" or not success(k, v[1]):
                        return True
        return False

    def query(self, f):
        """its effects are only the flags and caches of the object itself or out-parameters are absent and the result is the answer (predicates)"""
        q = last(self.p, f.name)
        return q.startswith(("Is", "Has", "operator")) or q in ("ReleaseSubset", "StringMatch", "FloatEqual")

    def slots(self, i):
        """places that the call fills: addresses of pointers handed over"""
        f = i.fn
        g = self.p.fns.get(i.callee)
        out = set()
        for k, a in enumerate(i.args):
            if a[0] == "v" and f.insts[a[1]].op == "alloca" and f.insts[a[1]].d.get("at") == "ptr" or a[0] == "a" and g is not None and f.this != a and self.outptr(f, a[1]):
                out.add(a)
        return out

    def outptr(self, f, k):
        lead = (1 if f.this else 0) + (1 if f.sret else 0)
        try:
            t = f.dity[1 + k]
        except IndexError:
            return False
        return t.replace(" ", "").endswith("*&")

    def false_if_null(self, name, k):
        """the call reports failure when argument k is null"""
        key = (name, k)
        if key not in self._nul:
            self._nul[key] = False
            f = self.p.fns.get(name)
            if f is not None and f.blocks and name in self.ops:
                got = []
                w = Walker(f, 4000)

                def step(x, st, env, w):
                    if x.op == "ret":
                        got.append(w.val(x.args[0], env))
                        return None
                    return [(st, None)]
                w.run([(0, 0, {("a", k): 0}, 0)], step)
                self._nul[key] = bool(got) and not w.overflow and all(v == self.ops[name][1] for v in got)
        return self._nul[key]

    def again(self, i):
        """the call is reached again after it succeeded, i.e. repeating it is no retry"""
        f = i.fn
        hit = []
        w = Walker(f)

        def step(x, st, env, w):
            if x.id == i.id:
                hit.append(x)
                return None
            return [(st, None)] if x.op != "ret" else None
        ok = 1 if self.failvalue(i) == 0 else 0
        w.run([(i.blk, i.idx + 1, {("v", i.id): ok}, 0)], step)
        return bool(hit) or w.overflow

    def failvalue(self, i):
        if i.callee in self.ops:
            return self.ops[i.callee][1]
        return EXT.get(self.p.q(i.callee))

    def swallowed(self, i, skip=()):
        """return reached with success although the call failed"""
        f = i.fn
        kind = self.kind[f.name]
        fv = self.failvalue(i)
        bad = []
        retry = not self.again(i)
        w = Walker(f, 30000)
        tracked = frozenset(self.slots(i) | self.still_null(i))

        good = 1 if fv == 0 else 0
        same = []

        def step(x, st, env, w):
            if x.op == "ret":
                v = w.val(x.args[0], env) if x.args else None
                if success(kind, v):
                    bad.append(x)
                elif isinstance(v, tuple) and v[0] == "result" and v[1] in self.after(i, good):
                    same.append(x)  # what is answered is the result of a later step that is taken whether or not this one failed
                return None
            if x.op in ("icmp", "xor", "zext", "trunc"):
                for a in x.args:
                    v = env.get(a)
                    if isinstance(v, tuple) and v[0] == "result":
                        return [(st, {("v", x.id): v})]
            if x.op == "load" and x.ty == "ptr" and x.args[0] in st:
                return [(st, {("v", x.id): 0})]
            if x.op == "store" and x.args[1] in st:
                v = w.val(x.args[0], env)
                return [(st if v == 0 else st - {x.args[1]}, None)]
            if x.op == "call":
                q = self.p.q(x.callee) if x.callee else ""
                if x.id == i.id:
                    return None if retry else [(st, {("v", x.id): good})]  # the next of several: it may well succeed
                if q in ("operator new", "operator new[]"):
                    return [(st, {("v", x.id): NN})]
                if x.callee in self.ops and any(w.val(a, env) == 0 and a[0] != "c" and self.false_if_null(x.callee, k) for k, a in enumerate(x.args)):
                    return [(st, {("v", x.id): self.ops[x.callee][1]})]
                t = set(a for a in x.args if a in st)
                ch = {("v", x.id): ("result", x.id)} if x.callee in self.ops else None
                if t and not self.leaves_null(x):
                    return [(st - t, ch)]
                return [(st, ch)]
            return [(st, None)]
        g = self.p.fns.get(i.callee)
        obj = self.S.expr(f, i.args[0]) if g is not None and g.this and i.args else None

        def edge(b, s, st, env):
            """what the step was to provide is there all the same: a member of its object is found to be non-null"""
            if obj is None:
                return st
            for sc, c, pol in f.cond_edges(b):
                if sc == s and c is not None and c[0] == "v":
                    x = f.insts[c[1]]
                    if x.op == "icmp" and any(a[0] == "null" for a in x.args) and (x.d["p"] == "ne") == pol:
                        o = [a for a in x.args if a[0] == "v"]
                        e = self.S.expr(f, o[0]) if o else None
                        if e and e[0] == "ld" and e[1][0] == "fld" and e[1][1] == obj and b in f.reach(i.blk):
                            return None
            return st
        w.run([(i.blk, i.idx + 1, {("v", i.id): fv}, tracked)], step, edge)
        if not bad and not w.overflow:
            env = self.first(i, w)
            if env:
                env[("v", i.id)] = fv
                w.run([(i.blk, i.idx + 1, env, tracked)], step, edge)
        bad = bad or same
        if not bad and retry and kind == "bool":
            bad = self.always(i, fv)
        return (bad[0] if bad else None), w.overflow

    def first(self, i, w):
        """loop variables as they are when the loops around the step are entered, unless the step is not reached then"""
        f = i.fn
        env = {}
        for h, body in f.natural_loops().items():
            if i.blk in body:
                for j in f.blocks[h]:
                    if j.op == "phi":
                        vs = set(v for v, pb in j.args if pb not in body)
                        v = vs.pop() if len(vs) == 1 else None
                        if v is not None and (v[0] == "c" or v[0] == "null"):
                            env[("v", j.id)] = v[1] if v[0] == "c" else 0
        if not env:
            return None
        for b in range(len(f.blocks)):
            if b != i.blk and f.dominates(b, i.blk):
                es = f.cond_edges(b)
                for s, c, pol in [(e[0], e[1], e[2] if len(e) > 2 else True) for e in es]:
                    if c is not None and c[0] != "case" and s != b and f.dominates(s, i.blk) and f.pred(s) == [b]:
                        v = w.val(c, env)
                        if isinstance(v, int) and bool(v & 1) != pol:
                            return None
        return env

    def after(self, i, good):
        """operations that are reached when the step succeeded"""
        if not hasattr(self, "_after"):
            self._after = {}
        key = (i.fn.name, i.id)
        if key not in self._after:
            got = set()
            w = Walker(i.fn, 30000)

            def step(x, st, env, w):
                if x.op == "call" and x.callee in self.ops:
                    got.add(x.id)
                return [(st, None)] if x.op != "ret" and x.id != i.id else None
            w.run([(i.blk, i.idx + 1, {("v", i.id): good}, 0)], step)
            self._after[key] = got
        return self._after[key]

    def errors(self, f):
        """[(message, return of success that follows)] of messages that say that something went wrong"""
        out = []
        kind = self.kind[f.name]
        for i in f.all_insts():
            if i.op != "call" or not i.callee or last(self.p, i.callee) not in ("StatusMessage", "operator<<", "printf", "puts", "fprintf"):
                continue
            t = next((x for x in (self.text(f, a) for a in i.args) if x), None)
            if not t or not t.lower().lstrip().startswith("error"):
                continue
            bad = []
            w = Walker(f, 30000)

            def step(x, st, env, w):
                if x.op == "ret":
                    if x.args and success(kind, w.val(x.args[0], env)):
                        bad.append(x)
                    return None
                return [(st, None)]
            w.run([(i.blk, i.idx + 1, {}, 0)], step)
            out.append((i, bad[0] if bad and not w.overflow else None))
        return out

    def text(self, f, a):
        from ascio import lit
        try:
            return lit(self.p, self.S, f, a)
        except Exception:
            return None

    def always(self, i, fv):
        """every attempt fails: with the attempts counted, success is returned although none succeeded"""
        f = i.fn
        env = {("v", i.id): fv}
        loops = [h for h, body in f.natural_loops().items() if i.blk in body]
        if not loops:
            return []
        for h in loops:
            body = f.natural_loops()[h]
            for j in f.blocks[h]:
                if j.op == "phi":
                    for v, pb in j.args:
                        if pb not in body and v[0] == "c":
                            env[("v", j.id)] = v[1]
        bad = []
        w = Walker(f, 30000)

        def step(x, st, env, w):
            if x.op == "ret":
                if x.args and success("bool", w.val(x.args[0], env)):
                    bad.append(x)
                return None
            if x.id == i.id:
                return [(st, {("v", x.id): fv})]
            if x.op in ("add", "sub") and x.ty in ("i32", "i64"):
                a, b = w.val(x.args[0], env), w.val(x.args[1], env)
                if isinstance(a, int) and isinstance(b, int):
                    v = a + sgn32(b, x.ty) if x.op == "add" else a - b
                    return [(st, {("v", x.id): v if abs(v) <= 64 else None})]
                if ("v", x.id) in env:
                    return [(st, {("v", x.id): None})]
            return [(st, None)]
        w.run([(i.blk, i.idx + 1, env, 0)], step)
        return [] if w.overflow else bad

    def still_null(self, i):
        """local pointers that nothing has filled before the call"""
        f = i.fn
        out = set()
        for x in f.all_insts():
            if x.op == "alloca" and x.d.get("at") == "ptr":
                o = ("v", x.id)
                init = False
                for u in f.uses().get(o, []):
                    if u.op == "load":
                        continue
                    if u.op == "store" and u.args[1] == o and u.args[0][0] == "null":
                        init = init or f.dominates(u.blk, i.blk)
                        continue
                    if u.op == "call" and self.leaves_null(u):
                        continue
                    if u.id == i.id or (u.blk != i.blk or u.idx > i.idx) and i.blk not in f.reach(u.blk):
                        continue
                    break
                else:
                    if init:
                        out.add(o)
        return out

    def leaves_null(self, x):
        q = last(self.p, x.callee) if x.callee else ""
        return q.startswith(("Release", "BatchRelease"))

    def looked_at(self, i):
        f = i.fn
        todo, seen = [("v", i.id)], set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            for u in f.uses().get(o, []):
                if u.op in ("br", "switch", "ret", "store", "call", "select"):
                    return True
                todo.append(("v", u.id))
        return False

    def slot_tested(self, i, fetch):
        """instead of the result, the pointer that the call fills (or that another operation on the same object fills) is tested afterwards"""
        f = i.fn
        sl = set() if fetch else self.slots(i)
        objs = [a for a in i.args[:1]]
        r = f.reach(i.blk) | {i.blk}
        for x in f.all_insts():  # what is filled goes into another operation that fails without it
            if not fetch and x.op == "call" and x.blk in r and x.callee in self.ops and x.id != i.id:
                for k, a in enumerate(x.args):
                    if a[0] == "v" and f.insts[a[1]].op == "load" and f.insts[a[1]].args[0] in sl and self.false_if_null(x.callee, k):
                        sl = sl | self.slots(x)
        for x in f.all_insts():
            if fetch and x.op == "call" and x.blk in r and x.callee in self.p.fns and x.id != i.id and x.args and objs:
                g = self.p.fns[x.callee]
                if g.this and self.S.expr(f, x.args[0]) == self.S.expr(f, objs[0]) and g.dity and g.dity[0] == "void":
                    sl = sl | self.slots(x)  # the data itself is fetched by another operation on the same object
        for x in f.all_insts():
            if x.op == "load" and x.ty == "ptr" and x.args[0] in sl and x.blk in r:
                for u in f.uses().get(("v", x.id), []):
                    if u.op == "icmp" and any(a[0] == "null" for a in u.args):
                        return True
        return False


def self_other(F, i):
    return not F.looked_at(i) and F.p.fns.get(i.callee) is not None and bool(F.p.fns[i.callee].this) and F.slot_tested(i, True)


def stream_root(p, f, op, depth=0):
    """alloca of the stream behind an operand"""
    while op[0] == "v" and depth < 60:
        depth += 1
        i = f.insts[op[1]]
        if i.op == "alloca":
            return op
        if i.op in ("getelementptr", "bitcast"):
            op = i.args[0]
        elif i.op == "call" and i.args and (last(p, i.callee) in ("operator<<", "put", "write", "flush", "endl") if i.callee else False):
            op = i.args[0]
        else:
            return None
    return None


def streams(p, f):
    out = {}
    for i in f.all_insts():
        if i.op == "call" and i.callee and i.args and i.args[0][0] == "v" and f.insts[i.args[0][1]].op == "alloca":
            n = last(p, i.callee)
            if n in OUT:
                out[i.args[0]] = i
    return out


def tested_inside(p, f, k, depth=0):
    """a helper that is handed the stream tests its state and answers"""
    if depth > 3 or not f.blocks:
        return False
    for i in f.all_insts():
        if i.op == "call" and i.callee:
            for a in i.args[:1]:
                o = a
                while o[0] == "v" and f.insts[o[1]].op in ("getelementptr", "bitcast"):
                    o = f.insts[o[1]].args[0]
                if o == ("a", k) and last(p, i.callee) in TESTS:
                    return True
    return False


def stream_paths(p, f, s, ctor, kind):
    """a return of success reached while what was written last has not been tested"""
    bad = []
    w = Walker(f, 30000)

    def step(x, st, env, w):
        if x.op == "ret":
            v = w.val(x.args[0], env) if x.args else None
            if st == 1 and (success(kind, v) or kind == "bool" and v is None):
                bad.append(x)
            return None
        if x.op == "call" and x.callee and any(stream_root(p, f, a) == s for a in x.args):
            n = last(p, x.callee)
            if n in TESTS:
                return [(0, None)]
            if n.startswith("~"):
                return [(st, None)]
            if n in ("is_open", "width", "precision", "setf", "rdbuf", "clear") or n in OUT:
                return [(st, None)]
            g = p.fns.get(x.callee)
            k = [k for k, a in enumerate(x.args) if stream_root(p, f, a) == s][0]
            if g is not None and g.blocks and f.name != g.name and p.q(g.name).startswith("ccgl") and tested_inside(p, g, k):
                return [(0, None)]
            return [(1, None)]
        return [(st, None)]
    w.run([(ctor.blk, ctor.idx + 1, {}, 0)], step)
    return bad[0] if bad else None


def opened(p, f, s, ctor, kind):
    """a write reached without a test that the stream is open"""
    bad = []
    w = Walker(f, 30000)

    def step(x, st, env, w):
        if x.op == "call" and x.callee and any(stream_root(p, f, a) == s for a in x.args):
            n = last(p, x.callee)
            if n in TESTS or n == "is_open":
                return None
            if n == "operator<<" or n == "write" or n == "put":
                bad.append(x)
                return None
        return [(st, None)] if x.op != "ret" else None
    w.run([(ctor.blk, ctor.idx + 1, {}, 0)], step)
    return bad[0] if bad else None


def closing(p, f, kind):
    """[(GDALClose call, return of success that does not ask for errors)] in functions that create datasets"""
    out = []
    if not any(i.op == "call" and i.callee and p.q(i.callee) in ("GDALDriver::Create", "GDALCreate", "GDALDriver::CreateCopy", "GDALCreateCopy") for i in f.all_insts()):
        return out
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee) in ("GDALClose", "GDALDataset::Close"):
            bad = []
            w = Walker(f, 30000)
            used = bool(f.uses().get(("v", i.id)))

            def step(x, st, env, w):
                if x.op == "ret":
                    if x.args and success(kind, w.val(x.args[0], env)):
                        bad.append(x)
                    return None
                if x.op == "call" and x.callee and p.q(x.callee) == "CPLErrorReset":
                    return [(1, None)]  # nothing can be asked for any more
                if st == 0 and x.op == "call" and x.callee and (p.q(x.callee).startswith("CPLGetLastError") and f.uses().get(("v", x.id))):
                    return None
                if st == 0 and x.op == "call" and x.callee and asks(p, x.callee):
                    return None
                return [(st, None)]
            if not used:
                w.run([(i.blk, i.idx + 1, {}, 0)], step)
            out.append((i, bad[0] if bad else None))
    return out


LISTS = {"mongoc_gridfs_file_list_next": "mongoc_gridfs_file_list_error", "mongoc_cursor_next": "mongoc_cursor_error"}


def ended(p, f, kind):
    """[(step of a cursor, return of success that is reached without asking whether the cursor ended by an error)]"""
    out = []
    for i in f.all_insts():
        if i.op != "call" or not i.callee or p.q(i.callee) not in LISTS:
            continue
        err = LISTS[p.q(i.callee)]
        bad = []
        w = Walker(f, 30000)

        def step(x, st, env, w):
            if x.op == "ret":
                v = w.val(x.args[0], env) if x.args else None
                if success(kind, v) or v is None:
                    bad.append(x)
                return None
            if x.op == "call" and x.callee and calls(p, x.callee, err) and f.uses().get(("v", x.id)):
                return None
            if x.op == "call" and x.id == i.id:
                return None
            return [(st, None)]
        w.run([(i.blk, i.idx + 1, {("v", i.id): 0}, 0)], step)
        out.append((i, bad[0] if bad else None))
    return out


def calls(p, name, what, depth=0):
    if p.q(name) == what:
        return True
    g = p.fns.get(name)
    if g is None or not g.blocks or depth > 2 or not p.q(name).startswith("ccgl"):
        return False
    return any(i.op == "call" and i.callee and calls(p, i.callee, what, depth + 1) for i in g.all_insts())


def asks(p, name, depth=0):
    g = p.fns.get(name)
    if g is None or not g.blocks or depth > 2 or not p.q(name).startswith("ccgl"):
        return False
    return any(i.op == "call" and i.callee and (p.q(i.callee).startswith("CPLGetLastError") or asks(p, i.callee, depth + 1)) for i in g.all_insts())


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    F = Fail(ctx)
    rep.rule("with the result of a failing step fixed to failure no path of a reporting function reaches a return of a constant success; a retry (the step is left as soon as it succeeds) may follow")
    rep.rule("the result of a step that can fail is looked at, or the pointer it fills is tested")
    rep.rule("a local output stream is tested after it was opened before anything is written, and after the last write or close before success is returned")
    rep.rule("after a created dataset is closed the errors of flushing it are asked for before success is returned")
    rep.rule("when a list of the database comes to its end, success is returned only after asking whether it ended by an error")
    rep.rule("the reader of text rasters succeeds only if the number of values equals rows times columns")
    n = 0
    for f in F.funcs:
        kind = F.kind[f.name]
        name = last(p, f.name)
        if not kind or name == "main":
            continue
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            fv = F.failvalue(i)
            if fv is None:
                continue
            q = p.q(i.callee)
            if f.name == i.callee:
                continue
            n += 1
            what = q.split("::")[-1]
            other = self_other(F, i)
            if q not in OPENING and not other:
                b, over = F.swallowed(i)
                rep.ob(b is None, "%s in %s" % (what, name), i.where(), "%s: after a failed %s %s" % (name, what, "success is not reported" if b is None else "success is returned at %s" % b.where()))
            used = F.looked_at(i) or other or F.slot_tested(i, False)
            rep.ob(used, "%s in %s looked at" % (what, name), i.where(), "%s: the result of %s is %s" % (name, what, "looked at" if used else "dropped"))
        for s, c in streams(p, f).items():
            o = opened(p, f, s, c, kind)
            rep.ob(o is None, "stream opened in %s" % name, (o or c).where(), "%s: %s" % (name, "the stream is tested before it is written" if o is None else "written without a test that the stream could be opened"))
            b = stream_paths(p, f, s, c, kind)
            rep.ob(b is None, "stream written in %s" % name, (b or c).where(), "%s: %s" % (name, "the state of the stream is tested after the last write" if b is None else "success is returned without a test of the stream after the last write or close"))
            rep.count("output streams")
        for i, b in F.errors(f):
            rep.ob(b is None, "error message in %s" % name, i.where(), "%s: after the error message %s" % (name, "success is not reported" if b is None else "success is returned at %s" % b.where()))
            rep.count("error messages")
        for i, b in ended(p, f, kind):
            rep.ob(b is None, "end of a list in %s" % name, i.where(), "%s: %s" % (name, "it is asked whether the list ended by an error" if b is None else "success can be returned at %s although the list may have ended by an error" % b.where()))
            rep.count("lists of the database")
        for i, b in closing(p, f, kind):
            rep.ob(b is None, "close in %s" % name, i.where(), "%s: %s" % (name, "errors of flushing are asked for" if b is None else "success is returned at %s without asking whether closing the dataset wrote everything" % b.where()))
            rep.count("created datasets closed")
    rep.count("failing steps", n)
    rep.need(n, 40, "failing steps")
    rep.need(len(F.ops), 20, "operations that report")
    for f in F.funcs:
        if not any(i.op == "call" and last(p, i.callee) == "LoadPlainTextFile" for i in f.all_insts()) or not any(k == "NROWS" for k, *_ in header_writes(p, S, f)):
            continue
        ws = [w for w in header_writes(p, S, f) if w[0] == "NROWS"]
        ok = any(counted(x) for w in ws for x in S.facts(f, w[3].blk))
        rep.ob(ok, "count in %s" % last(p, f.name), ws[0][3].where(), "%s: %s" % (last(p, f.name), "as many values as cells" if ok else "success does not imply that as many values as cells were read"))


def counted(x):
    return x[0] == "eq" and len(x) == 3 and any(has_size(a) and has_mul(b) for a, b in ((x[1], x[2]), (x[2], x[1])))


def walk(e):
    if isinstance(e, tuple):
        yield e
        for x in e[1:]:
            yield from walk(x)


def has_size(e):
    return any(t and t[0] == "call" and str(t[1]).endswith("size") for t in walk(e))


def has_mul(e):
    return any(t and t[0] == "bin" and t[1] == "mul" for t in walk(e))
