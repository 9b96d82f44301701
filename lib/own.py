"""Who holds a resource, along every path: from the call that acquires it to the end of the function.
A resource is followed through the values and local variables that hold it; paths on which it is known to be null are left."""
import grid
from paths import Walker

# releasing call -> (position of the argument, family)
RELEASE = {"operator delete": (0, "new"), "operator delete[]": (0, "new[]"), "free": (0, "malloc"), "VSIFree": (0, "CPLMalloc"), "CPLFree": (0, "CPLMalloc"),
           "CSLDestroy": (0, "string list"), "GDALClose": (0, "GDAL dataset"), "fclose": (0, "FILE"), "pclose": (0, "pipe"), "closedir": (0, "directory"), "close": (0, "descriptor"),
           "bson_destroy": (0, "bson_t"), "bson_free": (0, "bson memory"), "bson_strfreev": (0, "bson string vector"), "freeifaddrs": (0, "ifaddrs"), "bson_destroy_with_steal": (0, "bson_t")}
ACQUIRE = {"operator new": "new", "operator new[]": "new[]", "malloc": "malloc", "calloc": "malloc", "realloc": "malloc", "strdup": "malloc", "strndup": "malloc",
           "CPLMalloc": "CPLMalloc", "CPLCalloc": "CPLMalloc", "CPLStrdup": "CPLMalloc", "VSIMalloc": "CPLMalloc", "VSICalloc": "CPLMalloc", "CPLRealloc": "CPLMalloc",
           "CSLSetNameValue": "string list", "CSLAddString": "string list", "CSLAddNameValue": "string list", "CSLTokenizeString2": "string list", "CSLDuplicate": "string list", "CSLLoad": "string list",
           "GDALOpen": "GDAL dataset", "GDALOpenEx": "GDAL dataset", "GDALDriver::Create": "GDAL dataset", "GDALDriver::CreateCopy": "GDAL dataset",
           "fopen": "FILE", "popen": "pipe", "opendir": "directory", "fdopen": "FILE", "tmpfile": "FILE",
           "bson_new": "bson_t", "bson_copy": "bson_t", "bson_new_from_json": "bson_t", "bson_new_from_data": "bson_t", "bson_sized_new": "bson_t",
           "bson_as_json": "bson memory", "bson_as_canonical_extended_json": "bson memory", "bson_as_relaxed_extended_json": "bson memory", "bson_strdup": "bson memory", "bson_malloc": "bson memory", "bson_malloc0": "bson memory", "bson_strdup_printf": "bson memory",
           "mongoc_uri_new": "mongoc_uri", "mongoc_uri_new_for_host_port": "mongoc_uri", "mongoc_uri_new_with_error": "mongoc_uri", "mongoc_uri_copy": "mongoc_uri",
           "mongoc_client_new": "mongoc_client", "mongoc_client_new_from_uri": "mongoc_client", "mongoc_client_new_from_uri_with_error": "mongoc_client",
           "mongoc_client_get_database": "mongoc_database", "mongoc_client_get_default_database": "mongoc_database", "mongoc_client_get_collection": "mongoc_collection", "mongoc_database_get_collection": "mongoc_collection", "mongoc_client_get_gridfs": "mongoc_gridfs",
           "mongoc_client_get_database_names_with_opts": "bson string vector", "mongoc_client_get_database_names": "bson string vector",
           "mongoc_database_get_collection_names_with_opts": "bson string vector", "mongoc_database_get_collection_names": "bson string vector",
           "mongoc_collection_find_with_opts": "mongoc_cursor", "mongoc_collection_find": "mongoc_cursor", "mongoc_collection_aggregate": "mongoc_cursor", "mongoc_client_find_databases_with_opts": "mongoc_cursor", "mongoc_database_find_collections_with_opts": "mongoc_cursor",
           "mongoc_gridfs_create_file": "mongoc_gridfs_file", "mongoc_gridfs_create_file_from_stream": "mongoc_gridfs_file", "mongoc_gridfs_find_one": "mongoc_gridfs_file", "mongoc_gridfs_find_one_with_opts": "mongoc_gridfs_file", "mongoc_gridfs_find_one_by_filename": "mongoc_gridfs_file", "mongoc_gridfs_file_list_next": "mongoc_gridfs_file",
           "mongoc_gridfs_find": "mongoc_gridfs_file_list", "mongoc_gridfs_find_with_opts": "mongoc_gridfs_file_list", "mongoc_stream_gridfs_new": "mongoc_stream", "mongoc_stream_file_new_for_path": "mongoc_stream"}
# the argument is handed over to the call, whose result takes its place
REPLACES = {"CSLSetNameValue": 0, "CSLAddString": 0, "CSLAddNameValue": 0, "realloc": 0, "CPLRealloc": 0}
KEEPS = ("_destroy",)


def releases(q):
    """(argument position, family) of a releasing library function"""
    if q in RELEASE:
        return RELEASE[q]
    if q.startswith("mongoc_") and q.endswith("_destroy"):
        return (0, q[:-len("_destroy")])
    if q.startswith("bson_") and q.endswith("_destroy"):
        return (0, q[:-len("_destroy")])
    return None


class Own:
    def __init__(self, p):
        self.p = p
        self.funcs = list(p.project())
        self.byname = {f.name: f for f in p.fns.values() if f.blocks}
        self._ret = {}
        self._arg = {}
        self._out = {}
        self._fresh = {}
        self.busy = set()
        self.undecided = 0
        self.mismatch = []  # releases of the wrong family
        self.released = []  # (release, family) discharged obligations for the family rule

    # ---- acquiring calls
    def family(self, f, i):
        if i.op != "call" or not i.callee:
            return None
        g = self.byname.get(i.callee)
        if g is not None:
            return self.ret_family(g) if i.ty == "ptr" else None
        q = self.p.q(i.callee)
        if q in ("realpath", "getcwd"):
            return "malloc" if i.args[1 if q == "realpath" else 0][0] == "null" else None
        if q == "operator new" and len(i.args) > 1 and "PKc" not in i.callee and i.callee in ("_ZnwmPv", "_ZnamPv"):
            return None
        return ACQUIRE.get(q)

    def ret_family(self, g):
        r = self._ret.get(g.name)
        if r is not None or g.name in self._ret:
            return r
        self._ret[g.name] = None
        fam = None
        for i in g.all_insts():
            if i.op != "ret" or not i.args:
                continue
            for op, b in grid.split(g, i.args[0], i.blk):
                while op[0] == "v" and g.insts[op[1]].op == "bitcast":
                    op = g.insts[op[1]].args[0]
                if op[0] == "v" and g.insts[op[1]].op == "call":
                    x = self.family(g, g.insts[op[1]])
                    fam = fam or x
        self._ret[g.name] = fam
        return fam

    # ---- the walk
    def walk(self, f, starts, fam, limit=20000, self_inst=None):
        """starts: [(block, index, env, holders)]; returns the set of outcomes (kind, family or None, return value or None, instruction id)
        kinds: lost (at an instruction), leak (at a return), returned, out k (left in *argument k), kept k (still argument k's), released, escaped"""
        out = set()
        starts = [(b, k, {**self.known(f, b), **env}, st) for b, k, env, st in starts]
        main = f.name == "main"
        heads = f.natural_loops()

        def ret_value(i, w, env):
            if not i.args:
                return None
            v = w.val(i.args[0], env)
            return v & 1 if isinstance(v, int) and i.args[0][0] != "null" and f.dity and f.dity[0] in ("i1", "bool") else v if isinstance(v, int) and i.args[0][0] == "c" else None

        def null(st, env, w):
            return any(t[0] in ("v", "a") and isinstance(w.val(t, env), int) and w.val(t, env) == 0 for t in st)

        def step(i, st, env, w):
            # st: holders still valid
            me = ("v", i.id)
            if i.op == "load":
                a = i.args[0]
                t = tok(f, a)
                if t in st:
                    return [(st | {me}, {me: env[t]} if t in env else None)]
                if me in st:
                    return drop(i, st - {me})
                return [(st, None)]
            if i.op in ("bitcast", "freeze", "select"):
                if any(x in st for x in i.args):
                    return [(st | {me}, None)]
                if me in st:
                    return drop(i, st - {me})
                return [(st, None)]
            if i.op == "store":
                v, a = i.args[0], i.args[1]
                t = tok(f, a)
                if v in st:
                    if t is None:
                        if local_struct(f, a):
                            return [(st, None)]  # lent to a structure of this function
                        out.add(("escaped", fam, None, i.id))
                        return None
                    return [(st | {t}, None)]
                if t in st:
                    if v[0] == "null" and len([x for x in st if x[0] in ("slot", "out")]) <= 1 and not any(x[0] == "v" or x[0] == "a" for x in st):
                        return drop(i, st - {t})
                    return drop(i, st - {t})
                return [(st, None)]
            if i.op == "ret":
                rv = ret_value(i, w, env)
                if i.args and self.stands(f, i.args[0], st):
                    out.add(("returned", fam, None, i.id))
                elif any(t[0] == "out" for t in st):
                    for t in st:
                        if t[0] == "out":
                            out.add(("out", fam, rv, t[1]))
                elif any(t[0] == "a" for t in st):
                    for t in st:
                        if t[0] == "a":
                            out.add(("kept", fam, rv, t[1]))
                else:
                    out.add(("leak", fam, rv, i.id))
                return None
            if i.op == "insertvalue" and any(x in st for x in i.args):
                out.add(("escaped", fam, None, i.id))
                return None
            if i.op in ("ptrtoint",) and i.args[0] in st:
                return [(st, None)]
            if i.op == "call":
                return self.call(f, i, st, env, w, fam, out, drop)
            if me in st:
                return drop(i, st - {me})
            return [(st, None)]

        def drop(i, st):
            if not st:
                out.add(("lost", fam, None, i.id))
                return None
            return [(st, None)]

        def edge(b, s, st, env):
            if null(st, env, w):
                return None
            if b in heads and s not in heads[b] and self.kept_in_loop(f, heads[b], st):
                out.add(("escaped", fam, None, f.blocks[b][-1].id))  # a loop over the elements of the holder: it runs at least once
                return None
            ph = [x for x in f.blocks[s] if x.op == "phi"]
            if ph:
                new = set(st)
                for x in ph:
                    new.discard(("v", x.id))
                for x in ph:
                    for v, pb in x.args:
                        if pb == b and v in st:
                            new.add(("v", x.id))
                if main and s in heads and any(("v", x.id) in new for x in ph):
                    out.add(("escaped", fam, None, f.blocks[s][0].id))  # kept for the rest of the program
                    return None
                if not new:
                    out.add(("lost", fam, None, f.blocks[s][0].id if f.blocks[s] else -1))
                    return None
                st = frozenset(new)
            return frozenset(t for t in st if t[0] != "v" or w.live(t, s) or len(st) == 1) or st
        w = Walker(f, limit=limit)
        w.run(starts, step, edge)
        if w.overflow:
            self.undecided += 1
        return out

    def known(self, f, blk):
        """what the branches that lead to a block say"""
        env = {}
        w = Walker(f)
        for b in range(len(f.blocks)):
            for e in f.cond_edges(b) or []:
                if e[1] is not None and e[1][0] == "v" and len(e) > 2 and isinstance(e[2], bool) and b != blk and f.edge_dominates(b, e[0], blk):
                    w.learn(e[1], e[2], env)
        return dict((k, v) for k, v in env.items() if w.live(k, blk))

    def kept_in_loop(self, f, loop, st):
        return any(i.op == "store" and tok(f, i.args[1]) is None and self.stands(f, i.args[0], st, True) for b in loop for i in f.blocks[b])

    def stands(self, f, op, st, loads=False):
        while op[0] == "v":
            if op in st:
                return True
            i = f.insts[op[1]]
            if loads and i.op == "load" and tok(f, i.args[0]) in st:
                return True
            if i.op not in ("bitcast", "getelementptr", "freeze"):
                return False
            op = i.args[0]
        return op in st

    def call(self, f, i, st, env, w, fam, out, drop):
        me = ("v", i.id)
        if me in st:
            r = drop(i, st - {me})
            if r is None:
                return None
            st = r[0][0]
        if not i.callee:
            if any(self.stands(f, a, st) for a in i.args[1:]):
                out.add(("escaped", fam, None, i.id))
                return None
            return [(st, None)]
        g = self.byname.get(i.callee)
        q = self.p.q(i.callee)
        if g is None:
            rel = releases(q)
            if rel and rel[0] < len(i.args) and self.stands(f, i.args[rel[0]], st):
                out.add(("released", rel[1], None, i.id))
                return None
            if rel and rel[0] < len(i.args) and i.args[rel[0]][0] == "v" and ("obj", i.args[rel[0]][1]) in st:
                out.add(("released", rel[1], None, i.id))
                return None
            if q in REPLACES and self.stands(f, i.args[REPLACES[q]], st):
                return [(frozenset({me}), None)]
            if q.startswith("std::") or q.startswith("__gnu_cxx"):
                for n, a in enumerate(i.args):
                    if tok(f, a) in st and tok(f, a) is not None and (n > 0 or q.split("::")[-1] in ("make_pair", "forward", "move", "pair", "swap")) or n > 0 and self.stands(f, a, st) and q.split("::")[-1] in ("push_back", "emplace_back", "insert", "emplace", "operator=", "unique_ptr", "shared_ptr", "reset"):
                        out.add(("escaped", fam, None, i.id))
                        return None
                return [(st, None)]
            if i.callee.startswith("llvm.memcpy"):
                return [(st, None)]
            for n, a in enumerate(i.args):
                if tok(f, a) in st and tok(f, a) is not None and not i.callee.startswith("llvm."):
                    out.add(("escaped", fam, None, i.id))  # an unknown function gets hold of the variable
                    return None
            return [(st, None)]
        # own function
        results = [(st, None)]
        for n, a in enumerate(i.args):
            t = tok(f, a)
            if t is not None and t in st:
                rs = self.out_summary(g, n, fam)
                results = self.apply(f, i, st, t, rs, fam, out, results, True)
            elif self.stands(f, a, st) and not (n == 0 and g.this):
                rs = self.arg_summary(g, n, fam)
                results = self.apply(f, i, st, a, rs, fam, out, results, False)
            if not results:
                return None
        return results

    def apply(self, f, i, st, t, rs, fam, out, results, isout):
        """disjuncts after a call that may release, keep or hand over what it was given"""
        if rs is None:
            return results
        me = ("v", i.id)
        new = []
        for s0, ch in results:
            for kind, k2, rv in rs:
                c2 = dict(ch or {})
                if rv is not None:
                    if c2.get(me, rv) != rv:
                        continue
                    c2[me] = rv
                if kind in ("kept", "out"):
                    new.append((s0, c2))
                elif kind == "released":
                    out.add(("released", k2, None, i.id))
                elif kind == "escaped":
                    out.add(("escaped", k2, None, i.id))
                elif kind == "lost":
                    s1 = s0 - {t}
                    if not s1:
                        out.add(("lost", fam, None, i.id))
                    else:
                        new.append((s1, c2))
        return new

    # ---- summaries
    def arg_summary(self, g, n, fam):
        """what becomes of a resource passed as argument n: {(kept/released/escaped, family, return value)}"""
        key = (g.name, n, fam)
        if key in self._arg:
            return self._arg[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        o = self.walk(g, [(0, 0, {("a", n): "nonnull"}, frozenset({("a", n)}))], fam)
        self.busy.discard(key)
        r = set()
        for kind, fm, rv, x in o:
            if kind in ("kept", "released", "escaped"):
                r.add((kind, fm, rv))
            elif kind == "returned":
                r.add(("kept", fm, None))
            elif kind in ("lost", "leak", "out"):
                r.add(("escaped" if kind == "out" else "kept", fm, rv))
        self._arg[key] = frozenset(r) or frozenset({("kept", fam, None)})
        return self._arg[key]

    def out_summary(self, g, n, fam):
        """what becomes of a resource held by the variable whose address is argument n"""
        key = (g.name, n, fam)
        if key in self._out:
            return self._out[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        o = self.walk(g, [(0, 0, {}, frozenset({("out", n)}))], fam)
        self.busy.discard(key)
        r = set()
        for kind, fm, rv, x in o:
            if kind in ("released", "escaped", "out", "lost"):
                r.add((kind, fm, rv))
            elif kind == "leak":
                r.add(("lost", fm, rv))
            elif kind == "returned":
                r.add(("kept", fm, rv))
        self._out[key] = frozenset(r) or frozenset({("kept", fam, None)})
        return self._out[key]

    def fresh(self, g):
        """what the function leaves acquired in the variables whose addresses it gets: {(argument, family, return value)}"""
        if g.name in self._fresh:
            return self._fresh[g.name]
        self._fresh[g.name] = frozenset()
        r = set()
        if any(x == "ptr" or True for x in (g.dity or [])):
            for st in self.starts(g):
                for kind, fm, rv, x in self.walk(g, [st[1]], st[2]):
                    if kind == "out":
                        r.add((x, fm, rv))
        self._fresh[g.name] = frozenset(r)
        return self._fresh[g.name]

    def starts(self, f):
        """[(acquiring call, start of the walk, family)]"""
        res = []
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            fam = self.family(f, i)
            q = self.p.q(i.callee)
            if q.startswith("bson_append_") and i.args and i.args[0][0] == "v" and f.insts[i.args[0][1]].op == "alloca":
                res.append((i, (i.blk, i.idx + 1, {}, frozenset({("obj", i.args[0][1])})), "bson_t"))
            if fam:
                res.append((i, (i.blk, i.idx + 1, {}, frozenset({("v", i.id)})), fam))
            g = self.byname.get(i.callee)
            if g is not None and i.callee != f.name:
                for k, fm, rv in sorted(self.fresh(g), key=str):
                    if k < len(i.args):
                        t = tok(f, i.args[k])
                        if t is not None:
                            res.append((i, (i.blk, i.idx + 1, {("v", i.id): rv} if rv is not None else {}, frozenset({t})), fm))
        return res


def tok(f, a):
    """the variable an address stands for: a local variable or what argument k points at"""
    if a[0] == "a":
        return ("out", a[1])
    if a[0] == "v" and f.insts[a[1]].op == "alloca":
        return ("slot", a[1])
    return None


def local_struct(f, a):
    """the address is a member of a plain C structure among the local variables"""
    n = 0
    while a[0] == "v" and n < 6:
        i = f.insts[a[1]]
        if i.op == "alloca":
            t = i.d.get("at") or ""
            return "struct." in t and "::" not in t and n > 0
        if i.op not in ("getelementptr", "bitcast"):
            return False
        a = i.args[0]
        n += 1
    return False
