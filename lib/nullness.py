"""Which pointers may be null, and where a pointer that may be null is dereferenced."""
import re
import grid
from paths import Walker, MB

# calls whose result may be null
MAYBE = {"GDALOpen", "GDALOpenEx", "GDALDataset::GetRasterBand", "GDALDriver::Create", "GDALDriver::CreateCopy", "GDALDriverManager::GetDriverByName", "GDALGetDriverByName",
         "opendir", "readdir", "realpath", "getcwd", "getenv", "strchr", "strrchr", "strstr", "strtok", "strtok_r", "strpbrk", "fopen", "fgets", "popen", "dlopen",
         "gmtime", "localtime", "gmtime_r", "localtime_r", "asctime", "asctime_r", "ctime", "ctime_r", "setlocale",
         "mongoc_client_new", "mongoc_client_new_from_uri", "mongoc_client_new_from_uri_with_error", "mongoc_client_get_gridfs", "mongoc_client_get_database_names_with_opts",
         "mongoc_database_get_collection_names_with_opts", "mongoc_gridfs_create_file_from_stream", "mongoc_gridfs_file_list_next",
         "mongoc_gridfs_find_one_with_opts", "mongoc_gridfs_find_one_by_filename", "mongoc_gridfs_find_one", "mongoc_gridfs_file_get_filename", "mongoc_gridfs_file_get_metadata",
         "mongoc_gridfs_file_get_md5", "mongoc_gridfs_file_get_content_type", "mongoc_uri_new", "mongoc_uri_new_with_error", "mongoc_uri_new_for_host_port",
         "mongoc_uri_get_database", "malloc", "calloc", "realloc", "strdup", "VSIMalloc", "VSIFOpenL", "CSLFetchNameValue", "CPLGetConfigOption"}
# external functions that dereference arguments: name prefix -> positions
EXT = {"readdir": (0,), "closedir": (0,), "strlen": (0,), "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1), "strncat": (0, 1), "strcmp": (0, 1), "strncmp": (0, 1),
       "strcasecmp": (0, 1), "strncasecmp": (0, 1), "memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "strftime": (3,), "mktime": (0,), "asctime_r": (0, 1), "asctime": (0,),
       "fclose": (0,), "fgets": (2,), "fread": (3,), "fwrite": (3,), "fseek": (0,), "ftell": (0,), "atoi": (0,), "atof": (0,), "strtol": (0,), "strtod": (0,), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1),
       "bson_iter_init": (0, 1), "bson_iter_init_find": (0, 1), "bson_copy": (0,), "bson_copy_to": (0, 1), "bson_concat": (0, 1), "bson_as_json": (0,), "bson_has_field": (0,),
       "mongoc_gridfs_find_one_with_opts": (0, 1), "mongoc_gridfs_find_with_opts": (0, 1), "mongoc_collection_find_with_opts": (0, 1), "mongoc_client_get_database": (0, 1), "mongoc_client_get_collection": (0, 1, 2),
       "mongoc_client_get_gridfs": (0, 1), "mongoc_stream_readv": (0,), "mongoc_stream_read": (0,), "mongoc_stream_write": (0,), "mongoc_stream_close": (0,), "mongoc_client_new_from_uri": (0,)}
PAIRED = {"pos_data_": "pos_idx_", "pos_idx_": "pos_data_"}  # always set and released together
SMARTFREE = re.compile(r"~|(^|::)(operator delete|swap|addressof|forward|move|__addressof)$")
NULLOK = ("_destroy", "_free", "_cleanup", "_init", "_strfreev")


def ext_sinks(q):
    last = q.split("::")[-1]
    for pre in ("__isoc23_", "__isoc99_"):
        if last.startswith(pre):
            last = last[len(pre):]
    if q in EXT or last in EXT:
        return EXT.get(q, EXT.get(last))
    if q.startswith(("mongoc_", "bson_")):
        return () if q.endswith(NULLOK) else (0,)
    if q.startswith("GDAL") and "::" in q:
        return (0,)
    if q.startswith("llvm.mem"):
        return (0, 1) if "memset" not in q else (0,)
    return ()


def strip(f, op):
    while op[0] == "v" and f.insts[op[1]].op in ("bitcast", "freeze"):
        op = f.insts[op[1]].args[0]
    return op


def base(f, op):
    while op[0] == "v" and f.insts[op[1]].op in ("getelementptr", "bitcast", "freeze"):
        op = f.insts[op[1]].args[0]
    return op


class Nullness:
    def __init__(self, p, S):
        self.p, self.S = p, S
        self.funcs = list(p.project())
        self.byname = {f.name: f for f in self.funcs}
        self.nullable = {}
        self._sink = {}
        self._busy = set()
        self._keeps = {}
        self.find_nullable()

    # -- own functions that may return null
    def find_nullable(self):
        changed = True
        while changed:
            changed = False
            for f in self.funcs:
                if f.name in self.nullable:
                    continue
                for i in f.all_insts():
                    if i.op != "ret" or not i.args:
                        continue
                    for op, b in grid.split(f, i.args[0], i.blk):
                        op = strip(f, op)
                        why = None
                        if op[0] == "null":
                            why = "returns null"
                        elif op[0] == "v":
                            j = f.insts[op[1]]
                            if j.op == "call" and j.callee and (j.callee in self.nullable or self.p.q(j.callee) in MAYBE) and not self.known(f, b, self.S.expr(f, op)):
                                why = "returns the result of " + self.p.q(j.callee)
                        if why:
                            self.nullable[f.name] = why
                            changed = True
                            break

    def maybe(self, i):
        return i.op == "call" and i.callee is not None and i.ty == "ptr" and (i.callee in self.nullable or self.p.q(i.callee) in MAYBE or self.p.q(i.callee).split("::")[-1] in MAYBE and i.callee not in self.byname)

    def known(self, f, blk, e):
        return nonnull(self.S.facts(f, blk), e)

    # -- dereferences
    def derefs(self, f, i):
        """pointer operands the instruction dereferences: [(operand, how)]"""
        out = []
        if i.op == "load":
            out.append((base(f, i.args[0]), "read through"))
        elif i.op == "store":
            out.append((base(f, i.args[1]), "written through"))
        elif i.op == "call":
            if i.callee is None:
                return out
            if i.callee in self.byname:
                g = self.byname[i.callee]
                for k, a in enumerate(i.args):
                    if a[0] in ("v", "a", "null") and self.sink(g, k):
                        out.append((a if a[0] != "v" else strip(f, a), "passed to %s, which dereferences it" % self.p.q(i.callee).split("::")[-1]))
            else:
                q = self.p.q(i.callee)
                for k in ext_sinks(q):
                    if k < len(i.args):
                        out.append((base(f, i.args[k]), "passed to %s" % q))
                if q.startswith("std::") and i.callee.startswith(("_ZNSt", "_ZNKSt", "_ZNSs", "_ZNKSs")) and i.args and not i.d.get("sret") and not SMARTFREE.search(q):
                    out.append((base(f, i.args[0]), "used by %s" % q))
                if q == "std::basic_string::basic_string" and len(i.args) > 1 and "PKc" in i.callee:
                    out.append((base(f, i.args[1]), "made a string of"))
                elif q.startswith("std::") and "PKc" in i.callee and q.split("::")[-1] in ("operator=", "operator+=", "operator==", "append", "assign", "compare") and len(i.args) > 1:
                    out.append((base(f, i.args[1]), "used as text"))
                elif q in ("std::operator<<", "std::operator+", "std::operator==") and "PKc" in i.callee:
                    for a in i.args:
                        out.append((base(f, a), "used as text"))
        return out

    def sink(self, g, k):
        """the function dereferences its k-th argument on some path without having tested it"""
        key = (g.name, k)
        if key in self._sink:
            return self._sink[key]
        if key in self._busy:
            return None
        if not g.blocks:
            return None
        if k == 0 and g.this:
            self._sink[key] = "a member function"
            return self._sink[key]
        self._busy.add(key)
        r = self.first_deref(g, ("arg", k), [(0, 0)], only=("a", k))
        self._busy.discard(key)
        self._sink[key] = r
        return r

    def aliases(self, f, e):
        """expressions that stand for the value: itself, and what it was stored to"""
        out = {e}
        for i in f.all_insts():
            if i.op == "store" and self.S.expr(f, i.args[0]) == e:
                ad = self.S.expr(f, i.args[1])
                if ad[0] in ("fld", "loc"):
                    out.add(("ld", ad))
            elif i.op == "call" and i.callee in self.byname and i.args and self.byname[i.callee].this:
                for j, a in enumerate(i.args[1:], 1):
                    if a[0] in ("v", "a") and self.S.expr(f, a) == e:
                        for name in self.keeps(self.byname[i.callee], j):
                            out.add(("ld", ("fld", self.S.expr(f, i.args[0])) + name))
        return out

    def keeps(self, g, j):
        """members of the object in which the function stores its argument j"""
        key = (g.name, j)
        if key not in self._keeps:
            r = set()
            for i in g.all_insts():
                if i.op == "store" and i.args[0] == ("a", j):
                    ad = self.S.expr(g, i.args[1])
                    if ad[0] == "fld" and ad[1] == self.S.expr(g, ("a", 0)):
                        r.add(ad[2:])
            self._keeps[key] = r
        return self._keeps[key]

    def first_deref(self, f, e, starts, only=None, skip=(), writes=None, within=None):
        """first dereference reached while the value may be null: (inst, how) or None"""
        S = self.S
        al = self.aliases(f, e) if writes is None else {e}
        kn = al | set(("ld", ("fld", x[1][1], PAIRED[x[1][2]]) + x[1][3:]) for x in al if x[0] == "ld" and x[1][0] == "fld" and x[1][2] in PAIRED)
        hit = []
        cand = {}
        merged = {}
        web = self.web(f, only) if only else set()
        for i in f.all_insts():
            if i.op in ("load", "store", "call"):
                for op, how in self.derefs(f, i):
                    if op[0] == "v" and f.insts[op[1]].op == "alloca" and ("loc", op[1], f.name) != e:
                        continue
                    if op in web:
                        merged.setdefault(i.id, []).append((op, how))
                    if op == only or op[0] in ("v", "a") and S.expr(f, op) in al:
                        if within is None or within(i):
                            cand[i.id] = how
        if not cand and not merged:
            return None
        stored = {}
        for i in f.all_insts():
            if i.op == "store":
                ad = ("ld", S.expr(f, i.args[1]))
                if ad in al and S.expr(f, i.args[0]) != e:
                    stored[i.id] = True
            if writes is not None and i.op in ("store", "call") and writes(i):
                stored[i.id] = True

        def step(i, st, env, w):
            if hit:
                return None
            if i.id in cand and i.id not in skip:
                if not self.known_now(f, i, kn):
                    hit.append((i, cand[i.id]))
                return None
            for op, how in merged.get(i.id, ()):
                if w.val(op, env) == MB or w.val(op, env) == 0 and op in st:
                    hit.append((i, how))
                    return None
            if i.id in stored:
                return None
            return [(st, None)]

        def edge(b, s, st, env):
            fs = S.edge_facts(f, b, s)
            if any(nonnull(fs, a) for a in kn):
                return None
            if web:
                # which merged values stand for the tracked one
                st = set(st)
                for i in f.blocks[s]:
                    if i.op == "phi":
                        o = ("v", i.id)
                        st.discard(o)
                        if o in web:
                            for a, pb in i.args:
                                if pb == b and (a == only or a in st):
                                    st.add(o)
                st = frozenset(st)
            return st
        keep = set(("v", i.id) for i in f.all_insts() if i.op == "phi" and (i.ty in ("i1", "i8", "ptr") or any(a[0][0] in ("c", "null") for a in i.args)))
        w = Walker(f, keep=keep, limit=8000)
        if only:
            keep |= web | {only}
        w.run([(b, k, {only: MB} if web else {}, frozenset()) for b, k in starts], step, edge)
        return hit[0] if hit else None

    def null_branches(self, f, E):
        """branches on which a pointer is known to be null: [(instruction of the test, pointer expression, operand, first dereference or None)]"""
        out = []
        for b in range(len(f.blocks)):
            for x in f.cond_edges(b) or []:
                s, c = x[0], x[1]
                if c is None or c[0] != "v":
                    continue
                es = self.S.edge_facts(f, b, s) - self.S.facts(f, b)
                for t in es:
                    if t[0] != "eq" or len(t) != 3:
                        continue
                    e = t[2] if isnull(t[1]) else t[1] if isnull(t[2]) else None
                    if e is None or not isinstance(e, tuple) or e[0] not in ("ld", "arg", "call", "phi"):
                        continue
                    tst = self.test_of(f, c, e)
                    if tst is None:
                        continue
                    out.append((tst, e, b, s))
        return out

    def test_of(self, f, c, e):
        """the comparison with null behind a branch condition"""
        seen = set()
        todo = [c]
        while todo:
            o = todo.pop()
            if o[0] != "v" or o in seen:
                continue
            seen.add(o)
            i = f.insts[o[1]]
            if i.op == "icmp":
                for a, b in ((i.args[0], i.args[1]), (i.args[1], i.args[0])):
                    if b[0] == "null" and self.S.expr(f, a) == e:
                        return i
            elif i.op in ("xor", "and", "or", "trunc", "zext", "freeze", "select"):
                todo += list(i.args)
            elif i.op == "phi":
                todo += [a for a, _ in i.args]
        return None

    def web(self, f, op):
        """phis and selects that may stand for the value"""
        out, todo = set(), [op]
        heads = f.natural_loops()  # what one pass of a loop leaves for the next is not followed
        while todo:
            o = todo.pop()
            for u in f.uses().get(o, []):
                if u.op == "phi" and u.blk not in heads and ("v", u.id) not in out:
                    out.add(("v", u.id))
                    todo.append(("v", u.id))
        return out

    def known_now(self, f, i, al):
        fs = self.S.facts(f, i.blk)
        return any(nonnull(fs, a) for a in al)


def nonnull(facts, e):
    for x in facts:
        if x[0] == "ne" and len(x) == 3:
            if x[1] == e and isnull(x[2]) or x[2] == e and isnull(x[1]):
                return True
        elif x[0] == "true" and x[1] == e:
            return True
    return False


def isnull(e):
    return isinstance(e, tuple) and (e[0] == "null" or e[:2] == ("c", 0))
