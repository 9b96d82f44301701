"""C13: deletion only of what was asked for."""
import re
from prov import Prov

TECH = "effect confinement (who may reach a deleting call) with text provenance of every deleted path and branch facts at every deletion and descent"
NOTE = ("POSIX branch of the sources (the Windows branch is not compiled here). Paths are followed through std::string, string streams, character buffers and containers of file names; the file system may change while a directory is walked.")

DELETE = {"remove": 0, "unlink": 0, "rmdir": 0, "truncate": 0, "removeat": 1, "unlinkat": 1, "VSIUnlink": 0, "VSIRmdir": 0, "VSIRmdirRecursive": 0}
DELETE_LIBC = ("remove", "unlink")
FORBID = ("rename", "renameat", "system", "popen", "execl", "execlp", "execv", "execvp", "execve", "ftruncate", "VSIRename", "GDALDriver::Delete", "GDALDeleteDataset", "GDALDriver::Rename", "nftw", "ftw", "posix_spawn", "symlink", "link")
NAMED = re.compile(r"^(Delete|Clean|Remove|Erase)")


class Del:
    def __init__(self, ctx):
        self.p, self.S = ctx.prog(), ctx.sym()
        self.P = Prov(self.p, self.S)
        self.funcs = [f for f in self.p.project() if f.blocks]
        self.targets = {}  # function name -> argument index of the path that it deletes
        self.descends = set()
        for f in self.funcs:
            if any(i.op == "call" and i.callee and self.last(i.callee) == "readdir" for i in f.all_insts()):
                pass
        for _ in range(6):
            n = len(self.targets)
            for f in self.funcs:
                for i, a in self.sites(f):
                    for k in self.plain(f, a) if not self.writer(f, i, a) else ():
                        self.targets.setdefault(f.name, k)
            if len(self.targets) == n:
                break
        for f in self.funcs:
            if f.name in self.targets and (self.opens(f) or any(i.op == "call" and i.callee and self.fills(f, i) for i in f.all_insts())):
                self.descends.add(f.name)
        for _ in range(4):
            for f in self.funcs:
                if f.name in self.targets and any(i.callee in self.descends and not realdir(self, f, i.blk, a)[0] for i, a in self.sites(f)):
                    self.descends.add(f.name)

    def last(self, n):
        return self.p.q(n).split("::")[-1] if n else ""

    def sites(self, f):
        out = []
        for i in f.all_insts():
            if i.op == "call" and i.callee:
                q = self.p.q(i.callee)
                if q in DELETE and len(i.args) > DELETE[q]:
                    out.append((i, i.args[DELETE[q]]))
                elif i.callee in self.targets:
                    out.append((i, i.args[self.targets[i.callee]]))
        return out

    def plain(self, f, a):
        """indexes of the arguments that the path is, unchanged"""
        r = self.P.of(f, a)
        if r and all(x[0] == "param" for x in r):
            return [x[1] for x in r]
        return []

    def writer(self, f, i, a):
        """the function goes on to write the file it deletes"""
        r = self.P.of(f, a)
        if not any(x[0] == "param" for x in r):
            return False
        after = f.reach(i.blk) | {i.blk}
        for x in f.all_insts():
            o = opened(self, f, x)
            if o is not None and x.blk in after and self.P.of(f, o) == r:
                return True
        return False

    def opens(self, f):
        return [i for i in f.all_insts() if i.op == "call" and i.callee and self.last(i.callee) in ("opendir", "fdopendir", "scandir")]

    def fills(self, f, i):
        """own function that puts directory entries into a container argument: index of (directory, container)"""
        g = self.p.fns.get(i.callee)
        if g is None or not g.blocks or g.name == f.name or not self.p.q(g.name).startswith("ccgl"):
            return None
        return self.filler(g)

    def filler(self, g):
        for i in g.all_insts():
            if i.op == "call" and i.callee and self.last(i.callee) in ("emplace_back", "push_back", "insert", "emplace") and i.args:
                for c in self.P.containers(g, i.args[0], set()):
                    if c[0] == "a":
                        r = set(x for a in i.args[1:] for x in self.P.of(g, a))
                        if any(x[0] == "entry" for x in r):
                            return c[1], i, r
        return None


def dirs(D, f, entry):
    """provenance of the directory that the entry was read from"""
    i = f.insts[entry]
    r = set()
    for o in D.opens(f):
        r |= D.P.of(f, o.args[0])
    return r


def walk(e):
    if isinstance(e, tuple):
        yield e
        for x in e[1:]:
            yield from walk(x)


def excluded(D, f, blk, what):
    """the facts at the block exclude an entry of that name"""
    from ascio import lit
    for x in D.S.facts(f, blk):
        if x[0] not in ("ne", "eq", "true", "false"):
            continue
        txt = False
        first = False
        fn = None
        for t in walk(x):
            if t and t[0] == "str" and t[1] == what:
                txt = True
            if t and t[0] == "call" and len(t) > 1:
                n = str(t[1]).split("::")[-1]
                if n in ("strcmp", "strcasecmp", "operator==", "operator!=", "compare", "StringMatch", "strncmp"):
                    fn = n
                    for y in t[2:]:
                        if isinstance(y, tuple) and y and y[0] == "loc" and y[2] == f.name and lit(D.p, D.S, f, ("v", y[1])) == what:
                            txt = True
            if t == ("c", 46) or t == ("c", 46, 8) or t and t[0] == "c" and t[1] == 46:
                first = True
        if txt and fn:
            if fn in ("strcmp", "strcasecmp", "compare", "strncmp"):
                if x[0] == "ne" or x[0] == "true":
                    return True
            elif fn == "operator!=":
                if x[0] in ("true", "ne"):
                    return True
            elif x[0] in ("false", "eq"):
                return True
        if first and x[0] == "ne" and not fn:
            return True
    return False


def realdir(D, f, blk, a):
    """the facts say that lstat found a directory"""
    st = None
    for x in D.S.facts(f, blk):
        if x[0] == "eq":
            for u, v in ((x[1], x[2]), (x[2], x[1])):
                if v and v[0] == "c" and v[1] == 0o040000 and u[0] == "bin" and u[1] == "and":
                    for t in walk(u):
                        if t and t[0] == "fld" and str(t[2]).endswith("st_mode"):
                            st = t[1]
    kinds = set()
    for x in D.S.facts(f, blk):
        for t in walk(x):
            if t and t[0] == "call" and str(t[1]).split("::")[-1] in ("lstat", "stat", "fstatat", "lstat64", "stat64", "DirectoryExists") :
                kinds.add(str(t[1]).split("::")[-1])
    ent = [t for x in D.S.facts(f, blk) for t in walk(x) if t and t[0] == "fld" and str(t[2]).endswith("d_type")]
    if any(x[0] == "eq" and any(t and t[0] == "fld" and str(t[2]).endswith("d_type") for t in walk(x)) and any(t and t[0] == "c" and t[1] == 4 for t in walk(x)) for x in D.S.facts(f, blk)):
        return True, "d_type"
    if st is None:
        return False, ", ".join(sorted(kinds)) or "nothing"
    # which call filled the buffer
    how = set()
    for i in f.all_insts():
        if i.op == "call" and i.callee and D.last(i.callee) in ("lstat", "stat", "lstat64", "stat64") and D.S.expr(f, i.args[1]) == st:
            how.add(D.last(i.callee))
    return how and all(h.startswith("lstat") for h in how), ", ".join(sorted(how)) or "nothing"


def check(ctx, rep):
    D = Del(ctx)
    p, S, P = D.p, D.S, D.P
    rep.rule("every path handed to a deleting call is the path the caller named, or that directory, a separator and the name of one of its entries, never cut")
    rep.rule("an entry is deleted or descended into only where the facts exclude \".\" and \"..\"; a descent only where lstat (not stat) found a directory")
    rep.rule("deleting calls are made by the delete and clean operations and what only they call, and by a writer for the one file it writes; no renaming, truncating or shell calls")
    rep.rule("subdirectories are descended into only where the flag of the caller is true")
    rep.rule("files opened for writing are named by an argument")
    n = 0
    for f in D.funcs:
        name = D.last(f.name)
        for i in f.all_insts():
            if i.op == "call" and i.callee and (p.q(i.callee) in FORBID):
                rep.ob(False, "%s in %s" % (p.q(i.callee), name), i.where(), "%s calls %s" % (name, p.q(i.callee)))
        for i, a in D.sites(f):
            n += 1
            what = D.last(i.callee)
            key = "%s in %s" % (what, name)
            r = P.of(f, a)
            cut = sorted(x[1] for x in r if x[0] == "cut")
            if any(x[0] in ("entry", "elem") for x in r):
                P.resolved = []
                P.of(f, a)
                links = [c for c in list(P.resolved) if any(x[0] in ("entry", "elem") for b in c.args for x in P.of(c.fn, b))]
                rep.ob(not links, key + " entry itself", i.where(), "%s: %s" % (name, "the entry itself is deleted" if not links else "the entry was resolved before, so that the target of a symbolic link is deleted"))
            rep.ob(not cut, key + " whole", i.where(), "%s: the deleted path %s" % (name, "is not cut" if not cut else "may be cut off by " + cut[0]))
            entries = [x for x in r if x[0] == "entry"]
            elems = [x for x in r if x[0] == "elem"]
            rest = set(x for x in r if x[0] not in ("entry", "elem", "cut"))
            odd = [x for x in rest if not (x[0] == "param" or x[0] == "lit" and x[1] in ("/", "\\", "//"))]
            if D.writer(f, i, a) and i.callee not in D.descends:
                pass
            elif elems:
                ok, why = False, "elements of a container of unknown origin"
                for e in elems:
                    ok, why = listed(D, f, e[1])
                    if not ok:
                        break
                rep.ob(ok and not odd and not entries, key, i.where(), "%s: the deleted path is %s" % (name, "an entry of the named directory" if ok and not odd else why if not ok else str(odd[0])))
            elif entries:
                d = dirs(D, f, entries[0][1])
                want = set(x for x in d if x[0] == "param")
                have = set(x for x in rest if x[0] == "param")
                sep = any(x[0] == "lit" for x in rest)
                ok = not odd and want == have and bool(want) and sep
                rep.ob(ok, key, i.where(), "%s: the deleted path %s" % (name, "is made of the named directory, a separator and an entry of it" if ok else "is not made of the directory that was read, a separator and its entry"))
                for w in (".", ".."):
                    ok = excluded(D, f, i.blk, w)
                    rep.ob(ok, key + ' not "%s"' % w, i.where(), '%s: "%s" is %s' % (name, w, "excluded" if ok else "not excluded where an entry is deleted"))
                if i.callee in D.descends:
                    ok, how = realdir(D, f, i.blk, a)
                    rep.ob(ok, key + " directory", i.where(), "%s: descends %s" % (name, "only into directories (by %s)" % how if ok else "into entries that are not known from lstat to be directories (decided by %s)" % how))
            else:
                ok = bool(r) and not odd and any(x[0] == "param" for x in rest) and len(set(x for x in rest if x[0] == "param")) == 1 and not any(x[0] == "lit" for x in rest)
                rep.ob(ok, key, i.where(), "%s: the deleted path is %s" % (name, "the one the caller named" if ok else "not the one the caller named"))
                if i.callee in DELETE_LIBC and not D.opens(f) and f.name not in D.descends:
                    P.resolved = []
                    P.of(f, a)
                    ok = not P.resolved
                    rep.ob(ok, key + " itself", i.where(), "%s: %s" % (name, "the named file itself is deleted" if ok else "the path was resolved before, so that the target of a symbolic link is deleted"))
            if i.callee in D.descends and (entries or f.name not in D.targets or not D.opens(f)):
                flags = [k for k in range(len(f.params)) if boolean(f, k)]
                if flags:
                    ok = any(x[0] == "true" and any(t == ("arg", k) for k in flags for t in walk(x)) for x in S.facts(f, i.blk))
                    rep.ob(ok, key + " asked", i.where(), "%s: subdirectories are deleted %s" % (name, "only if the caller asked for it" if ok else "without regard to what the caller asked for"))
            ok, why = may(D, f, i, a)
            rep.ob(ok, key + " allowed", i.where(), "%s %s" % (name, why))
    for f in D.funcs:
        name = D.last(f.name)
        for i in f.all_insts():
            if i.op == "call" and i.callee and i.callee not in D.targets and i.callee != f.name and name != "main":
                g = p.fns.get(i.callee)
                if g is not None and g.blocks and p.q(g.name).startswith("ccgl") and NAMED.match(D.last(g.name)) and D.sites(g) and not any(D.writer(g, x, a) for x, a in D.sites(g)):
                    ok = bool(NAMED.match(name)) or only(D, f)
                    n += 1
                    rep.ob(ok, "%s in %s allowed" % (D.last(g.name), name), i.where(), "%s %s" % (name, "is a delete or clean operation" if ok else "empties a directory although it is no delete or clean operation"))
    rep.count("deletions", n)
    rep.need(n, 3, "deletions")
    m = 0
    for f in D.funcs:
        name = D.last(f.name)
        if name == "main":
            continue
        for i in f.all_insts():
            a = opened(D, f, i)
            if a is None:
                continue
            m += 1
            r = P.of(f, a)
            ok = any(x[0] == "param" for x in r) or not r
            rep.ob(ok, "%s writes" % name, i.where(), "%s: the file opened for writing is %s" % (name, "named by an argument" if ok else "not named by an argument"))
    rep.count("files opened for writing", m)


def boolean(f, k):
    j = 1 + k - (1 if f.sret else 0)
    return bool(f.dity) and len(f.dity) > j and j > 0 and f.dity[j] == "bool"


def only(D, f, seen=()):
    """only delete and clean operations call the function"""
    cs = D.p.callers().get(f.name, [])
    return bool(cs) and f.name not in seen and all(NAMED.match(D.last(c.fn.name)) or only(D, c.fn, seen + (f.name,)) for c in cs)


def opened(D, f, i):
    """path operand of a call that opens a file for writing"""
    if i.op != "call" or not i.callee:
        return None
    n = D.last(i.callee)
    q = D.p.q(i.callee)
    if n in ("basic_ofstream",) and len(i.args) > 1 and i.args[0][0] == "v":
        return i.args[1]
    if n == "open" and "ofstream" in q and len(i.args) > 1:
        return i.args[1]
    if q in ("GDALDriver::Create", "GDALDriver::CreateCopy"):
        return i.args[1]
    if q == "fopen":
        m = D.P.of(f, i.args[1])
        return i.args[0] if any(x[0] != "lit" or set(x[1]) & set("wa+") for x in m) else None
    return None


def listed(D, f, cont):
    """a local container filled by an own function with entries of the directory the caller named"""
    p, P = D.p, D.P
    fillers = []
    for u in f.uses().get(cont, []):
        if u.op != "call" or not u.callee:
            continue
        n = D.last(u.callee)
        if n in ("begin", "end", "size", "empty", "vector", "~vector", "operator[]", "at", "clear", "cbegin", "cend", "front", "back"):
            continue
        if n in ("emplace_back", "push_back", "insert"):
            r = set(x for a in u.args[1:] for x in P.of(f, a))
            fillers.append((u, None, r))
            continue
        fillers.append((u, D.fills(f, u), None))
    if not fillers:
        return False, "an element of a container that nothing fills"
    for u, g, r in fillers:
        if r is not None:
            ent = [x for x in r if x[0] == "entry"]
            if not ent or any(x[0] == "cut" for x in r) or not all(excluded(D, f, u.blk, w) for w in (".", "..")):
                return False, "an element that is not an entry of the named directory"
            if set(x for x in r if x[0] == "param") != set(x for x in dirs(D, f, ent[0][1]) if x[0] == "param"):
                return False, "an entry put behind another directory than the one that was read"
            continue
        if not g:
            return False, "an element of a container filled by %s" % D.last(u.callee)
        k, ins, r = g
        G = p.fns[u.callee]
        ent = [x for x in r if x[0] == "entry"][0]
        d = set(x for x in dirs(D, G, ent[1]) if x[0] == "param")
        own = set(x for x in r if x[0] == "param")
        if d != own or len(d) != 1:
            return False, "composed by %s of another directory than the one it reads" % D.last(u.callee)
        if any(x[0] == "cut" for x in r):
            return False, "possibly cut off by %s" % D.last(u.callee)
        if [x for x in r if not (x[0] in ("param", "entry") or x[0] == "lit" and x[1] in ("/", "\\"))] or not any(x[0] == "lit" for x in r):
            return False, "composed by %s of something else than directory, separator and entry" % D.last(u.callee)
        for w in (".", ".."):
            if not excluded(D, G, ins.blk, w):
                return False, 'possibly "%s" (not excluded by %s)' % (w, D.last(u.callee))
        a = u.args[list(d)[0][1]]
        x = P.of(f, a)
        if len(x) != 1 or list(x)[0][0] != "param":
            return False, "an entry of a directory that is not the one the caller named"
    return True, ""


def may(D, f, i, a, seen=None):
    """is the function entitled to delete?"""
    p = D.p
    name = D.last(f.name)
    if NAMED.match(name):
        return True, "is a delete or clean operation"
    if D.writer(f, i, a):
        return True, "writes the file that it deletes first"
    seen = seen or set()
    if f.name in seen:
        return True, "is only called by delete and clean operations"
    seen.add(f.name)
    cs = p.callers().get(f.name, [])
    if f.name in D.targets and cs:
        for c in cs:
            ok, _ = may(D, c.fn, c, c.args[D.targets[f.name]], seen)
            if not ok:
                return False, "deletes for %s, which is no delete or clean operation and does not write that file" % D.last(c.fn.name)
        return True, "is only called by delete and clean operations"
    return False, "deletes although it is no delete or clean operation and does not write that file"
