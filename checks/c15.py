"""C15: no modifiable global or function-local static data that the library writes, and no use of C library routines with
hidden process-wide state."""
from sym import show, contains

TECH = "who-may-write analysis of all globals and statics plus call query over the linked IR (banned stateful routines)"
NOTE = "Covers every function of src and apps, every store, every address handed to a call. Thread-safety of GDAL, libbson and libmongoc themselves is trusted."

BANNED = {
    "gmtime": "returns a shared static", "localtime": "returns a shared static", "ctime": "returns a shared static", "asctime": "returns a shared static",
    "strtok": "keeps its position in a static", "rand": "advances a hidden generator", "srand": "sets a hidden generator", "random": "advances a hidden generator",
    "srandom": "sets a hidden generator", "drand48": "advances a hidden generator", "lrand48": "advances a hidden generator", "srand48": "sets a hidden generator",
    "setlocale": "changes the locale of the process", "localeconv": "returns a shared static", "chdir": "changes the directory of the process", "fchdir": "changes the directory of the process",
    "putenv": "changes the environment of the process", "setenv": "changes the environment of the process", "unsetenv": "changes the environment of the process", "clearenv": "changes the environment of the process",
    "umask": "changes the file mode mask of the process", "tmpnam": "may return a shared static", "tempnam": "races with other callers", "mktemp": "races with other callers",
    "strerror": "returns a shared buffer", "strsignal": "returns a shared buffer", "ttyname": "returns a shared static", "getpwnam": "returns a shared static", "getpwuid": "returns a shared static",
    "gethostbyname": "returns a shared static", "inet_ntoa": "returns a shared static", "ecvt": "returns a shared static", "fcvt": "returns a shared static", "gcvt": None,
    "dirname": "may return a shared static", "mblen": "keeps a hidden shift state", "mbtowc": "keeps a hidden shift state", "wctomb": "keeps a hidden shift state",
    "signal": "changes the signal handling of the process", "lgamma": "writes signgam", "hsearch": "uses a hidden table", "getlogin": "returns a shared static",
    "basename": None, "std::locale::global": "changes the locale of the process", "std::ios_base::sync_with_stdio": "changes all standard streams",
    "fesetround": None, "CPLSetConfigOption": "changes the configuration of the process", "GDALDestroyDriverManager": "removes the drivers of the process",
    "setvbuf": None,
}
STATEFUL_MANIP = ("std::setprecision", "std::setw", "std::setfill", "std::fixed", "std::scientific", "std::hex", "std::oct", "std::uppercase", "std::boolalpha", "std::showpoint", "std::setbase", "std::setiosflags", "std::showpos")


def is_init(f):
    return f.name.startswith(("__cxx_global_var_init", "_GLOBAL__sub_I"))


def gbase(p, fn, op, depth=0):
    """global variable an address operand is based on, or None"""
    while depth < 20:
        depth += 1
        if op[0] == "g":
            return op[1]
        if op[0] == "cg":
            op = op[1]
            continue
        if op[0] == "ce":
            return None
        if op[0] == "v":
            i = fn.insts[op[1]]
            if i.op in ("getelementptr", "bitcast", "addrspacecast"):
                op = i.args[0]
                continue
            if i.op in ("phi",):
                for v, b in i.args:
                    if v[0] in ("g", "cg"):
                        return gbase(p, fn, v, depth)
                return None
        return None


def check(ctx, rep):
    p, S, E = ctx.prog(), ctx.sym(), ctx.effects()
    rep.rule("no function of the library stores to a non-constant global or static variable or hands its address to a call that may write through it; "
             "constant statics are initialised from values that do not depend on the call; no routine with hidden process-wide state is called")
    glob = {}
    for n, g in p.globals.items():
        if g.get("proj") and not g["decl"] and g.get("dity") and not n.startswith((".str", "_ZTV", "_ZTI", "_ZTS", "__const.", "_ZGV")):
            glob[n] = g
    rep.count("variables with static storage", len(glob))
    rep.need(len(glob), 5, "variables with static storage")
    nacc = 0
    bad = {}
    for f in p.fns.values():
        if f.file and f.file.startswith(p.repo) is False and not is_init(f):
            continue
        for i in f.all_insts():
            if i.op == "store":
                g = gbase(p, f, i.args[1])
                if g in glob:
                    nacc += 1
                    if is_init(f):
                        continue
                    G = glob[g]
                    if G["dity"].startswith("const ") and not depends(S.expr(f, i.args[0])):
                        continue
                    bad.setdefault(g, (i, "is written"))
                g2 = gbase(p, f, i.args[0])
                if g2 in glob and not G_const(glob[g2]):
                    bad.setdefault(g2, (i, "has its address stored"))
            elif i.op in ("atomicrmw", "cmpxchg"):
                g = gbase(p, f, i.args[0])
                if g in glob:
                    bad.setdefault(g, (i, "is modified"))
            elif i.op == "ret" and i.args:
                g = gbase(p, f, i.args[0])
                if g in glob and not G_const(glob[g]) and f.ret == "ptr":
                    bad.setdefault(g, (i, "is handed out for modification"))
            elif i.op == "call" and i.callee:
                for n, a in enumerate(i.args):
                    g = gbase(p, f, a)
                    if g not in glob:
                        continue
                    nacc += 1
                    if is_init(f):
                        continue
                    if G_const(glob[g]):
                        if n == 0 and is_ctor(p, i) and any(depends(S.expr(f, x)) for x in i.args[1:]):
                            bad.setdefault(g, (i, "is initialised from the arguments of the first call"))
                        continue
                    if may_write(p, E, f, i, n):
                        bad.setdefault(g, (i, "is handed to %s, which may write it," % p.q(i.callee).split("::")[-1]))
    for n, g in glob.items():
        name = g["n"] or g["dem"]
        where = "%s:%d" % (p.short(g["file"]), g["line"]) if "file" in g else "?"
        if n in bad:
            i, what = bad[n]
            rep.ob(False, "static %s" % name, i.where(), "the variable %s with static storage (%s) %s in %s: state is shared between calls and threads" % (name, where, what, p.q(i.fn.name)))
        else:
            rep.ob(True, n, where, "%s is never written" % name)
    rep.count("accesses to statics", nacc)
    nc = 0
    for f in p.project():
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            q = p.q(i.callee)
            nc += 1
            if i.callee not in p.fns and BANNED.get(q):
                rep.ob(False, "%s in %s" % (q, p.q(f.name).split("::")[-1]), i.where(), "%s calls %s, which %s" % (p.q(f.name), q, BANNED[q]))
            if q in STATEFUL_MANIP or q in ("std::ios_base::setf", "std::ios_base::precision", "std::ios_base::flags", "std::ios_base::width", "std::basic_ios::rdbuf", "std::basic_ios::fill"):
                if i.args and stdstream(p, f, i.args[0]) and len(i.args) >= (1 if q in STATEFUL_MANIP else 2):
                    rep.ob(False, "%s on standard stream in %s" % (q, p.q(f.name).split("::")[-1]), i.where(), "%s changes the state of a standard stream of the process (%s)" % (p.q(f.name), q))
            if q == "std::operator<<" and len(i.args) == 2 and stdstream(p, f, i.args[0]):
                # std::setprecision and friends: manipulator objects returned by a call
                e = S.expr(f, i.args[1])
                if e[0] == "call" and e[1] in STATEFUL_MANIP and e[1] not in ("std::setw",):
                    rep.ob(False, "%s on standard stream in %s" % (e[1], p.q(f.name).split("::")[-1]), i.where(), "%s changes the state of a standard stream of the process (%s)" % (p.q(f.name), e[1]))
            if q in ("std::basic_ostream::operator<<",) and len(i.args) == 2 and i.args[1][0] == "fn" and stdstream(p, f, i.args[0]):
                m = p.q(i.args[1][1])
                if m in STATEFUL_MANIP:
                    rep.ob(False, "%s on standard stream in %s" % (m, p.q(f.name).split("::")[-1]), i.where(), "%s changes the state of a standard stream of the process (%s)" % (p.q(f.name), m))
    rep.count("calls looked at", nc)


def stdstream(p, f, op, d=0):
    while d < 40:
        d += 1
        if op[0] == "g":
            return op[1] in ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog")
        if op[0] == "cg":
            op = op[1]
            continue
        if op[0] != "v":
            return False
        i = f.insts[op[1]]
        if i.op == "call" and i.callee and i.args and (p.q(i.callee).split("::")[-1] in ("operator<<", "flush", "put", "write") or p.q(i.callee) in STATEFUL_MANIP):
            op = i.args[0]
            continue
        if i.op in ("getelementptr", "bitcast"):
            op = i.args[0]
            continue
        return False
    return False


def G_const(g):
    return g["const"] or g["dity"].startswith("const ")


def is_ctor(p, i):
    q = p.q(i.callee).split("::")
    return len(q) > 1 and q[-1] == q[-2]


def depends(e):
    return contains(e, ("arg", "this", "loc", "ld", "phi", "call", "icall", "op", "mapval"))


def may_write(p, E, f, i, n):
    tgt = E.resolve(f, i.args[n])
    from effects import path_of
    roots = set(path_of(x)[0] for x in tgt)
    g = p.fns.get(i.callee)
    if g is not None:
        for root, path in E.summary(g):
            k = g.this[1] if root[0] == "this" and g.this else root[1] if root[0] == "arg" else None
            if k == n:
                return True
        return False
    for r, path in E.call_writes(f, i):
        if r in roots:
            return True
    return False
