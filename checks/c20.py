"""C20: map, vector and string accessors that throw are reached only with a key or position that is known to be there."""
from sym import contains, show
from keys import Keys
from paths import Walker
from raster import RC

TECH = "must-key dataflow over maps (branch facts, insertions, callee summaries, class invariant) at every throwing look-up"
NOTE = "std::map::at everywhere in src and apps; invariant keys of the raster's member maps are established by its constructors. Exceptions of allocation and of streams are outside."


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    K = Keys(p, S)
    rep.rule("at every call of std::map::at the key is certainly present: tested by find/count (also inside a helper), inserted before on every path, guaranteed by the function that filled the map, "
             "or part of the invariant that every constructor establishes and nothing removes")
    inv = invariants(p, S, K, rep)
    n = 0
    done = {}
    for f in p.project():
        for i in f.all_insts():
            if i.op == "call" and i.callee and p.q(i.callee) == "std::map::at":
                n += 1
                ok, why = present(p, S, K, f, i, inv, 0)
                name = p.q(f.name)
                rep.ob(ok, "at %s in %s" % (show(K.key(f, i.args[1]), f), name), i.where(),
                       "%s: %s" % (name, "key %s of %s is present" % (show(K.key(f, i.args[1]), f), show(S.expr(f, i.args[0]), f)) if ok else
                                   "nothing shows that %s holds the key %s: the look-up may throw%s" % (show(S.expr(f, i.args[0]), f), show(K.key(f, i.args[1]), f), why)))
    rep.rule("an element of a list that came from outside is asked for by position only below the size of that list")
    nv = 0
    for f in p.project():
        if not p.q(f.name).startswith("ccgl"):
            continue
        for i in f.all_insts():
            if i.op == "call" and i.callee and p.q(i.callee) == "std::vector::at":
                v, x = S.expr(f, i.args[0]), core_of(S.expr(f, i.args[1]))
                if v[0] == "loc" or contains(v, ("phi", "icall")) or v == ("this",):
                    continue  # lists of its own are C21's
                nv += 1
                ok = x[0] == "c" and any(contains(t, ("call",)) for t in S.facts(f, i.blk)) or any(bounds(t, x) for t in S.facts(f, i.blk))
                rep.ob(ok, "position %s in %s" % (show(x, f), p.q(f.name)), i.where(), "%s: position %s of %s %s" % (p.q(f.name), show(x, f), show(v, f), "is below its size" if ok else "is not compared with its size: the look-up may throw"))
    rep.count("throwing positions", nv)
    rep.count("throwing look-ups", n)
    rep.need(n, 30, "map look-ups")


def core_of(e):
    while e[0] in ("sx", "zx", "cast", "tr"):
        e = e[1]
    return e


def bounds(t, x):
    """fact: x is less than the size of something"""
    if len(t) != 3:
        return False
    a, b = core_of(t[1]) if isinstance(t[1], tuple) else None, core_of(t[2]) if isinstance(t[2], tuple) else None
    size = lambda e: e is not None and e[0] == "call" and str(e[1]).endswith("size")
    return t[0] in ("ult", "slt") and a == x and size(b) or t[0] in ("ugt", "sgt") and b == x and size(a)


NONEMPTY = {}


def invariants(p, S, K, rep):
    """class -> field -> keys that every object holds from its construction on"""
    out = {}
    byclass = {}
    for f in p.project():
        dem = f.dem.split("(")[0]
        cls = dem.rsplit("::", 1)[0]
        byclass.setdefault(cls, []).append(f)
    for cls, fs in byclass.items():
        ctors = [f for f in fs if is_ctor(p, f)]
        if not ctors:
            continue
        fields = {}
        for f in fs:
            for i in f.all_insts():
                if i.op == "call" and i.callee and i.callee.startswith("_ZNSt3map") or i.op == "call" and i.callee and i.callee.startswith("_ZNKSt3map"):
                    e = S.expr(f, i.args[1] if i.d.get("sret") and len(i.args) > 1 else i.args[0]) if i.args else ("?",)
                    if e[0] == "fld" and e[1] == ("this",):
                        fields.setdefault(e[2], set())
        for fd in list(fields):
            M = ("fld", ("this",), fd)
            keys = None
            for c in ctors:
                if delegates(p, c, cls):
                    continue
                r = None
                for b in c.blocks:
                    t = b[-1]
                    if t.op == "ret":
                        x = K.must(c, M, t)
                        if x is not None:
                            r = x if r is None else r & x
                if r is not None:
                    r = frozenset(k for k in r if k[0] == "str")
                    keys = r if keys is None else keys & r
            # removed or replaced later: emptying is tracked apart (a map that is not empty still holds all keys)
            always = nonempty = keys or frozenset()
            for f in fs:
                for i in f.all_insts():
                    if i.op != "call" or not i.callee or not p.q(i.callee).startswith("std::"):
                        continue
                    sv, gen = K.effect(f, i, M)
                    if sv is not None and not (is_ctor(p, f) or "~" in f.dem.split("(")[0]):
                        if p.q(i.callee).split("::")[-1] != "clear":
                            nonempty = nonempty & sv
                        always = always & sv
                    if gen and gen[0] != "lits" and sv is None and nonempty != always and not all(filled(p, S, K, f, i, M, k, True) for k in gen):
                        nonempty = nonempty & frozenset(gen)
            keys = always
            NONEMPTY.setdefault(cls, {})[fd] = nonempty
            out.setdefault(cls, {})[fd] = keys or frozenset()
    return out


def reach_from(p):
    return ()


def delegates(p, c, cls):
    """delegating constructor: calls another constructor of the class on this"""
    for i in c.all_insts():
        if i.op == "call" and i.callee in p.fns and i.args and i.args[0] == c.this and p.fns[i.callee] is not c and is_ctor(p, p.fns[i.callee]) and p.fns[i.callee].dem.split("(")[0].rsplit("::", 1)[0] == cls:
            return True
    return False


def is_ctor(p, f):
    q = p.q(f.name).split("::")
    return len(q) > 1 and q[-1] == q[-2]


def present(p, S, K, f, i, inv, depth):
    M = S.expr(f, i.args[0])
    k = K.key(f, i.args[1])
    r = known(p, S, K, f, i, M, k, inv, depth)
    if not r[0]:
        e = k
        while e[0] == "tmp":
            e = e[1]
        ls = K.literals(f, e)
        if ls and all(known(p, S, K, f, i, M, x, inv, depth)[0] for x in ls):
            return True, ""  # one of a fixed list of keys, each of which is there
    return r


def fieldinv(f, M, inv, p, S):
    """invariant keys of a map that is a member of an object"""
    if M[0] != "fld":
        return frozenset()
    cls = f.dem.split("(")[0].rsplit("::", 1)[0]
    if M[1] == ("this",):
        return inv.get(cls, {}).get(M[2], frozenset())
    # a map of another object: intersection over the classes that have this member
    c = [d[M[2]] for d in inv.values() if M[2] in d]
    return frozenset.intersection(*c) if c else frozenset()


def known(p, S, K, f, i, M, k, inv, depth):
    fs = S.facts(f, i.blk)
    for x in fs:
        if x[0] == "true" and x[1][0] == "has" and x[1][1] == M and K.canon(f, x[1][2]) == k:
            return True, ""
    x = K.must(f, M, i)
    if x is None or k in x:
        return True, ""
    if k in fieldinv(f, M, inv, p, S):
        return True, ""
    cls = f.dem.split("(")[0].rsplit("::", 1)[0]
    inits = M[0] == "fld" and M[1] == ("this",) and k in NONEMPTY.get(cls, {}).get(M[2], ())
    if filled(p, S, K, f, i, M, k, inits):
        return True, ""
    if key_of_iteration(k):
        may = source_field(p, S, K, f, key_of_iteration(k))
        if may and all(known(p, S, K, f, i, M, y, inv, depth)[0] for y in may):
            return True, ""
    it = key_of_iteration(k)
    if it and begins(p, S, f, it) == M:
        return True, ""
    if M[0] == "arg" and k[0] == "str" and depth < 3 and not public(p, f):
        cs = p.callers().get(f.name, [])
        if cs:
            for c in cs:
                g = c.fn
                if M[1] >= len(c.args):
                    return False, ""
                M2 = S.expr(g, c.args[M[1]])
                # a map passed by value is copied into a temporary
                ok, why = known(p, S, K, g, c, M2, k, inv, depth + 1)
                if not ok:
                    return False, " (called from %s, %s)" % (p.q(g.name), c.where())
            return True, ""
    return False, ""


def key_of_iteration(k):
    """iterator local when the key is iterator->first"""
    if k[0] == "fld" and k[2] == "first" and k[1][0] == "deref":
        return k[1][1]
    if k[0] == "ld" and k[1][0] == "fld" and k[1][2] == "first" and k[1][1][0] == "deref":
        return k[1][1][1]
    return None


def begins(p, S, f, it):
    """the map whose begin() is the only initial value of the iterator local"""
    if it[0] != "loc" or it[2] != f.name:
        return None
    src = None
    for i in f.all_insts():
        if i.op == "store" and S.root(f, i.args[1]) is f.insts[it[1]]:
            e = S.expr(f, i.args[0])
            if e[0] == "call" and e[1].split("::")[-1] in ("begin", "cbegin") and src is None:
                src = e[2]
            else:
                return None
        if i.op == "call" and i.callee and i.args and i.args[0] == ("v", it[1]) and p.q(i.callee).split("::")[-1] == "operator=":
            return None
    return src


def source_field(p, S, K, f, it):
    """all keys that can be in the map the iterator runs over, when it is a copy of a member map with constant keys only"""
    m = begins(p, S, f, it)
    if m is None:
        return None
    fd = None
    if m[0] == "fld":
        fd = m[2]
    elif m[0] == "loc" and m[2] == f.name:
        for u in f.uses().get(("v", m[1]), []):
            if u.op == "call" and u.callee and p.q(u.callee) == "std::map::map" and u.args[0] == ("v", m[1]) and len(u.args) > 1:
                e = S.expr(f, u.args[1])
                if e[0] == "fld":
                    fd = e[2]
            if u.op == "call" and u.d.get("sret") and u.args[0] == ("v", m[1]) and u.callee in p.fns:
                g = p.fns[u.callee]
                for i in g.all_insts():
                    if i.op == "call" and i.callee and p.q(i.callee) == "std::map::map" and len(i.args) > 1 and S.expr(g, i.args[0]) == ("arg", 0):
                        e = S.expr(g, i.args[1])
                        if e[0] == "fld":
                            fd = e[2]
    if fd is None:
        return None
    cls = f.dem.split("(")[0].rsplit("::", 1)[0]
    ks = set()
    for g in p.project():
        if g.dem.split("(")[0].rsplit("::", 1)[0] != cls:
            continue
        M = ("fld", ("this",), fd)
        for i in g.all_insts():
            sv, gen = K.effect(g, i, M)
            if gen and gen[0] == "lits":
                gen = gen[1:]
            if any(x[0] != "str" for x in gen):
                return None
            ks |= set(gen)
    return ks


def filled(p, S, K, f, i, M, k, inits):
    """on every path to i the map received the key (or, for a map that holds all its keys when it is not empty, was found not to be empty)"""
    w = Walker(f)
    bad = []

    def step(j, st, env, w):
        if j is i:
            if not st:
                bad.append(j)
            return None
        sv, gen = K.effect(f, j, M)
        if sv is not None and k not in sv:
            st = False
        if k in gen or j.op == "call" and j.callee and p.q(j.callee) == "std::map::map" and j.args and S.expr(f, j.args[0]) == M and len(j.args) > 1 \
                and sv is not None and copied(p, S, K, f, j, k):
            st = True
        return [(st, None)]

    def edge(b, t, st, env):
        es = [e for e in f.cond_edges(b) if e[0] == t]
        if not st and len(es) == 1 and len(f.cond_edges(b)) > 1 and es[0][1][0] == "v":
            if k in K.cond_keys_light(f, es[0][1], es[0][2], M):
                return True
            fs = set()
            if inits:
                S.imply(f, es[0][1], es[0][2], fs, 0)
            for x in fs:
                if x[0] == "false" and x[1][0] == "call" and x[1][1].split("::")[-1] == "empty" and len(x[1]) > 2 and x[1][2] == M:
                    return True
        return st
    w.run([(0, 0, {}, False)], step, edge)
    return not bad and not w.overflow


def copied(p, S, K, f, j, k):
    """the map that is copied by j holds the key"""
    key = (f.name, j.id, k)
    if key not in COPIED:
        COPIED[key] = False
        COPIED[key] = filled(p, S, K, f, j, S.expr(f, j.args[1]), k, False)
    return COPIED[key]


COPIED = {}


def public(p, f):
    """callable by a client program (clang leaves out the default access of the class kind)"""
    if f.acc in (1, 2):
        return False
    return not (f.acc == 0 and f.this is not None)
