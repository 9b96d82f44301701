"""C05: nothing uninitialised is ever used."""
import re
from initflow import InitFlow, text_args
from paths import Walker

TECH = "definite-initialisation analysis: path-sensitive typestate (unset/set) of every member in every constructor and of every local, through own callees and their results; undefined values of the SSA form followed to their uses"
NOTE = "An array counts as set as soon as one of its elements is stored or it is handed to a library routine; elements of heap arrays are not followed one by one."


def classes_of(p):
    out = {}
    for n, c in p.classes.items():
        if c.get("members"):
            out.setdefault(n, c)
    return out


SCALAR = re.compile(r"^(const )?(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|wchar_t|v?u?int\d+_t|size_t|time_t|enum .*|RasterDataType)$")


def scalar(p, t):
    t = t.strip()
    if t.endswith("*") or t.endswith("&"):
        return True
    if SCALAR.match(t):
        return True
    if "<" in t or t in ("string", "wstring") or t.startswith("std::"):
        return False
    c = p.classes.get(t)
    return c is not None and not c.get("members")  # an enumeration


def constructors(p):
    for f in p.project():
        m = re.match(r"^(?:.*?[: ])?((\w+)(?:<.*>)?)::(\w+)\(", f.dem)
        q = p.q(f.name).split("::")
        if len(q) > 1 and q[-1] == q[-2] and f.this and "(anonymous" not in f.dem:
            pre = f.dem.split("::" + q[-1] + "(")[0]
            yield f, pre


def class_key(p, pre):
    """`ccgl::data_raster::clsRasterData<int, int>` -> key of p.classes"""
    depth = 0
    cut = 0
    for n, ch in enumerate(pre):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == ":" and depth == 0 and n + 1 < len(pre) and pre[n + 1] == ":":
            cut = n + 2
    k = pre[cut:]
    return k if k in p.classes else None


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    own = set(f.name for f in p.project())
    I = InitFlow(p, S, own)
    rep.rule("every scalar or pointer member is set on every path to the return of every constructor, and not read before")
    rep.rule("a local variable, member of a local structure or local array is not read, and not handed to a function that reads it, on a path that has not set it")
    rep.rule("an element of an array allocated in the function is not read, with that constant index, before any store to it (loops that fill it are taken to run)")
    rep.rule("no undefined value of the SSA form reaches an operation, a branch, a call or a return on a feasible path")
    ctors = members = 0
    for f, pre in sorted(constructors(p), key=lambda x: x[0].name):
        k = class_key(p, pre)
        if k is None:
            continue
        ctors += 1
        for name, ty, off in p.classes[k]["members"]:
            if not scalar(p, ty) or name.startswith("_vptr"):
                continue
            members += 1
            o, us = I.outcomes(f, (("arg", f.this[1]), (name,)))
            ok = all(x[0] for x in o)
            rep.ob(ok, "member:%s:%s" % (k, name), f.where(), "%s: member %s %s by this constructor" % (short(f), name, "is set" if ok else "is left unset on some path"))
            for i, w in us[:1]:
                rep.ob(False, "early:%s:%s" % (k, name), i.where(), "%s: member %s is %s before the constructor sets it" % (short(f), name, w))
    rep.count("constructors", ctors)
    rep.count("members", members)
    rep.need(ctors, 8, "constructors")
    cells = 0
    for f in p.project():
        cs = {}
        for i in f.all_insts():
            ops = [i.args[0]] if i.op == "load" else [a for a in i.args if a[0] == "v"] if i.op == "call" else []
            for o in ops:
                if o[0] != "v" or i.op == "call" and f.insts[o[1]].op not in ("alloca", "getelementptr"):
                    continue
                a = I.address(f, o)
                if a and a[0][0] == "loc":
                    al = f.insts[a[0][1]]
                    if i.op == "call" and not plain(str(al.d.get("at")), a[1]) and not text(p, i, o, str(al.d.get("at")), a[1]):
                        continue
                    cs.setdefault((a[0], a[1]), al)
        for cell, al in sorted(cs.items(), key=repr):
            cells += 1
            o, us = I.outcomes(f, cell)
            nm = (f.vname(("v", al.id)) or "temporary") + "".join("." + x for x in cell[1])
            rep.ob(not us, "local:%s:%s" % (p.q(f.name), nm), us[0][0].where() if us else f.where(),
                   "%s: %s %s" % (p.q(f.name), nm, "is %s on a path that has not set it" % us[0][1] if us else "is set before it is read"))
    rep.count("local cells", cells)
    undef(p, rep)
    heap(p, rep, own)
    rep.count("path walks", I.walks)
    rep.count("walks cut short", len(I.overflows))


def plain(at, path):
    """memory of built-in type: an object of class type is set up by its constructor"""
    return bool(re.match(r"^(i\d+|ptr|float|double)$", at)) and not path


def text(p, i, o, at, path):
    """the text of a local buffer or of a member of a local structure"""
    if not i.callee or not (path or re.match(r"^\[\d+ x i8\]", at)) or at.startswith(("class.std", "struct.std", "class.__gnu")):
        return False
    return any(i.args[n] == o for n in text_args(p.q(i.callee), i, False))


def short(f):
    return re.sub(r"std::(__cxx11::)?basic_string<.*?>>?", "string", f.dem)[:90]


USE = ("store", "load", "br", "switch", "icmp", "fcmp", "ret", "call", "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "fadd", "fsub", "fmul", "fdiv", "sitofp", "fptosi", "sext", "zext", "trunc", "getelementptr", "fneg", "fpext", "fptrunc")


def undef(p, rep):
    n = 0
    for f in p.project():
        has = []
        for i in f.all_insts():
            for a in i.args:
                o = a[0] if i.op == "phi" else a
                if o[0] == "undef":
                    has.append(i)
        if not has:
            continue
        for i in has:
            if i.op in USE:
                n += 1
                rep.ob(False, "undef:%s" % p.q(f.name), i.where(), "%s: a variable that has no value yet is used" % p.q(f.name))
        if not [i for i in has if i.op == "phi"]:
            continue
        hits = {}

        def step(i, st, env, w):
            if i.op in USE and st:
                for a in i.args:
                    if a[0] == "v" and a[1] in st:
                        hits.setdefault(i.id, (i, a[1]))
            return [(st, None)]

        def edge(b, s, st, env):
            new = set(st)
            add = set()
            for i in f.blocks[s]:
                if i.op == "phi":
                    new.discard(i.id)
                    for v, pb in i.args:
                        if pb == b and (v[0] == "undef" or v[0] == "v" and v[1] in st):
                            add.add(i.id)
            return frozenset(x for x in new | add if W.live(("v", x), s) or x in add)
        W = Walker(f, limit=60000)
        W.run([(0, 0, {}, frozenset())], step, edge)
        n += 1
        if W.overflow:
            continue
        for i, v in hits.values():
            rep.ob(False, "undef:%s:%s" % (p.q(f.name), f.vname(("v", v))), i.where(), "%s: %s is used on a path that has not set it" % (p.q(f.name), f.vname(("v", v)) or "a value"))
        if not hits:
            rep.ob(True, "undef:%s" % p.q(f.name), f.where(), "values undefined on some path are not used there")
    rep.count("functions with values undefined on some path", n)


ALLOC = ("operator new[]", "malloc", "VSIMalloc", "CPLMalloc", "_mm_malloc")


def place(p, f, op, depth=0):
    """(allocating call, shape of the address): constant indices are kept, others are '*'"""
    if op[0] != "v" or depth > 8:
        return None
    i = f.insts[op[1]]
    if i.op == "call":
        return (i, ()) if i.callee and p.q(i.callee) in ALLOC else None
    if i.op == "getelementptr":
        b = place(p, f, i.args[0], depth + 1)
        if b is None:
            return None
        sh = []
        for x in i.d.get("path") or []:
            sh.append(str(x[1][1]) if x[0] == "x" and x[1][0] == "c" else "*" if x[0] == "x" else "." + str(x[1:]))
        if b[1] and b[1][-1] not in ("ld",):
            return (b[0], b[1][:-1] + ("*",))
        return (b[0], b[1] + tuple(sh))
    if i.op == "load":
        b = place(p, f, i.args[0], depth + 1)
        if b is None:
            return None
        sh = b[1] if b[1] and b[1][-1] != "ld" else b[1] + ("0",)
        return (b[0], sh + ("ld",))
    if i.op in ("bitcast", "addrspacecast"):
        return place(p, f, i.args[0], depth + 1)
    return None


def norm(sh):
    return sh if sh and sh[-1] != "ld" else sh + ("0",)


def may(a, b):
    return len(a) == len(b) and all(x == y or x == "*" or y == "*" for x, y in zip(a, b))


def heap(p, rep, own):
    n = 0
    for f in p.project():
        al = [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee) in ALLOC]
        if not al:
            continue
        loads, stores, whole = [], [], []
        for i in f.all_insts():
            if i.op == "load":
                b = place(p, f, i.args[0])
                if b:
                    loads.append((i, b[0], norm(b[1])))
            elif i.op == "store":
                b = place(p, f, i.args[1])
                if b:
                    stores.append((i, b[0], norm(b[1])))
                v = place(p, f, i.args[0])
                if v and not b:
                    whole.append((i, v[0], v[1]))
            elif i.op == "call" and i.callee:
                q = p.q(i.callee)
                if q.startswith("operator delete") or q in ("free", "CPLFree", "VSIFree"):
                    continue
                for a in i.args:
                    b = place(p, f, a)
                    if b and b[0] is not i:
                        whole.append((i, b[0], b[1]))
            elif i.op in ("phi",):
                for a, pb in i.args:
                    b = place(p, f, a)
                    if b:
                        whole.append((i, b[0], b[1]))
        loops = f.natural_loops()
        for i, a, sh in loads:
            if len([x for x in sh if x == "ld"]) and i.ty == "ptr":
                continue
            ws = [s for s, b, t in stores if b is a and may(sh, t)] + [s for s, b, t in whole if b is a and t == sh[:len(t)]]
            n += 1
            kill = {}
            blocks = set()
            for s in ws:
                kill.setdefault(s.blk, []).append(s.idx)
                for h, body in loops.items():
                    if s.blk in body and i.blk not in body:
                        blocks.add(h)
            seen, todo = set(), [(a.blk, a.idx + 1)]
            bad = False
            while todo:
                b, k = todo.pop()
                if b in blocks:
                    continue
                ks = [x for x in kill.get(b, []) if x >= k]
                if b == i.blk and i.idx >= k and not [x for x in ks if x < i.idx]:
                    bad = True
                    break
                if ks:
                    continue
                for t in f.succ(b):
                    if t not in seen:
                        seen.add(t)
                        todo.append((t, 0))
            rep.ob(not bad, "heap:%s:%s" % (p.q(f.name), "".join(sh)), i.where(), "%s: an element (%s) of the array allocated at line %s %s" % (p.q(f.name), " ".join(x for x in sh), a.line, "is read before it is set" if bad else "is set before it is read"))
    rep.count("reads of newly allocated arrays", n)
