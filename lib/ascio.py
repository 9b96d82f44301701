"""Text raster format as the code has it: what the reader does with each keyword, what the writers put into the stream."""
from paths import Walker
from grid import header_writes, uleaves
from sym import contains

CONV = ("IsInt", "IsDouble", "IsFloat", "IsInt64", "IsUInt", "IsUInt64")
WRAP = ("IsInt", "IsDouble")


def keyword_calls(p, S, fn):
    """[(call inst, keyword)] of comparisons of a token with a literal"""
    out = []
    for i in fn.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] in ("StringMatch", "operator==", "strcasecmp", "compare"):
            for a in i.args:
                k = lit(p, S, fn, a)
                if k and k.upper() == k and k.replace("_", "").isalpha():
                    out.append((i, k))
    return out


def lit(p, S, fn, a):
    e = S.expr(fn, a)
    if e[0] == "str":
        return e[1]
    if e[0] == "glob":
        t = p.gptr(e[1])
        return p.cstring(t) if t is not None else None
    if e[0] == "loc" and e[2] == fn.name:
        for u in fn.uses().get(a, []):
            if u.op == "call" and u.callee and p.q(u.callee) == "std::basic_string::basic_string" and u.args[0] == a and len(u.args) > 1:
                return lit(p, S, fn, u.args[1])
    return None


def reader(p, S, fn):
    """keyword -> [(header key, set of shifts)] ; shift: 0 or 1 (half a cell)"""
    calls = keyword_calls(p, S, fn)
    words = sorted(set(k for i, k in calls))
    hw = header_writes(p, S, fn)
    conv = {}
    shifts = {}
    for key, e, op, inst, m in hw:
        ls = set()
        sh = set()
        collect(fn, op, ls, sh, set())
        ids = set()
        for l in ls:
            i = fn.insts[l]
            if i.callee and p.q(i.callee).split("::")[-1] in CONV:
                ids.add(l)
        conv[key] = conv.get(key, set()) | ids
        shifts[key] = shifts.get(key, set()) | sh
    of = {}
    for k, ids in conv.items():
        if k in ("CELLSNUM", "LAYERS"):
            continue
        for i in ids:
            of.setdefault(i, set()).add(k)
    shared = dict((i, ks) for i, ks in of.items() if len(ks) > 1)  # one conversion for several keywords: where its value goes tells which
    allshift = {}
    for k, ss in shifts.items():
        if k not in ("CELLSNUM", "LAYERS"):
            for s in ss:
                allshift.setdefault(s, set()).add(k)
    mb = set(i.blk for i, k in calls)
    loops = [(len(L), h) for h, L in fn.natural_loops().items() if mb <= L]
    head = min(loops)[1] if loops else None
    slots = {}  # where the values of the entries live: loop phis, local variables
    for key, e, op, inst, m in hw:
        if key not in ("CELLSNUM", "LAYERS"):
            places(fn, op, slots.setdefault(key, set()), set())
    kw = dict((i.id, k) for i, k in calls)
    same = dict((i.id, p.q(i.callee).split("::")[-1] in ("StringMatch", "operator==")) for i, k in calls)

    keep = set(("v", i.id) for i, k in calls)
    if shared:
        for ps in slots.values():
            keep |= set(o for o in ps if fn.insts[o[1]].op != "alloca")
        keep |= set(("v", i) for i in shared)
    for sid in allshift:
        tb = fn.insts[sid].blk
        for b in range(len(fn.blocks)):
            for e in fn.cond_edges(b):
                if e[0] == tb and e[1] is not None and e[1][0] == "v":
                    slice_of(fn, e[1], keep)

    for i in fn.all_insts():
        if i.op in ("ret", "switch") and i.args:
            slice_of(fn, i.args[0], keep)
    work = [("v", i.id) for i, k in calls]
    while work:
        o = work.pop()
        for u in fn.uses().get(o, []):
            if u.op in ("phi", "icmp", "xor", "trunc", "zext", "select", "and", "or") and ("v", u.id) not in keep:
                keep.add(("v", u.id))
                work.append(("v", u.id))

    def explore(first, others, track):
        """(header keys converted in the first iteration, shifted flags per key at a successful return)"""
        conv1 = set()
        shifted = {}

        def step(i, st, env, wk):
            cur, n, sh = st
            if i.id in kw:
                if cur is None:
                    cands = [first] if n == 0 else others
                else:
                    cands = [cur]
                return [((c, n, sh), {("v", i.id): int((c == kw[i.id]) == same[i.id])}) for c in cands]
            if i.op == "call" and i.id in of and n == 0 and cur == first:
                if i.id not in shared:
                    conv1.update(of[i.id])
                else:
                    return [((cur, n, sh | frozenset(allshift.get(i.id, ()))), {("v", i.id): ("number", i.id)})]
            if i.op == "store" and i.args[1] and i.args[1][0] == "v" and n == 0:
                t = tag(fn, wk, i.args[0], env)
                if t is not None:
                    conv1.update(k for k in shared.get(t, ()) if i.args[1] in slots[k])
            if i.id in allshift:
                sh = sh | frozenset(allshift[i.id])
            if i.op == "ret":
                v = wk.val(i.args[0], env) if i.args else None
                if v != 0 and (n or cur is not None):
                    for k in set(shifts):
                        shifted.setdefault(k, set()).add(k in sh)
                return None
            return [((cur, n, sh), None)]

        def edge(b, s, st, env):
            if shared and st[1] == 0:
                for x in fn.blocks[s]:
                    if x.op != "phi":
                        break
                    if s != head:
                        continue
                    for v, pb in x.args:
                        t = tag(fn, wk, v, env) if pb == b else None
                        if t is not None:
                            conv1.update(k for k in shared.get(t, ()) if ("v", x.id) in slots[k])
            if s == head and st[0] is not None:
                if not track:
                    return None
                return (None, 1, st[2])
            return st
        wk = Walker(fn, keep=keep)
        wk.run([(0, 0, {}, (None, 0, frozenset()))], step, edge)
        return conv1, shifted, wk.overflow
    conv1 = dict((w, explore(w, [], False)[0]) for w in words)
    table = {}
    for w in words:
        table[w] = {}
        if any(shifts.get(k) for k in conv1[w]):
            oth = [o for o in words if not (conv1[o] & conv1[w])] + [w, ""]
            c, sh, over = explore(w, oth, True)
            for k in conv1[w]:
                table[w][k] = sh.get(k, set()) if not over else {None}
        else:
            for k in conv1[w]:
                table[w][k] = {False}
    return table, words


def slice_of(fn, op, out):
    if op in out or op[0] != "v":
        return
    out.add(op)
    for a in fn.insts[op[1]].args:
        slice_of(fn, a[0] if isinstance(a[0], tuple) else a, out)


def places(fn, op, out, seen):
    if op in seen or op[0] != "v":
        return
    seen.add(op)
    i = fn.insts[op[1]]
    if i.op == "phi":
        out.add(op)
        for v, b in i.args:
            places(fn, v, out, seen)
    elif i.op == "select":
        out.add(op)
        for v in i.args[1:]:
            places(fn, v, out, seen)
    elif i.op == "load" and i.args[0][0] == "v" and fn.insts[i.args[0][1]].op == "alloca":
        out.add(i.args[0])
        for j in fn.all_insts():
            if j.op == "store" and j.args[1] == i.args[0]:
                places(fn, j.args[0], out, seen)
    elif i.op in ("fadd", "fsub", "sitofp", "fptosi", "trunc", "sext", "zext", "fpext", "fptrunc", "freeze"):
        places(fn, i.args[0], out, seen)


def tag(fn, wk, op, env, depth=0):
    """the conversion call whose result this is on the path taken"""
    if op[0] != "v" or depth > 8:
        return None
    v = env.get(op)
    if isinstance(v, tuple) and v[0] == "number":
        return v[1]
    i = fn.insts[op[1]]
    if i.op in ("fadd", "fsub", "sitofp", "fptosi", "trunc", "sext", "zext", "fpext", "fptrunc", "freeze"):
        return tag(fn, wk, i.args[0], env, depth + 1)
    if i.op == "select":
        c = wk.val(i.args[0], env)
        if isinstance(c, int):
            return tag(fn, wk, i.args[1] if c & 1 else i.args[2], env, depth + 1)
    return None


def collect(fn, op, calls, shifts, seen):
    """calls a header value comes from, and the additions (half cell shifts) on the way"""
    if op in seen or op[0] != "v":
        return
    seen.add(op)
    i = fn.insts[op[1]]
    if i.op == "call":
        calls.add(i.id)
    elif i.op in ("phi",):
        for v, b in i.args:
            collect(fn, v, calls, shifts, seen)
    elif i.op == "select":
        for v in i.args[1:]:
            collect(fn, v, calls, shifts, seen)
    elif i.op in ("fadd", "fsub"):
        shifts.add(i.id)
        collect(fn, i.args[0], calls, shifts, seen)
    elif i.op == "load":
        a = i.args[0]
        if a[0] == "v" and fn.insts[a[1]].op == "alloca":
            for j in fn.all_insts():
                if j.op == "store" and j.args[1] == a:
                    collect(fn, j.args[0], calls, shifts, seen)
    elif i.op in ("sitofp", "fptosi", "trunc", "sext", "zext", "fpext", "fptrunc", "freeze"):
        collect(fn, i.args[0], calls, shifts, seen)


def stream_of(p, S, fn, op, depth=0):
    """local ofstream an insertion finally writes to"""
    while depth < 400:
        depth += 1
        r = S.root(fn, op)
        if r is not None and not isinstance(r, tuple) and r.op == "alloca":
            return r.id if "ofstream" in str(r.d.get("aty", "")) + str(r.ty) or is_ofstream(p, fn, r) else None
        if op[0] == "v" and fn.insts[op[1]].op == "call" and fn.insts[op[1]].args:
            op = fn.insts[op[1]].args[0]
            continue
        return None
    return None


def is_ofstream(p, fn, al):
    for u in fn.uses().get(("v", al.id), []):
        if u.op == "call" and u.callee and p.q(u.callee) in ("std::basic_ofstream::basic_ofstream", "std::ofstream::ofstream", "std::basic_fstream::basic_fstream"):
            return True
    return False


def insertions(p, S, fn):
    """[(inst, stream alloca, kind, data)] in block order; kind: text (literal), number (operand), endl, precision (n), char"""
    out = []
    for i in fn.all_insts():
        if i.op != "call" or not i.callee:
            continue
        q = p.q(i.callee)
        last = q.split("::")[-1]
        if last in ("precision",) and len(i.args) == 2:
            s = stream_of(p, S, fn, i.args[0])
            if s is not None:
                e = S.expr(fn, i.args[1])
                out.append((i, s, "precision", e[1] if e[0] == "c" else None))
            continue
        if last != "operator<<" or len(i.args) < 2 or q.startswith("std::") is False:
            continue
        s = stream_of(p, S, fn, i.args[0])
        if s is None:
            continue
        a = i.args[1]
        e = S.expr(fn, a)
        t = lit(p, S, fn, a)
        if t is not None:
            out.append((i, s, "text", t))
        elif e[0] == "call" and e[1].split("::")[-1] == "setprecision":
            out.append((i, s, "precision", e[2][1] if e[2][0] == "c" else None))
        elif e[0] == "call" and e[1].split("::")[-1] in ("setw", "setfill"):
            out.append((i, s, "manip", e))
        elif e[0] == "fn" or a[0] == "fn":
            out.append((i, s, "endl" if "endl" in str(a) + str(e) else "manip", e))
        else:
            sig = p.dem(i.callee)
            par = sig[sig.find("operator<<") + 10:]
            par = par[par.rfind("(") + 1:par.rfind(")")] if "(" in par else ""
            par = par.split(",")[-1].strip()
            if e[0] == "c" and par in ("char", "signed char", "unsigned char"):
                out.append((i, s, "text", chr(e[1] & 255)))
            elif par in ("char", "signed char", "unsigned char"):
                out.append((i, s, "char", a))
            elif "basic_string" in par or par.endswith("char const*"):
                out.append((i, s, "string", a))
            else:
                out.append((i, s, "number", a))
    return out
