"""Extraction of results of the coordinate conversions: pairs, by-value results, header updates."""
from sym import subst, show, contains
from effects import repl
from poly import add, const


def refval(S, fn, op, at, depth=0):
    """expression of the value a reference argument (address of a temporary) holds at instruction `at`"""
    if op[0] == "v" and fn.insts[op[1]].op == "alloca":
        r = None
        for i in fn.all_insts():
            if i.op == "store" and i.args[1] == op and (i.blk == at.blk and i.idx < at.idx or i.blk != at.blk and fn.dominates(i.blk, at.blk)):
                # the closest dominating store
                if r is None or fn.idominates(r, i):
                    r = i
        if r is not None:
            return r.args[0]
    return None


def halves(fn, op, d, sh=0):
    """operands packed into a 64-bit integer: d[0] low half, d[32] high half"""
    if op[0] != "v":
        return
    i = fn.insts[op[1]]
    if i.op == "or":
        halves(fn, i.args[0], d, sh)
        halves(fn, i.args[1], d, sh)
    elif i.op == "and" and i.args[1][0] == "c":
        halves(fn, i.args[0], d, sh)
    elif i.op == "shl" and i.args[1][:2] == ("c", 32):
        halves(fn, i.args[0], d, 32)
    else:
        d[sh] = unpack(fn, op)


def unpack(fn, op):
    """looks through packing two values into one integer and taking them out again"""
    op = strip(fn, op)
    for _ in range(6):
        if op[0] != "v":
            break
        j = fn.insts[op[1]]
        q = {}
        if j.op == "lshr" and j.args[1][:2] == ("c", 32):
            halves(fn, strip(fn, j.args[0]), q)
            if 32 not in q:
                break
            op = q[32]
        elif j.op == "or":
            halves(fn, op, q)
            if 0 not in q:
                break
            op = q[0]
        else:
            break
    return op


def uleaves(fn, op, edges=None):
    """leaves of phis (over the live edges when given), also through packed pairs: [(operand, block)]"""
    out, seen, st = [], set(), [(op, None)]
    while st:
        x, b = st.pop()
        x = unpack(fn, x)
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "v" and fn.insts[x[1]].op == "phi":
            ph = fn.insts[x[1]]
            for v, pb in ph.args:
                if edges is None or (pb, ph.blk) in edges:
                    st.append((v, pb))
        elif x[0] == "v" and fn.insts[x[1]].op == "select":
            st.append((fn.insts[x[1]].args[1], b))
            st.append((fn.insts[x[1]].args[2], b))
        else:
            out.append((x, b))
    return out


def pair_results(p, S, fn):
    """[(ret inst, first operand, second operand)] of a function that returns a pair of numbers"""
    out = []
    for b in range(len(fn.blocks)):
        t = fn.term(b)
        if t.op != "ret" or not t.args:
            continue
        for o, blk in split(fn, t.args[0], b):
            if o[0] == "c":
                v = o[1] & 0xffffffffffffffff
                sx = lambda x: x - (1 << 32) if x >> 31 else x
                out.append((t, ("c", sx(v & 0xffffffff), 32), ("c", sx(v >> 32), 32)))
                continue
            if o[0] != "v":
                continue
            j = fn.insts[o[1]]
            d = {}
            while j.op == "insertvalue":
                d.setdefault(j.d["ix"][0], j.args[1])
                if j.args[0][0] != "v":
                    break
                j = fn.insts[j.args[0][1]]
            if len(d) == 2:
                out.append((t, d[0], d[1]))
                continue
            d = {}
            halves(fn, o, d)
            if set(d) == {0, 32}:
                out.append((t, d[0], d[32]))
    return out


def strip(fn, op):
    while op[0] == "v":
        i = fn.insts[op[1]]
        if i.op in ("zext", "sext", "trunc", "bitcast", "freeze"):
            op = i.args[0]
        elif i.op == "and" and i.args[1][0] == "c":
            op = strip(fn, i.args[0])
        elif i.op == "or" and False:
            pass
        else:
            break
    return op


def split(fn, op, blk, seen=None):
    """[(operand, block)] a phi/select operand stands for (block: where the choice was made)"""
    seen = seen if seen is not None else set()
    if op in seen:
        return []
    seen.add(op)
    if op[0] == "v":
        i = fn.insts[op[1]]
        if i.op == "phi":
            out = []
            for v, b in i.args:
                out += split(fn, v, b, seen)
            return out
        if i.op == "select":
            return split(fn, i.args[1], blk, seen) + split(fn, i.args[2], blk, seen)
    return [(op, blk)]


def map_bases(S, fn, key):
    """bases of all map look-ups of a key in the function"""
    out = []
    for i in fn.all_insts():
        if i.ty and i.ty != "void":
            collect(S.expr(fn, ("v", i.id)), key, out)
    return out


def collect(e, key, out):
    if not isinstance(e, tuple):
        return
    if e and e[0] == "mapval" and e[2] == ("str", key) and e[1] not in out:
        out.append(e[1])
    for x in e[1:]:
        collect(x, key, out)


def header_writes(p, S, fn):
    """[(key, value expression, value operand, inst, map expression)] of every header entry the function sets"""
    out = []
    for i in fn.all_insts():
        if i.op == "call" and i.callee:
            q = p.q(i.callee)
            if q.split("::")[-1] == "UpdateHeader" and len(i.args) == 3:
                k = S.expr(fn, i.args[1])
                out.append((k[1] if k[0] == "str" else None, S.expr(fn, i.args[2]), i.args[2], i, S.expr(fn, i.args[0])))
            elif q.startswith("std::map::") and q.split("::")[-1] in ("emplace", "insert_or_assign") and len(i.args) >= 3:
                k = S.expr(fn, i.args[-2])
                v = refval(S, fn, i.args[-1], i)
                if v is not None and k[0] == "str":
                    out.append((k[1], S.expr(fn, v), v, i, S.expr(fn, i.args[-3])))
        elif i.op == "store":
            a = S.expr(fn, i.args[1])
            if a[0] == "mapat":
                out.append((a[2][1] if a[2][0] == "str" else None, S.expr(fn, i.args[0]), i.args[0], i, a[1]))
    return out
