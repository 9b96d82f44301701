"""C26: success of a text-to-number conversion implies that the whole text was converted and, for integers, that the value fits; the report is looked at."""
import re
from sym import show
from paths import Walker

TECH = "implication of the success flag (branch facts of the value stored to it) at every strto*/wcsto* call, and use analysis of the flag at every caller"
NOTE = ("Every call of the strto*/wcsto* family in src and apps and every call of the project's own conversions with a success flag. "
        "What strto* itself accepts (leading blanks, hexadecimal floating point) is not judged.")

BASE = {}
for _pre in ("", "__isoc23_", "__isoc99_"):
    for _s in ("strto", "wcsto"):
        for _k in ("l", "ul", "ll", "ull", "imax", "umax"):
            BASE[_pre + _s + _k] = ("int", "u" not in _k)
        for _k in ("d", "f", "ld"):
            BASE[_pre + _s + _k] = ("float", True)
UNCHECKED = ("atoi", "atol", "atoll", "atof")
STOX = ("std::stoi", "std::stol", "std::stoll", "std::stoul", "std::stoull", "std::stof", "std::stod", "std::__cxx11::stoi", "std::__cxx11::stod")


def is_boolref(ty):
    return ty.replace(" ", "") == "bool&"


def core_value(fn, op):
    """operand without widening integer casts"""
    while op[0] == "v":
        i = fn.insts[op[1]]
        if i.op in ("sext", "zext", "fpext"):
            op = i.args[0]
            continue
        break
    return op


def strip_all(fn, op):
    while op[0] == "v" and fn.insts[op[1]].op in ("sext", "zext", "fpext", "trunc", "fptrunc"):
        op = fn.insts[op[1]].args[0]
    return op


def params(f):
    """(argument index, DI type) of the user parameters"""
    from raster import uparams
    return [(n, t) for n, _, t in uparams(f)]


def bool_params(f):
    return [n for n, t in params(f) if is_boolref(t)]


def value_passed(S, fn, op):
    """the value behind an argument passed by value or by const reference to a local"""
    if op[0] == "v" and fn.insts[op[1]].op == "alloca":
        st = S.forward(fn, fn.insts[op[1]])
        if st is not None:
            return st.args[0]
    return op


def text_origin(p, fn, op):
    """call that produced the std::string local operand, or None"""
    if op[0] != "v":
        return None
    for u in fn.uses().get(op, []):
        if u.op == "call" and u.d.get("sret") and u.args[0] == op:
            return u
    return None


def flag_conditions(fn, S):
    """(instruction, facts known when it reports success) for every place that sets the success report"""
    out = []
    bps = set(bool_params(fn))
    for j in fn.all_insts():
        v = None
        if j.op == "store" and j.args[1][0] == "a" and j.args[1][1] in bps:
            v = j.args[0]
        elif j.op == "ret" and not bps and j.args and S.width(fn, j.args[0]) in (1, 8):
            v = j.args[0]
        if v is None:
            continue
        if v[0] == "c" and not v[1]:
            continue
        fs = set(S.facts(fn, j.blk))
        if v[0] != "c":
            S.imply(fn, v, True, fs, 0)
        if ("dead",) in fs:
            continue
        out.append((j, v, fs))
    return out


def root_loc(e):
    while isinstance(e, tuple) and e[0] in ("ld", "idx", "fld"):
        e = e[1]
    return e


def end_is(e):
    """expression denotes the end of a text"""
    t = str(e)
    return ("length" in t or "size" in t or "::end" in t or "strlen" in t or "wcslen" in t)


def check_conv(p, S, rep, fn, c):
    q = p.q(c.callee)
    kind, signed = BASE[q]
    name = p.q(fn.name)
    endop = c.args[1]
    if not rep.ob(endop[0] != "null", "endptr %s" % name, c.where(), "%s: %s %s" % (name, q.replace("__isoc23_", ""), "reports where it stopped" if endop[0] != "null" else "is not asked where it stopped: trailing text is accepted")):
        return
    endloc = S.expr(fn, endop)
    conds = [x for x in flag_conditions(fn, S) if x[0].blk in fn.reach(c.blk) or x[0].blk == c.blk]
    if not rep.ob(bool(conds) or bool_params(fn) == [] and fn.ret not in ("i1", "i8"), "report %s" % name, c.where(),
                  "%s: the outcome of the conversion is reported" % name if conds else "%s never reports success or failure of the conversion" % name):
        return
    if not conds:
        rep.ob(False, "report %s" % name, c.where(), "%s gives no report of whether the text was a number" % name)
        return
    # the returned value
    rets = [b[-1] for b in fn.blocks if b[-1].op == "ret" and b[-1].args]
    for j, v, fs in conds:
        whole = nonempty = trip = limits = False
        tripbad = None
        for x in fs:
            args = [y for y in x[1:] if isinstance(y, tuple)]
            if x[0] in ("eq", "uge", "ule") and len(args) == 2:
                for a, b in (args, args[::-1]):
                    if a == ("ld", endloc) and end_is(b):
                        whole = True
                    if x[0] == "eq" and a == ("ld", ("ld", endloc)) and b == ("c", 0):
                        whole = True
                    if x[0] == "eq" and a == ("ld", ("idx", ("ld", endloc), ("c", 0), a[1][3] if a[0] == "ld" and a[1][0] == "idx" and len(a[1]) > 3 else None)) and b == ("c", 0):
                        whole = True
                    if x[0] == "eq" and a[0] == "bin" and a[1] == "sub" and ("ld", endloc) in a[2:] and end_is(b):
                        whole = True
            if x[0] in ("ne", "ugt", "ult") and len(args) == 2:
                for a, b in (args, args[::-1]):
                    if a == ("ld", endloc) and not end_is(b):
                        nonempty = True
            if x[0] == "false" and args and args[0][0] == "call" and args[0][1].endswith("::empty"):
                nonempty = True
            if x[0] in ("ne", "ugt", "sgt", "uge", "sge") and len(args) == 2 and args[1][0] == "c" and "length" in str(args[0]) + "size" in str(args[0]):
                nonempty = True
            if x[0] in ("ne", "ugt", "sgt", "uge", "sge", "ult", "ule") and len(args) == 2 and any(a[0] == "c" for a in args) and any(a[0] == "call" and a[1].split("::")[-1] in ("length", "size") for a in args):
                nonempty = True
            if "__errno_location" in str(x):
                limits = True
            e = args[0] if args else None
            if x[0] == "true" and e and e[0] == "call" and e[1].split("::")[-1] == "operator==" or x[0] == "eq" and e and e[0] == "call" and e[1].split("::")[-1] == "compare" and args[1] == ("c", 0):
                for a in e[2:4]:
                    if a[0] != "loc" or a[2] != fn.name:
                        continue
                    o = text_origin(p, fn, ("v", a[1]))
                    if o is None or len(o.args) < 2:
                        continue
                    pv = value_passed(S, fn, o.args[1])
                    if strip_all(fn, pv) != ("v", c.id):
                        continue
                    # same value as returned?
                    ok = True
                    for r in rets:
                        if strip_all(fn, r.args[0]) == ("v", c.id) and core_value(fn, r.args[0]) != core_value(fn, pv):
                            ok = False
                            tripbad = "the value compared with the text is not the value returned (it is narrowed differently)"
                    g = p.fns.get(o.callee)
                    gt = [t.replace("const ", "").replace("&", "").strip() for n, t in params(g)] if g else []
                    if gt and kind == "int":
                        uns = "unsigned" in gt[0] or re.match(r"v?u(int|short|long|char)", gt[0]) is not None or gt[0] == "size_t"
                        if uns == signed and not signed:
                            pass
                        if uns != (not signed):
                            ok = False
                            tripbad = "the text is compared with the value read as %s" % gt[0]
                    if ok:
                        trip = True
        if trip:
            whole = nonempty = True
        where = j.where()
        rep.ob(whole, "whole %s" % fn.dem, where, "%s: success %s" % (name, "means that the whole text was converted" if whole else "is reported although text may follow the number"))
        rep.ob(nonempty, "empty %s" % fn.dem, where, "%s: success %s" % (name, "excludes an empty text" if nonempty else "is reported for an empty text"))
        if kind == "int":
            rep.ob(trip or limits, "range %s" % fn.dem, where, "%s: success %s" % (name, "means that the value fits the result" if trip or limits else "is reported for a value that does not fit the result" + (": " + tripbad if tripbad else "")))


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("the value stored to the success report of a function that calls strto*/wcsto* implies: the end pointer reached the end of the text, the text is not empty and (integers) "
             "printing the returned value gives the text back or errno was tested; between a call of such a function and the end of its caller (or the next such call) the flag is read on every path that uses the number, "
             "unless the caller hands the value on as its own result")
    n = 0
    acc = set()
    for f in p.project():
        for c in f.all_insts():
            if c.op != "call" or not c.callee:
                continue
            q = p.q(c.callee)
            if q in UNCHECKED or q in STOX and (len(c.args) < 2 or c.args[1][0] == "null"):
                rep.ob(False, "%s in %s" % (q, p.q(f.name)), c.where(), "%s: %s accepts text of which only the beginning is a number" % (p.q(f.name), q))
            if q in BASE and len(c.args) >= 2:
                n += 1
                check_conv(p, S, rep, f, c)
                if bool_params(f):
                    acc.add(f.name)
    rep.count("conversions", n)
    rep.need(n, 6, "text-to-number conversions")
    m = 0
    blind = set()
    for f in p.project():
        for c in f.all_insts():
            if c.op != "call" or c.callee not in acc:
                continue
            m += 1
            g = p.fns[c.callee]
            bp = bool_params(g)[0]
            fl = c.args[bp]
            name = p.q(f.name)
            if fl[0] != "v" or f.insts[fl[1]].op != "alloca":
                continue     # the caller's own report: handed on
            rets = [b[-1] for b in f.blocks if b[-1].op == "ret" and b[-1].args]
            if any(strip_all(f, r.args[0]) == ("v", c.id) for r in rets):
                if not any(x.op == "load" and x.args[0] == fl for x in f.uses().get(fl, [])):
                    blind.add(f.name)
                continue     # hands the value on as its own result
            bad = unread(p, f, c, fl)
            rep.ob(bad is None, "report of %s in %s" % (p.q(g.name).split("::")[-1], name), c.where(),
                   "%s: the report of %s is %s" % (name, p.q(g.name).split("::")[-1], "read on every path" if bad is None else "false at line %d, where the number is used all the same" % -bad if bad < 0 else "not read before line %s: a text that is no number is taken as one" % bad))
    for f in p.project():
        for c in f.all_insts():
            if c.op == "call" and c.callee in blind and f.name not in blind:
                fs = S.facts(f, c.blk)
                t = S.expr(f, c.args[0])
                ok = any(x[0] == "true" and x[1][0] == "call" and x[1][1].split("::")[-1].startswith("Is") and t in x[1][2:] for x in fs if len(x) > 1 and isinstance(x[1], tuple))
                rep.ob(ok, "%s in %s" % (p.q(c.callee).split("::")[-1], p.q(f.name)), c.where(), "%s: converts text with %s, which does not report whether it is a number%s" % (p.q(f.name), p.q(c.callee).split("::")[-1], ", after a test that it is one" if ok else ""))
    rep.count("conversions with a report", m)
    rep.need(m, 5, "calls of the project's conversions")


def unread(p, f, c, fl):
    """line of an exit or renewed conversion reached from the call on a path that uses the value but never reads the flag, or None"""
    users, edges = set(), set()
    work, done = [("v", c.id)], set()
    while work:
        o = work.pop()
        if o in done:
            continue
        done.add(o)
        for u in f.uses().get(o, []):
            if u.op in ("sext", "zext", "trunc", "fptrunc", "fpext", "sitofp", "fptosi"):
                work.append(("v", u.id))
            elif u.op == "phi":
                for v, b in u.args:
                    if v == o:
                        edges.add((b, u.blk))
            else:
                users.add(u.id)
    found, wrong = [], []
    uses = f.uses()

    def step(i, st, env, w):
        if i.op == "load" and i.args[0] == fl and uses.get(("v", i.id)) and st in (0, 1):
            return [(2, None)]
        if i.id in users:
            if st == 0:
                st = 1
            if st == 3:
                wrong.append(i.line)
                return None
        if i.op == "call" and fl in i.args and i.callee and not i.callee.startswith("llvm.") or i.op == "ret" or i is c:
            if st == 1:
                found.append(i.line)
            return None
        return [(st, None)]

    def edge(b, t, st, env):
        if st == 0 and (b, t) in edges:
            return 1
        if st == 2:
            es = [e for e in f.cond_edges(b) if e[0] == t]
            if len(es) == 1 and es[0][1][0] == "v":
                o, pol = es[0][1], es[0][2]
                while o[0] == "v":
                    i = f.insts[o[1]]
                    if i.op == "xor" and i.args[1][0] == "c":
                        o, pol = i.args[0], not pol
                    elif i.op in ("trunc", "zext"):
                        o = i.args[0]
                    elif i.op == "load" and i.args[0] == fl:
                        return None if pol else 3
                    else:
                        break
        return st
    w = Walker(f)
    w.run([(c.blk, c.idx + 1, {}, 0)], step, edge)
    if wrong:
        return -wrong[0]
    return found[0] if found else None
