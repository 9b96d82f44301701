"""C18: fields of BSON documents are read through the accessor of the type they were found to have."""
import re
from sym import show
from paths import Walker

TECH = "typestate of the value tag: branch facts on value_type dominate every access of the value union; walk of the reader for the tags it does not know"
NOTE = "bson_value_t unions and bson_iter_* accessors everywhere in src and apps; what the server stores is outside."

# width of the access -> the tags whose union member is stored that way
TAGS = {"i8": (8,), "i32": (16, 17), "i64": (18, 9), "double": (1,)}
NAMES = {1: "double", 2: "text", 7: "ObjectId", 8: "bool", 9: "date", 16: "int32", 18: "int64"}
ITER = {"bson_iter_int32": (16,), "bson_iter_int64": (18,), "bson_iter_double": (1,), "bson_iter_utf8": (2,), "bson_iter_bool": (8,),
        "bson_iter_date_time": (9,), "bson_iter_time_t": (9,), "bson_iter_timeval": (9,), "bson_iter_oid": (7,), "bson_iter_dup_utf8": (2,)}
ASFORMS = {"bson_iter_as_bool": (8, 16, 18, 1), "bson_iter_as_int64": (8, 16, 18, 1), "bson_iter_as_double": (8, 16, 18, 1)}
READERS = {"GetNumericFromBsonIterator": (1, 2, 16, 18), "GetStringFromBsonIterator": (1, 2, 16, 18),
           "GetBoolFromBsonIterator": (1, 2, 8, 16, 18), "GetDatetimeFromBsonIterator": (2, 9)}


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("every access of a BSON value is dominated by a test that the value has the type of the accessed member (or goes through an iterator accessor after such a test)")
    rep.rule("each reader accepts every type that can represent its result; the value reaches the result without passing through a narrower type, dates are scaled from milliseconds, truth values keep their sense")
    rep.rule("for any other type, or a missing field, the reader returns the default, leaves the output alone and reports")
    rep.rule("a number is stored as a 32-bit field only if it is integral and in the range of 32-bit integers")
    n = 0
    for f in p.project():
        name = p.q(f.name)
        for i in f.all_insts():
            a = access(p, S, f, i)
            if a is None:
                continue
            n += 1
            V, tags, what = a
            got = known_tags(S, f, i.blk, V)
            ok = bool(got) and got <= set(tags)
            rep.ob(ok, "access %s in %s" % (what, name), i.where(), "%s: %s %s" % (name, what,
                   "is read after the type was found to match" if ok else "is read where the field is not known to have that type (known: %s)" % (sorted(NAMES.get(t, t) for t in got) or "nothing")))
    rep.count("typed accesses", n)
    rep.need(n, 12, "accesses of BSON values")
    readers(p, S, rep)
    finders(p, S, rep)
    writers(p, S, rep)


def value_base(e):
    """the bson_value_t an address expression lies in"""
    while isinstance(e, tuple) and e[0] in ("fld", "idx", "off"):
        if e[0] == "fld" and e[2] == "value":
            return e[1]
        e = e[1]
    return None


def access(p, S, f, i):
    """(tag expression, tags that allow the access, description)"""
    if i.op == "load":
        ad = S.expr(f, i.args[0])
        b = value_base(ad)
        if b is None or not is_value(S, f, b, ad):
            return None
        V = ("ld", ("fld", b, "value_type"))
        if i.ty == "ptr":
            return V, (2, 5, 13, 14), "a text or pointer member"
        if i.ty in TAGS:
            return V, TAGS[i.ty], "a %s member" % i.ty
        return None
    if i.op == "call" and i.callee:
        q = p.q(i.callee)
        if q in ITER:
            it = S.expr(f, i.args[0])
            return ("call", "bson_iter_type", it), ITER[q], q
        if q in ASFORMS:
            return None
        if i.callee in p.fns:
            for n, a in enumerate(i.args):
                ad = S.expr(f, a)
                b = value_base(ad)
                if b is not None and ad[0] == "fld" and ad[2] == "value" and is_value(S, f, b, ad):
                    ty = read_as(p, S, p.fns[i.callee], n, 0)
                    if ty in TAGS:
                        return ("ld", ("fld", b, "value_type")), TAGS[ty], "a %s member" % ty
        if q.startswith("bson_oid_"):
            for a in i.args:
                ad = S.expr(f, a)
                b = value_base(ad)
                if b is not None and is_value(S, f, b, ad):
                    return ("ld", ("fld", b, "value_type")), (7,), "an ObjectId member"
    return None


def read_as(p, S, g, n, depth):
    """type of the object that a function reads through its n-th argument"""
    for i in g.all_insts():
        if i.op == "load" and g.blocks and S.root(g, i.args[0]) == ("a", n) or i.op == "load" and i.args[0] == ("a", n):
            return i.ty
    if depth < 3:
        for i in g.all_insts():
            if i.op == "call" and i.callee in p.fns:
                for m, a in enumerate(i.args):
                    if a == ("a", n):
                        t = read_as(p, S, p.fns[i.callee], m, depth + 1)
                        if t:
                            return t
    return None


def is_value(S, f, b, ad):
    """the field named value belongs to a bson_value_t: its base has a value_type"""
    if b[0] == "call" and (b[1] in ("bson_iter_value", "mongoc_gridfs_file_get_id")):
        return True
    key = ("ld", ("fld", b, "value_type"))
    return any(key == S.expr(f, ("v", i.id)) for i in f.all_insts() if i.op == "load")


def known_tags(S, f, blk, V):
    out = set()
    first = True
    for x in S.facts(f, blk):
        t = tags_of(x, V)
        if t is not None:
            out = t if first else out & t
            first = False
    return out


def tags_of(x, V):
    if x[0] == "eq" and V in x[1:]:
        o = x[1] if x[2] == V else x[2]
        if o[0] == "c":
            return {o[1]}
    if x[0] == "in" and x[1] == V:
        return set(v[1] if isinstance(v, tuple) else v for v in x[2])
    if x[0] == "true" and V[0] == "call" and x[1][0] == "call" and x[1][1].startswith("bson_iter_holds"):
        return None
    return None


# ---- readers

def readers(p, S, rep):
    n = 0
    for f in p.project():
        last = p.q(f.name).split("::")[-1]
        if last not in READERS:
            continue
        n += 1
        name = f.dem.split("(")[0].split("::")[-1]
        seen = {}
        for i in f.all_insts():
            a = access(p, S, f, i)
            if a is None and i.op == "call" and i.callee and p.q(i.callee) in ASFORMS:
                for t in ASFORMS[p.q(i.callee)]:
                    seen.setdefault(t, []).append(i)
            if a is None:
                continue
            for t in known_tags(S, f, i.blk, a[0]) & set(a[1]):
                seen.setdefault(t, []).append(i)
        for t in READERS[last]:
            used = [i for i in seen.get(t, []) if flows_out(p, S, f, i)]
            rep.ob(bool(used), "%s accepts %s" % (last, NAMES[t]), f.blocks[0][0].where(),
                   "%s: a field of type %s %s" % (name, NAMES[t], "gives the result" if used else "never gives the result"))
            for i in used:
                if i.op != "load":
                    continue
                w = narrowing(p, S, f, i)
                if w is not None and (w == "scale" or result_bits(p, f) > w):
                    rep.ob(False, "%s narrows %s" % (last, NAMES[t]), i.where(), "%s: the value of type %s passes through %s bits before it becomes the result" % (name, NAMES[t], w))
                if t == 9:
                    ok = scaled(f, i)
                    rep.ob(ok, "%s scales dates" % last, i.where(), "%s: a date (milliseconds) %s" % (name, "is divided by 1000" if ok else "is not divided by 1000 to give seconds"))
        if last.startswith("GetBool"):
            polarity(p, S, f, name, rep)
        unknown(p, S, f, name, last, rep)
    formats(p, S, rep)
    rep.count("readers", n)
    rep.need(n, 4, "BSON readers")


def conversions(t):
    """how many values a scanf format stores"""
    return len([x for x in re.findall(r"%(%|\*|[^%*])", t) if x not in ("%", "*")])


def expected(p, S, g):
    """[(parameter with the format, number of conversions the result is compared with, {parameter: truth value} under which)]"""
    out = []
    for i in g.all_insts():
        if i.op != "call" or not i.callee or not p.q(i.callee).endswith("sscanf") or len(i.args) < 2:
            continue
        e = S.expr(g, i.args[1])
        while e[0] == "call" and e[1].split("::")[-1] in ("c_str", "data") and len(e) > 2:
            e = e[2]
        if e[0] != "arg" or not isinstance(e[1], int):
            continue
        n = [u.args[1][1] for u in g.uses().get(("v", i.id), []) if u.op == "icmp" and u.d.get("p") in ("eq", "ne") and u.args[1][0] == "c"]
        if len(n) == 1:
            out.append((e[1], n[0], {x[1][1]: x[0] == "true" for x in S.facts(g, i.blk) if x[0] in ("true", "false") and x[1][0] == "arg"}))
    return out


def formats(p, S, rep):
    """a text is taken apart with a format that has as many fields as the result is tested for"""
    want = {g.name: w for g in p.project() for w in [expected(p, S, g)] if w}
    n = 0
    for f in p.project():
        for i in f.all_insts():
            if i.op != "call" or i.callee not in want:
                continue
            es = [S.expr(f, a) for a in i.args]
            for k, m, under in want[i.callee]:
                if k >= len(es) or es[k][0] != "str":
                    continue
                if any(a < len(es) and es[a][0] == "c" and bool(es[a][1]) != v for a, v in under.items()):
                    continue
                n += 1
                c = conversions(es[k][1])
                name = f.dem.split("(")[0].split("::")[-1]
                rep.ob(c == m, "%s format" % name, i.where(), "%s: the format \"%s\" has %d fields%s" % (name, es[k][1], c, "" if c == m else " where %d must be found: no text ever matches" % m))
    rep.count("formats of dates", n)


def forward_uses(f, i):
    """instructions that a value flows into, through conversions, arithmetic, phis, locals and calls"""
    seen, work = set(), [("v", i.id)]
    out = []
    while work:
        v = work.pop()
        for u in f.uses().get(v, []):
            if u.id in seen:
                continue
            seen.add(u.id)
            out.append(u)
            if u.op == "store" and u.args[0] == v:
                a = u.args[1]
                if a[0] == "v":
                    work.append(a)
                    for w in f.uses().get(a, []):
                        if w.op == "load":
                            work.append(("v", w.id))
            elif u.op == "call":
                if u.ty != "void":
                    work.append(("v", u.id))
                for x in u.args:
                    if x[0] == "v" and f.insts[x[1]].op == "alloca":
                        work.append(x)
            elif u.op not in ("br", "switch", "ret"):
                work.append(("v", u.id))
    return out


def flows_out(p, S, f, i):
    if i.op == "call" and f.sret and any(S.expr(f, a) == ("arg", 0) for a in i.args):
        return True
    for u in forward_uses(f, i):
        if u.op == "ret" or u.op in ("br", "switch") and p.q(f.name).split("::")[-1].startswith("GetBool"):
            return True
        if u.op == "store" and S.expr(f, u.args[1])[0] == "arg":
            return True
        if u.op == "call" and u.args and u.args[0] == ("a", 0) and f.sret:
            return True
        if u.op == "call" and u.d.get("sret") and S.expr(f, u.args[0]) == ("arg", 0) and f.sret:
            return True
        if u.op == "call" and any(S.expr(f, a)[0] == "arg" for a in u.args):
            return True
    return False


def result_bits(p, f):
    """significant bits that the result type can hold"""
    last = p.q(f.name).split("::")[-1]
    if last.startswith("GetNumeric"):
        d = f.dem
        for t, b in (("double>", 53), ("float>", 24), ("long>", 63), ("int>", 31), ("short>", 15)):
            if t in d.split("(")[0] + ">":
                return b
        return 31
    if last.startswith("GetBool"):
        return 24
    return 53


MANT = {"float": 24, "double": 53}


def narrowing(p, S, f, i):
    """smallest number of bits the value is squeezed into on its way (None: not squeezed)"""
    least = None
    seen, work = set(), [("v", i.id)]
    while work:
        v = work.pop()
        for u in f.uses().get(v, []):
            if u.id in seen:
                continue
            seen.add(u.id)
            b = None
            if u.op == "trunc":
                b = int(u.ty[1:]) - 1 if u.ty.startswith("i") else None
                if b is not None and i.ty == "i8":
                    b = None
            elif u.op in ("sitofp", "uitofp", "fptrunc"):
                b = MANT.get(u.ty)
                if b is not None and i.ty == "i32" and b == 53 or i.ty == "double" and u.op != "fptrunc":
                    b = None
            elif u.op == "fptosi":
                b = int(u.ty[1:]) - 1
                if b < 31:
                    pass
            if b is not None:
                if u.op == "fptosi":
                    # truncation of a double to an integer: narrower than a double result
                    pass
                least = b if least is None else min(least, b)
            if u.op in ("trunc", "zext", "sext", "sitofp", "uitofp", "fptrunc", "fpext", "fptosi", "fptoui", "phi", "select"):
                work.append(("v", u.id))
            elif u.op == "store" and u.args[0] == v and u.args[1][0] == "v":
                for w in f.uses().get(u.args[1], []):
                    if w.op == "load":
                        work.append(("v", w.id))
    return least


def scaled(f, i):
    for u in forward_uses(f, i):
        if u.op in ("sdiv", "udiv") and u.args[1][0] == "c" and u.args[1][1] == 1000:
            return True
        if u.op == "fdiv":
            return True
        if u.op == "fmul":
            return True
    return False


def polarity(p, S, f, name, rep):
    """true only for values that are not zero"""
    FN[:], S0[:] = [f], [S]
    for b in f.blocks:
        t = b[-1]
        if t.op != "ret" or not t.args:
            continue
        for leaf, blk in leaves(f, t.args[0], t.blk, set()):
            e = S.expr(f, leaf)
            bad = None
            if has_value(e):
                k = sense(e)
                if k is False:
                    bad = "the opposite of the stored value"
            elif leaf[0] == "c" and leaf[1] & 1:
                fs = S.facts(f, blk)
                if any(x[0] == "true" and has_value(x[1]) and sense(x[1]) is False for x in fs) or \
                        any(x[0] == "false" and has_value(x[1]) and sense(x[1]) is True for x in fs):
                    bad = "true for a value that means false"
            elif leaf[0] == "c":
                fs = S.facts(f, blk)
                if any(x[0] == "true" and has_value(x[1]) and sense(x[1]) is True for x in fs):
                    bad = "false for a value that means true"
            if bad is None:
                bad = coarse(e)
            rep.ob(bad is None, "truth value", t.where(), "%s: %s" % (name, "keeps the sense of %s" % show(e, f) if bad is None else "returns " + bad))


def leaves(f, v, blk, seen):
    while v[0] == "v" and f.insts[v[1]].op in ("zext", "trunc", "sext"):
        v = f.insts[v[1]].args[0]
    if v[0] == "v" and f.insts[v[1]].op == "phi":
        if v in seen:
            return
        seen.add(v)
        for w, pb in f.insts[v[1]].args:
            yield from leaves(f, w, pb, seen)
    elif v[0] == "v" and f.insts[v[1]].op == "select":
        for w in f.insts[v[1]].args[1:]:
            yield from leaves(f, w, blk, seen)
    elif v[0] != "undef":
        yield v, blk


FN, S0 = [], []


def plain(e):
    """the field's number as it is, at most converted"""
    while isinstance(e, tuple) and e[0] in ("f2i", "i2f", "zx", "sx", "cast", "fpcast", "f2f"):
        e = e[1]
    if not isinstance(e, tuple) or e[0] not in ("ld", "phi"):
        return False
    return has_value(e)


def coarse(e, inverted=False):
    """a decision that another value of the field, meaning the opposite, would share"""
    while e[0] == "not":
        e = e[1]
    if e[0] == "cmp" and e[1].lstrip("ous") in ("lt", "gt", "le", "ge"):
        a, b = e[2], e[3]
        if is_zero(b) and plain(a) or is_zero(a) and plain(b):
            return "what the sign of the number says: numbers below zero do not mean true"
    if e[0] == "call" and e[1].startswith("std::") and e[1].split("::")[-1] in ("empty", "size", "length"):
        return "whether the text is empty, not whether it says true"
    return None


def has_value(e):
    if not isinstance(e, tuple):
        return False
    if e[0] == "fld" and len(e) > 2 and e[2] == "value":
        return True
    if e[0] == "ld" and len(e) > 1 and value_base(e[1]) is not None:
        return True
    if e[0] == "loc":
        return True
    if e[0] == "phi" and FN:
        return any(has_value(S0[0].expr(FN[0], v)) for v, b in leaves(FN[0], ("v", e[1]), None, set()) if not (v[0] == "v" and FN[0].insts[v[1]].op == "phi"))
    return any(has_value(x) for x in e[1:])


def sense(e):
    """True: the expression is true for non-zero values; False: for zero values; None: unknown"""
    if e[0] == "not":
        s = sense(e[1])
        return None if s is None else not s
    if e[0] == "call" and e[1].split("::")[-1] == "FloatEqual":
        return False if any(is_zero(x) for x in e[2:]) else None
    if e[0] == "call" and e[1].split("::")[-1] == "StringMatch":
        return True if any(x[0] == "str" and x[1].upper() == "TRUE" for x in e[2:] if isinstance(x, tuple)) else False
    if e[0] == "call" and e[1].split("::")[-1] in ("strcasecmp", "strcmp", "compare"):
        return False if any(x[0] == "str" and x[1].upper() == "TRUE" for x in e[2:] if isinstance(x, tuple)) else None
    if e[0] == "cmp":
        if any(is_zero(x) for x in e[2:]):
            inner = [x for x in e[2:] if not is_zero(x)]
            neg = e[1] in ("eq", "oeq", "ueq")
            if inner and isinstance(inner[0], tuple) and inner[0][0] == "call":
                s = sense(inner[0])
                if s is not None:
                    return (not s) if neg else s
            if e[1] in ("eq", "oeq", "ueq"):
                return False
            if e[1] in ("ne", "one", "une"):
                return True
        return None
    if e[0] == "ld" and value_base(e[1]) is not None:
        return True
    return None


def is_zero(x):
    if not isinstance(x, tuple) or x[0] not in ("c", "f"):
        return False
    try:
        return float(x[1]) == 0
    except ValueError:
        return False


def tag_condition(S, f, c):
    """('cmp', tags) of a condition on a value tag: (predicate, constant)"""
    e = S.expr(f, c)
    neg = False
    while e[0] == "not":
        e, neg = e[1], not neg
    if e[0] == "cmp" and e[1] in ("eq", "ne"):
        a, b = e[2], e[3]
        if a[0] == "c":
            a, b = b, a
        if b[0] == "c" and a[0] == "ld" and a[1][0] == "fld" and a[1][2] == "value_type" or a[0] == "call" and a[1] == "bson_iter_type" and b[0] == "c":
            return (e[1] == "eq") != neg
    return None


def reporting(p, i):
    if i.op != "call" or not i.callee:
        return False
    q = p.q(i.callee)
    return q.split("::")[-1] in ("StatusMessage", "Log", "printf", "fprintf", "puts") or q == "std::operator<<" or q.startswith("std::ostream::operator<<")


def unknown(p, S, f, name, last, rep):
    """walk with every test of the tag answered no"""
    outcome = []

    def step(i, st, env, w):
        if reporting(p, i):
            st = (True, st[1])
        if access(p, S, f, i) is not None:
            outcome.append(("access", i, st))
            return None
        if i.op == "store" and S.expr(f, i.args[1])[0] == "arg" and last.startswith("GetNumeric"):
            st = (st[0], True)
        if i.op == "ret":
            v = None
            if i.args:
                v = w.val(i.args[0], env)
            outcome.append(("ret", i, st, v))
            return None
        return [(st, None)]

    def edge(b, s, st, env):
        for e in f.cond_edges(b):
            if e[0] != s:
                continue
            if e[1] is not None and e[1][0] == "case":
                x = S.expr(f, e[1][1])
                if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == "value_type" and e[1][2] is not None:
                    return None
            elif e[1] is not None:
                t = tag_condition(S, f, e[1])
                if t is not None and t == e[2]:
                    return None
        return st
    w = Walker(f)
    w.run([(0, 0, {}, (False, False))], step, edge)
    rets = [o for o in outcome if o[0] == "ret"]
    silent = [o for o in rets if not o[2][0]]
    wrote = [o for o in rets if o[2][1]]
    rep.ob(not silent, "%s reports other types" % last, f.blocks[0][0].where(), "%s: a field of another type %s" % (name, "is reported" if not silent else "is not reported"))
    if last.startswith("GetNumeric"):
        rep.ob(not wrote, "%s keeps the output for other types" % last, f.blocks[0][0].where(), "%s: for another type the output is %s" % (name, "left alone" if not wrote else "written"))
        bad = [o for o in rets if o[3] not in (0, None)]
        rep.ob(not bad, "%s default" % last, f.blocks[0][0].where(), "%s: another type %s" % (name, "gives false" if not bad else "is reported as success"))
    elif last.startswith("GetBool"):
        bad = [o for o in rets if o[3] not in (0, None)]
        rep.ob(not bad, "%s default" % last, f.blocks[0][0].where(), "%s: another type gives %s" % (name, "false" if not bad else "true"))
    elif last.startswith("GetDatetime"):
        bad = [o for o in rets if isinstance(o[3], int) and o[3] not in (-1, 2 ** 64 - 1)]
        rep.ob(not bad, "%s default" % last, f.blocks[0][0].where(), "%s: another type gives %s" % (name, "-1" if not bad else "a valid date"))


def finders(p, S, rep):
    """field look-ups: the iterator is used only after it was found; a missing field is reported"""
    n = 0
    for f in p.project():
        finds = [i for i in f.all_insts() if i.op == "call" and i.callee and p.q(i.callee) in ("bson_iter_find", "bson_iter_init_find", "bson_iter_find_case", "bson_iter_next", "bson_iter_find_descendant")]
        if not finds:
            continue
        name = f.dem.split("(")[0].split("::")[-1]
        its = set(S.expr(f, i.args[0]) for i in finds)
        for i in f.all_insts():
            if i.op != "call" or not i.callee or not i.args:
                continue
            q = p.q(i.callee)
            if q in ("bson_iter_init", "bson_iter_find", "bson_iter_init_find", "bson_iter_next", "bson_iter_find_case") or q.startswith("std::"):
                continue
            if not (q.startswith("bson_iter_") or i.callee in p.fns):
                continue
            if S.expr(f, i.args[0]) not in its:
                continue
            n += 1
            ok = any(x[0] == "true" and x[1][0] == "call" and x[1][1] in ("bson_iter_find", "bson_iter_init_find", "bson_iter_next", "bson_iter_find_case") and x[1][2] == S.expr(f, i.args[0])
                     for x in S.facts(f, i.blk))
            rep.ob(ok, "%s found before %s" % (name, q.split("::")[-1]), i.where(), "%s: the field is read %s" % (name, "after it was found" if ok else "although it may not have been found"))
        if name.split("<")[0] in ("GetNumericFromBson", "GetStringFromBson", "GetBoolFromBson", "GetDatetimeFromBson"):
            missing(p, S, f, name, rep, set(i.id for i in finds))
    rep.count("uses of found fields", n)
    rep.need(n, 6, "uses of found fields")


def missing(p, S, f, name, rep, finds):
    outcome = []

    def step(i, st, env, w):
        if reporting(p, i):
            st = True
        if i.id in finds:
            return [(st, {("v", i.id): 0})]
        if i.op == "ret":
            outcome.append((i, st, w.val(i.args[0], env) if i.args else None))
            return None
        return [(st, None)]
    Walker(f).run([(0, 0, {}, False)], step, None)
    silent = [o for o in outcome if not o[1]]
    rep.ob(not silent, "%s reports a missing field" % name.split("<")[0], f.blocks[0][0].where(), "%s: a missing field %s" % (name, "is reported" if not silent else "is not reported"))
    want = -1 if "Datetime" in name else 0
    bad = [o for o in outcome if isinstance(o[2], int) and o[2] not in (want, want % 2 ** 64)]
    if "String" not in name:
        rep.ob(not bad, "%s default for a missing field" % name.split("<")[0], f.blocks[0][0].where(), "%s: a missing field gives %s" % (name, "the default" if not bad else "something else than the default"))


# ---- writers

def writers(p, S, rep):
    n = 0
    for f in p.project():
        for i in f.all_insts():
            if i.op != "call" or not i.callee or p.q(i.callee) != "bson_append_int32":
                continue
            e = S.expr(f, i.args[3])
            if e[0] != "f2i":
                continue
            n += 1
            x = e[1]
            fs = S.facts(f, i.blk)
            lo = any(y[0] in ("oge", "uge", "sge", "ge", "ogt") and y[1] == x or y[0] in ("ole", "sle", "le") and y[2] == x for y in fs)
            hi = any(y[0] in ("ole", "ule", "sle", "le", "olt") and y[1] == x or y[0] in ("oge", "sge", "ge") and y[2] == x for y in fs)
            whole = any(contains_call(y, "modf") or contains_call(y, "floor") or contains_call(y, "trunc") or contains_call(y, "f2i") for y in fs)
            name = p.q(f.name)
            miss = [t for t, o in (("not below the smallest 32-bit integer", lo), ("not above the largest", hi), ("integral", whole)) if not o]
            rep.ob(not miss, "%s stores a 32-bit field" % name, i.where(), "%s: a number is stored as a 32-bit integer %s" % (name, "after its range and integrality were tested" if not miss else "although it is not known to be " + ", ".join(miss)))
    rep.count("numbers stored as 32-bit fields", n)
    rep.need(n, 2, "numbers stored as 32-bit fields")


def contains_call(e, name):
    if not isinstance(e, tuple):
        return False
    if e and e[0] == "call" and e[1].split("::")[-1].startswith(name) or e and e[0] == name:
        return True
    return any(contains_call(x, name) for x in e[1:])
