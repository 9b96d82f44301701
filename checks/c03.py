"""C03: arrays are released once and only by their owner."""
import re

import grid
from fieldown import Cell, FieldOwn
from own import Own, releases, tok
from paths import Walker
from sym import show

TECH = "typestate of every owned member (as at entry, null, fresh, borrowed, released) paired with its ownership flag, along every path of every member function and through the functions it passes the member to"
NOTE = "members that some member function releases; elements of containers of pointers are followed within a function only."

TEXT = {"released twice": "is released although it has been released and not replaced on this path",
        "borrowed and released": "holds an array borrowed from another object on this path and is released",
        "released without looking at the flag": "is released although the ownership flag is not known to be set",
        "used after its release": "is used after its release",
        "filled while it may hold an array": "is handed to a function that allocates it, which does nothing if it holds an array, as it may on this path, and nobody asks whether it did",
        "left dangling": "still refers to the released array when the next object is handled",
        "said not to be initialised": "may hold an array although the object is marked as not initialised"}


def bad_end(st):
    s, fl = st
    if s == "L":
        return "still refers to an array it has released"
    if s == "B" and fl != 0:
        return "refers to an array of another object that it would release"
    if s == "F" and fl == 0:
        return "refers to an array of its own that it would not release"
    if s == "A" and fl not in (0, "-"):
        return "refers to the caller's array while the ownership flag may be set"
    return None


def run(ctx):
    key = "fieldown"
    if not hasattr(ctx, "_fieldown"):
        p, S = ctx.prog(), ctx.sym()
        O = Own(p)
        F = FieldOwn(p, S, O)
        own, es = F.entries()
        ctx._fieldown = (O, F, own, es, [(e, F.run(e[0], e[3], e[4])) for e in es])
    return ctx._fieldown


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("no path releases a member twice, releases it while it is borrowed, releases it without knowing that the ownership flag is set (where there is one), or uses it after its release")
    rep.rule("when a function returns, no member refers to an array it has released, and a member whose array belongs to someone else has its ownership flag cleared")
    rep.rule("a local variable that refers to a member's array is not released, unless the member gives it up")
    rep.rule("a function that gives up its object's data and then reads another object of the same class makes sure that the other is not the object itself")
    rep.rule("a local resource is neither used nor released again after its release")
    rep.rule("an element of a container of owned pointers that is released is overwritten, erased or cleared before the function ends, and what is put into such a container was allocated for it")
    O, F, own, es, rs = run(ctx)
    for cls in sorted(own):
        for fld, flag in sorted(own[cls].items()):
            rep.count("owned members")
    for (f, cls, fld, c, st, ctor, dtor), (outs, probs) in rs:
        name = p.q(f.name).replace("ccgl::", "")
        short = "%s of %s" % (fld, name.split("::")[-1])
        msgs = []
        for kind, iid, fn, fl in sorted(probs, key=str):
            if kind in TEXT:
                g = O.byname[fn]
                msgs.append((g.insts[iid].where(), TEXT[kind], p.q(fn).split("::")[-1]))
        if not dtor:
            for o in sorted(outs, key=str):
                b = bad_end(o[0])
                if b:
                    msgs.append((f.where(), b + " when the function returns", name.split("::")[-1]))
        if msgs:
            for w, t, g in sorted(set(msgs)):
                rep.ob(False, "%s %s" % (short, t[:24]), w, "%s: %s %s" % (name, fld, t))
        else:
            rep.ob(True, short, f.where(), "%s: %s is released at most once, by its owner, and not referred to afterwards" % (name, fld))
    containers(p, S, O, F, rep)
    aliases(p, S, O, F, own, rep)
    itself(p, S, O, F, own, rep)
    m = locals_(p, S, O, rep)
    rep.count("releases of local resources", m)
    rep.count("release sites reached", len(F.releases_seen))
    rep.need(len(rs), 100, "member functions and members")
    rep.need(len(F.releases_seen), 8, "release sites")


def second(S, f, op):
    """the element of a map that a value is the pointer of, if it is"""
    e = S.expr(f, op) if op[0] == "v" else None
    if e and e[0] == "ld":
        e = e[1]
    if e and e[0] == "fld" and e[2] == "second":
        return e
    return None


def element(S, f, op):
    """the address of the pointer an element of a map holds"""
    e = S.expr(f, op)
    return e is not None and e[0] == "fld" and e[2] == "second"


def containers(p, S, O, F, rep):
    n = 0
    for f in O.funcs:
        name = p.q(f.name).split("::")[-1]
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            r = releases(p.q(i.callee)) if i.callee not in O.byname else None
            if not r or r[0] >= len(i.args):
                continue
            e = second(S, f, i.args[r[0]])
            if e is None:
                continue
            n += 1
            bad = tail(p, S, O, f, i, e)
            rep.ob(not bad or "~" in name, "element in %s" % name, i.where(), "%s: the released element %s" % (name, "is erased or overwritten" if not bad else "is still in its container when the function goes on to " + bad))
    rep.count("released elements", n)
    m = 0
    for f in O.funcs:
        if not f.this:
            continue
        name = p.q(f.name).split("::")[-1]
        for i, ops in inserted(p, S, f, F):
            for op in ops:
                k = F.value(f, op, Cell("arg", -1))
                sh = shares(p, S, O, F, f, op)
                if sh:
                    rep.ob(False, "element put in by %s shares" % name, i.where(), "%s: the element put into a container whose elements this class releases refers to the %s of another object, which may go first" % (name, sh))
                m += 1
                rep.ob(k not in ("A", "B"), "element put in by %s" % name, i.where(), "%s: the element put into a container whose elements this class releases %s" % (name, "was made for it" if k not in ("A", "B") else "belongs to another object, so that both would release it"))
    rep.count("elements put into owning containers", m)
    rep.need(m, 3, "elements put into owning containers")


POINTERS = re.compile(r"[^(]*?\b(?:(?:multi|unordered_)?map<[^,(]*,\s*[^,(]*\*\s*,|(?:vector|list|deque|set)<[^,(]*\*\s*,)")


STRINGS = re.compile(r"std::(?:__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>")


def shares(p, S, O, F, f, op):
    """the member that the object just made has in common with one it was made from, for the constants its constructor was given"""
    out = None
    for v, b in grid.split(f, op, None):
        if v[0] != "v" or f.insts[v[1]].op != "call":
            continue
        for u in f.uses().get(v, []):
            g = O.byname.get(u.callee) if u.op == "call" and u.callee else None
            if g is None or not g.this or not u.args or u.args[0] != v or p.q(g.name).split("::")[-1] != p.q(g.name).split("::")[-2]:
                continue
            env = dict((("a", k), a[1]) for k, a in enumerate(u.args) if a[0] == "c")
            hit = []

            def step(x, st, env, w):
                if x.op == "store" and x.args[1][0] == "v":
                    e = S.expr(g, x.args[1])
                    if e[0] == "fld" and e[1] == ("this",):
                        t = g.insts[x.args[0][1]].ty if x.args[0][0] == "v" else None
                        k = F.value(g, x.args[0], Cell("fld", ("this",), e[2])) if t == "ptr" else None
                        st = st - {e[2]} | ({e[2]} if k == "B" else set())
                if x.op == "ret":
                    hit.extend(st)
                    return None
                return [(st, None)]
            Walker(g, 20000).run([(0, 0, env, frozenset())], step)
            if hit:
                out = sorted(hit)[0]
    return out


def aliases(p, S, O, F, own, rep):
    """releases of a member's array through a local variable"""
    flds = {(c, m) for c in own for m in own[c]}
    n = 0

    def member(f, a):
        e = S.expr(f, a) if a[0] == "v" else None
        while e is not None and e[0] in ("ld", "idx"):
            e = e[1]
        return e if e is not None and e[0] == "fld" and e[1] == ("this",) and any(m == e[2] for c, m in flds) else None
    for f in O.funcs:
        if not f.this:
            continue
        name = p.q(f.name).split("::")[-1]
        cls = p.q(f.name).rsplit("::", 1)[0]
        for i in f.all_insts():
            if i.op != "load" or i.ty != "ptr":
                continue
            e = member(f, i.args[0])
            if e is None or (cls, e[2]) not in flds:
                continue
            us = f.uses().get(("v", i.id), [])
            if not any(u.op in ("phi", "select") or u.op == "store" and u.args[0] == ("v", i.id) and u.args[1][0] == "v" and f.insts[u.args[1][1]].op == "alloca" for u in us):
                continue
            n += 1
            hit = []

            def step(x, st, env, w):
                names, rel = st
                if x.op == "store":
                    a = x.args[1]
                    if S.expr(f, a) == e if a[0] in ("v", "a") else False:
                        return None  # given up
                    if a[0] == "v" and f.insts[a[1]].op == "alloca":
                        if x.args[0] in names:
                            names = names | {a}
                        elif a in names:
                            names = names - {a}
                elif x.op == "load" and x.args[0] in names and x.args[0] != ("v", i.id) and f.insts[x.args[0][1]].op == "alloca":
                    names = names | {("v", x.id)}
                elif x.op == "ret":
                    if rel:
                        hit.append(rel)
                    return None
                elif x.op == "call" and x.callee:
                    r = releases(p.q(x.callee)) if x.callee not in O.byname else None
                    if r and r[0] < len(x.args) and base(f, x.args[r[0]]) in names and base(f, x.args[r[0]]) != ("v", i.id):
                        rel = x.id
                    elif r is None and x.callee in O.byname:
                        for k, a in enumerate(x.args):
                            if a[0] == "v" and a in names and f.insts[a[1]].op == "alloca":
                                if F.releases_out(O.byname[x.callee], k):
                                    rel = x.id
                                    names = names - {a}
                                else:
                                    names = names - {a}
                            elif a[0] in ("v", "a") and S.expr(f, a) == e:
                                return None  # the member is handed over and may be replaced
                return [((names, rel), None)] if names or rel else None

            def edge(b, s2, st, env):
                names, rel = st
                ph = {("v", x.id) for x in f.blocks[s2] if x.op == "phi"}
                more = {("v", x.id) for x in f.blocks[s2] if x.op == "phi" and any(pb == b and a in names for a, pb in x.args)}
                return (names - ph | more, rel)
            w = Walker(f, 20000)
            w.run([(i.blk, i.idx + 1, O.known(f, i.blk), (frozenset({("v", i.id)}), None))], step, edge)
            rep.ob(not hit or w.overflow, "%s kept in a local variable by %s" % (e[2], name), f.insts[hit[0]].where() if hit else i.where(),
                   "%s: %s %s" % (name, e[2], "is released through a local variable that refers to it and still refers to the array afterwards" if hit else "is not released through a local variable"))
    rep.count("members kept in local variables", n)


def itself(p, S, O, F, own, rep):
    """functions that give up the data of their object and read another object of its class"""
    n = 0
    for f in O.funcs:
        if not f.this or not f.dity:
            continue
        cls = p.q(f.name).rsplit("::", 1)[0]
        name = p.q(f.name).split("::")[-1]
        if cls not in own or name == cls.split("::")[-1] or "~" in name:
            continue
        m = re.match(r".*?(<[^()]*>)::" + re.escape(name), f.dem)
        args = m.group(1).strip("<>").split(",") if m else []
        if len(args) == 2 and args[0].strip() == args[1].strip():
            continue  # where two parameters of a template happen to be the same
        for k in range(len(f.dity) - 1):
            a = ("a", k + (1 if f.sret else 0))
            if a == f.this or not re.match(r"(const )?(\w+::)*%s(<[^()]*>)?( const)? ?[&*]+$" % re.escape(cls.split("::")[-1]), f.dity[1 + k].strip()):
                continue
            if m and args and m.group(1).replace(" ", "") not in f.dity[1 + k].replace(" ", ""):
                continue
            me, it = ("this",), S.expr(f, a)
            rel = []
            for i in f.all_insts():
                if i.op != "call" or not i.callee:
                    continue
                g = O.byname.get(i.callee)
                if g is None:
                    r = releases(p.q(i.callee))
                    e = S.expr(f, i.args[r[0]]) if r and r[0] < len(i.args) and i.args[r[0]][0] in ("v", "a") else None
                    if e and e[0] == "ld" and e[1][0] == "fld" and e[1][1] == me:
                        rel.append(i)
                elif g.this and i.args and i.args[0] == f.this and p.q(g.name).rsplit("::", 1)[0] == cls and F.released(g, frozenset()):
                    rel.append(i)
                elif any(x[0] in ("v", "a") and S.expr(f, x)[0] == "fld" and S.expr(f, x)[1] == me and S.expr(f, x)[2] in own[cls] and F.releases_out(g, j) for j, x in enumerate(i.args)):
                    rel.append(i)
            if not rel:
                continue
            later = [i for i in f.all_insts() if a in i.args and i.op in ("call", "getelementptr", "load") and any(r.blk != i.blk and reach(f, r.blk, i.blk) or r.blk == i.blk and r.idx < i.idx for r in rel)]
            if not later:
                continue
            n += 1
            bad = [r for r in rel if not any(t[0] == "ne" and len(t) == 3 and {t[1], t[2]} == {me, it} for t in S.facts(f, r.blk))]
            rep.ob(not bad, "%s with itself" % name, (bad or rel)[0].where(), "%s: what the object holds is released%s, and the other one is read afterwards" % (name, " although the other object may be this one" if bad else " only when the other object is another"))
    rep.count("functions that take over another object of their class", n)


def reach(f, a, b):
    todo, seen = list(f.succ(a)), set()
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += list(f.succ(x))
    return False


def owning(p, S, F=None):
    """members of map type whose elements a member function of their class releases"""
    if hasattr(S, "_owning"):
        return S._owning
    own = set()
    for f in p.project():
        if not f.this:
            continue
        flds, rel = set(), False
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            r = releases(p.q(i.callee))
            if r and r[0] < len(i.args) and second(S, f, i.args[r[0]]) is not None:
                rel = True
            g = F.O.byname.get(i.callee) if F is not None else None
            if g is not None and any(a[0] == "v" and element(S, f, a) and F.releases_out(g, k) for k, a in enumerate(i.args)):
                rel = True
            if p.q(i.callee).startswith("std::") and p.q(i.callee).split("::")[-1] in ("begin", "find", "cbegin", "at", "operator[]") and i.args and POINTERS.match(STRINGS.sub("string", p.dem(i.callee))):
                e = S.expr(f, i.args[0])
                if e[0] == "fld" and e[1] == ("this",):
                    flds.add((p.q(f.name).rsplit("::", 1)[0], e[2]))
        if rel:
            own |= flds
    S._owning = own
    return own


def inserted(p, S, f, F=None):
    """[(call or store, [operands of the pointers put in])]"""
    own = owning(p, S, F)
    cls = p.q(f.name).rsplit("::", 1)[0]

    def mine(op):
        e = S.expr(f, op) if op[0] in ("v", "a") else None
        return e is not None and e[0] == "fld" and e[1] == ("this",) and (cls, e[2]) in own
    out = []
    insts = list(f.all_insts())

    def held(op, depth=0):
        """what the local variable (or the pair) that a call is given refers to holds"""
        if op[0] != "v" or depth > 2:
            return []
        r = []
        d = f.insts[op[1]]
        if d.op == "alloca":
            for u in f.uses().get(op, []):
                if u.op == "store" and u.args[1] == op and u.args[0][0] in ("v", "a", "null"):
                    r.append(u.args[0])
                elif u.op == "call" and u.callee and u.args and u.args[0] == op and p.q(u.callee).split("::")[-1] in ("make_pair", "pair"):
                    for a in u.args[1:]:
                        r += held(a, depth + 1)
        return r
    for i in insts:
        if i.op == "call" and i.callee and i.args and p.q(i.callee).startswith("std::") and mine(i.args[0]) \
                and p.q(i.callee).split("::")[-1] in ("emplace", "insert", "emplace_hint", "insert_or_assign", "try_emplace", "push_back", "emplace_back"):
            ops = []
            for a in i.args[1:]:
                ops += held(a)
            ops = [o for o in ops if o[0] == "a" or o[0] == "v" and pointer(f, o)]
            out.append((i, ops))
        elif i.op == "store" and i.args[1][0] == "v":
            a = f.insts[i.args[1][1]]
            if a.op == "call" and a.callee and a.args and p.q(a.callee).startswith("std::") and p.q(a.callee).split("::")[-1] in ("at", "operator[]") and mine(a.args[0]):
                out.append((i, [i.args[0]]))
    return out


def pointer(f, o):
    d = f.insts[o[1]]
    return d.ty == "ptr" or (d.ty or "").endswith("*")


def tail(p, S, O, f, i, e):
    """a way from the release of an element to the end of the function, or to another release of it, that leaves it in its container"""
    todo, seen = [(i.blk, i.idx + 1)], set()
    loops = f.natural_loops()
    while todo:
        b, k = todo.pop()
        stop = False
        for x in f.blocks[b][k:]:
            if x.op == "store" and x.args[1][0] == "v" and S.expr(f, x.args[1]) == e:
                stop = True
            elif x.op == "call" and x.callee:
                q = p.q(x.callee).split("::")[-1]
                if q in ("erase", "clear", "operator="):
                    stop = True
            elif x.op == "ret":
                return "return"
            if stop:
                break
        if stop:
            continue
        for s in f.succ(b):
            if s not in seen:
                seen.add(s)
                todo.append((s, 0))
    return None


def locals_(p, S, O, rep):
    """after the release of a value that a function holds in a local variable, the function does not use it again"""
    n = 0
    for f in O.funcs:
        name = p.q(f.name).split("::")[-1]
        for i in f.all_insts():
            if i.op != "call" or not i.callee or i.callee in O.byname:
                continue
            r = releases(p.q(i.callee))
            if not r or r[0] >= len(i.args):
                continue
            v = base(f, i.args[r[0]])
            if v[0] not in ("v", "a") or second(S, f, v):
                continue
            slot = None
            if v[0] == "v" and f.insts[v[1]].op == "load":
                slot = tok(f, f.insts[v[1]].args[0])
                if slot is None:
                    continue  # members and elements
            n += 1
            bad = again(p, O, f, i, v, slot)
            rep.ob(bad is None, "%s in %s" % (p.q(i.callee), name), (bad or i).where(), "%s: what %s releases is %s" % (name, p.q(i.callee), "not used afterwards" if bad is None else "used again"))
    return n


def base(f, v):
    while v[0] == "v" and f.insts[v[1]].op in ("bitcast", "freeze") or v[0] == "v" and f.insts[v[1]].op == "getelementptr" and all(x[0] == "c" and x[1] == 0 for x in f.insts[v[1]].args[1:]):
        v = f.insts[v[1]].args[0]
    return v


def again(p, O, f, i, v, slot):
    hit = []

    def step(x, st, env, w):
        if ("v", x.id) in st:
            st = st - {("v", x.id)}
            if not st:
                return None
        if x.op == "load" and slot in st and tok(f, x.args[0]) == slot and slot:
            return [(st | {("v", x.id)}, None)]
        if x.op == "store" and slot in st and tok(f, x.args[1]) == slot:
            st = st - {slot}
            return [(st, None)] if st else None
        if x.op in ("load", "store") and base(f, x.args[-1]) in st and not (x.op == "load" and tok(f, x.args[0])):
            a = x.args[-1]
            if base(f, a)[0] in ("v", "a") and not (slot and base(f, a) == slot):
                hit.append(x)
                return None
        if x.op == "call":
            for a in x.args:
                if base(f, a) in st and not (x.callee or "").startswith("llvm."):
                    hit.append(x)
                    return None
                if slot and tok(f, a) == slot and slot in st:
                    return None
        return [(st, None)]
    w = Walker(f, limit=20000)
    env = O.known(f, i.blk)
    start = frozenset({v} | ({slot} if slot else set()))

    def edge(b, s, st, env):
        ph = {("v", x.id) for x in f.blocks[s] if x.op == "phi"}
        more = {("v", x.id) for x in f.blocks[s] if x.op == "phi" and any(pb == b and a in st for a, pb in x.args)}
        return (st - ph) | more or None
    w.run([(i.blk, i.idx + 1, env, start)], step, edge)
    return hit[0] if hit else None
