"""C17: classes that release a resource in their destructor cannot be copied member by member."""
import os, re, subprocess, tempfile, shutil
import ir
from ir import DEFS, INCS, AnalysisBroken
from sym import show
from effects import path_of

TECH = "compile-fail witnesses (type traits) for every owning class discovered in the IR, plus dataflow over user-written copy and move operations"
NOTE = ("Owning classes are found from their destructors (any member released there, directly or through member functions). The witnesses are compiled from "
        "the current headers; copy operations that a class does offer are checked to store no pointer of their source.")

RELEASE = re.compile(r"^(operator delete(\[\])?|free|VSIFree|CPLFree|GDALClose|CSLDestroy|fclose|closedir|bson_(destroy|free|strfreev)|mongoc_\w+_destroy)$")


def released(p, E, S, f, seen=None):
    """fields of `this` whose pointee is released by f or by member functions it calls: {field: inst}"""
    seen = seen if seen is not None else set()
    if f.name in seen:
        return {}
    seen.add(f.name)
    out = {}

    def note(op, i):
        for e in E.resolve(f, op):
            r, path = path_of(e)
            fl = [x[1:] for x in path if x.startswith(".")]
            if r == ("this",) and fl:
                out.setdefault(fl[0], i)
    for i in f.all_insts():
        if i.op != "call" or not i.callee or not i.args:
            continue
        q = p.q(i.callee)
        g = p.fns.get(i.callee)
        if g is None:
            if RELEASE.match(q):
                note(i.args[0], i)
        else:
            for root, path in E.summary(g):
                if path and path[-1] == "free":
                    n = g.this[1] if root[0] == "this" and g.this else root[1] if root[0] == "arg" else None
                    if root[0] == "this":
                        if n is not None and i.args[n] == f.this:
                            fl = [x[1:] for x in path if x.startswith(".")]
                            if fl:
                                out.setdefault(fl[0], i)
                        continue
                    if n is not None and n < len(i.args):
                        note(i.args[n], i)
            if g.this and i.args[g.this[1]] == f.this:
                for k in released(p, E, S, g, seen):
                    out.setdefault(k, i)
    return out


def witness(repo, asserts):
    """asserts: [(tag, condition)] -> (set of tags that fail, other errors)"""
    d = tempfile.mkdtemp(prefix="ccgl-verif-")
    try:
        src = os.path.join(d, "w.cpp")
        with open(src, "w") as f:
            f.write('#include <type_traits>\n#include "ccgl.h"\n')
            for t, c in asserts:
                f.write('static_assert(%s, "WITNESS<%s>");\n' % (c, t))
        r = subprocess.run(["clang++", "-std=c++11", "-fsyntax-only", "-w", "-ferror-limit=0"] + DEFS + ["-I" + os.path.join(repo, "src"), "-I" + repo] + INCS + [src],
                           capture_output=True, text=True)
        bad = set(re.findall(r"error: static assertion failed[^\n]*WITNESS<([^>]*)>", r.stderr))
        other = [l for l in r.stderr.splitlines() if "error:" in l and "WITNESS<" not in l]
        return bad, other
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx, rep):
    p, S, E = ctx.prog(), ctx.sym(), ctx.effects()
    rep.rule("a class whose destructor releases what a member refers to is neither copy constructible nor copy assignable, "
             "unless its own copy operation stores no pointer of the source object; a move operation leaves the source without the pointer")
    own = {}
    for f in p.project():
        m = re.match(r"^(.*)::~(\w+)\(\)$", f.dem)
        if not m:
            continue
        r = released(p, E, S, f)
        if r:
            own.setdefault(m.group(1), (f, set()))[1].update(r)
    rep.count("owning classes", len(own))
    rep.need(len(own), 5, "classes that release resources in their destructor")
    tests = []
    for c in sorted(own):
        for t, k in (("copy_constructible", "copy constructor"), ("copy_assignable", "copy assignment")):
            tests.append((c + "|" + k, "!std::is_%s<%s >::value" % (t, c)))
    bad, other = witness(p.repo, [(str(n), c) for n, (t, c) in enumerate(tests)])
    if other:
        raise AnalysisBroken("witness program: " + other[0])
    for n, (t, c) in enumerate(tests):
        cls, what = t.split("|")
        f, fields = own[cls]
        short = re.sub(r"<.*", "", cls).split("::")[-1]
        if str(n) not in bad:
            rep.ob(True, "%s %s" % (short, what), f.where() if hasattr(f, "where") else "%s:%d" % (f.shortfile, f.line), "%s (releases %s) has no usable %s" % (cls, ", ".join(sorted(fields)), what))
            continue
        # offered: must be user-written and deep
        ops = copy_ops(p, cls, what)
        why = None
        if not ops:
            why = "is copied member by member by the %s the compiler generates" % what
        for g in ops:
            i = shallow(p, S, E, g, fields)
            if i is not None:
                why = "shares the pointer it copies in its %s (%s)" % (what, i.where())
        rep.ob(why is None, "%s %s" % (short, what), "%s:%d" % (f.shortfile, f.line),
               "%s, which releases %s in its destructor, %s" % (cls, ", ".join(sorted(fields)), why or "has a %s of its own that shares nothing" % what))
    for c in sorted(own):
        short = re.sub(r"<.*", "", c).split("::")[-1]
        for g in copy_ops(p, c, "move"):
            for fld in sorted(own[c][1]):
                ok = moved_out(p, S, E, g, fld)
                rep.ob(ok, "%s move %s" % (short, fld), "%s:%d" % (g.shortfile, g.line), "moving from a %s %s" % (c, "leaves its %s empty" % fld if ok else "leaves it owning %s as well" % fld))


def copy_ops(p, cls, what):
    """user-visible functions of the class: copy constructors / copy assignments / move operations present in the IR"""
    out = []
    short = re.sub(r"<.*", "", cls).split("::")[-1]
    for f in p.fns.values():
        if not f.dem.startswith(cls + "::"):
            continue
        rest = f.dem[len(cls) + 2:]
        name, arg = rest.split("(", 1)[0], rest[rest.find("(") + 1:-1]
        if what == "copy constructor" and name == short and re.match(r"^%s( const)?&$" % re.escape(cls), arg):
            out.append(f)
        elif what == "copy assignment" and name == "operator=" and re.match(r"^%s( const)?&?$" % re.escape(cls), arg):
            out.append(f)
        elif what == "move" and name in (short, "operator=") and arg == cls + "&&":
            out.append(f)
    return out


def shallow(p, S, E, g, fields):
    """a store of a pointer read from another object's owning member into this object's"""
    for i in g.all_insts():
        if i.op == "store":
            t = set(path_of(e)[0] for e in E.resolve(g, i.args[1]))
            if ("this",) in t:
                for v in E.resolve(g, i.args[0]):
                    r, path = path_of(v)
                    if r[0] == "arg" and path and path[-1] == "*" and any(("." + x) in path for x in fields) and path.count("*") == 1 and path[-2] in ["." + x for x in fields]:
                        return i
        elif i.op == "call" and i.callee and (i.callee.startswith("llvm.memcpy")):
            t = set(path_of(e)[0] for e in E.resolve(g, i.args[0]))
            if ("this",) in t and any(path_of(e)[0][0] == "arg" and not path_of(e)[1] for e in E.resolve(g, i.args[1])):
                return i
    return None


def moved_out(p, S, E, g, fld):
    """the source's member is overwritten (or swapped) by the move operation, or the member is not taken at all"""
    takes = False
    for i in g.all_insts():
        for root, path in E.inst_writes(g, i) if i.op in ("store", "call") else ():
            if root[0] == "arg" and "." + fld in path:
                return True
        if i.op == "call" and i.callee:
            h = p.fns.get(i.callee)
            if h is not None and any(a[0] == "a" and a != g.this for a in i.args):
                for n, a in enumerate(i.args):
                    if a[0] == "a" and a != g.this and any(r == ("arg", n) and "." + fld in path for r, path in E.summary(h)):
                        return True
        if i.op == "store":
            for v in E.resolve(g, i.args[0]):
                r, path = path_of(v)
                if r[0] == "arg" and "." + fld in path:
                    takes = True
    return not takes
