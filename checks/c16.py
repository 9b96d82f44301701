"""C16: everything the public headers declare is defined, links once, and instantiates."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import cast
from cast import CONFIGS, cmd
from ir import AnalysisBroken, repo_units

TECH = "declaration/definition matching on the syntax tree and the symbol tables of all build configurations, and generated instantiation witnesses for every template"
NOTE = ("All eight combinations of the GDAL, MongoDB and OpenMP options; every header on its own; every function and class template with ten element types. "
        "Symbols of third-party libraries and platforms other than Linux are outside.")

NUM = ["int", "float", "double", "short", "unsigned short", "unsigned int", "long", "unsigned long", "signed char", "unsigned char"]
TEXT = ["std::string", "std::wstring"]
# element types a template is documented not to take (numeric result of an approximation, ...)
RASTER_PAIRS = [("float", "int"), ("int", "int"), ("double", "double"), ("float", "float"), ("short", "int"), ("unsigned short", "int"), ("unsigned int", "int"),
                ("long", "int"), ("unsigned long", "int"), ("signed char", "int"), ("unsigned char", "int"), ("double", "float"), ("int", "float")]


def cfgname(c):
    return "+".join(x.replace("USE_", "").replace("SUPPORT_", "") for x in c if x != "LINUX") or "plain"


def nm(obj):
    out = {}
    for l in subprocess.run(["nm", obj], capture_output=True, text=True).stdout.splitlines():
        m = re.match(r"^[0-9a-f ]{16} (\w) (\S+)$", l)
        if m:
            out[m.group(2)] = m.group(1)
    return out


def check(ctx, rep):
    repo = __import__("ir").REPO
    src = os.path.join(repo, "src")
    units = [u for u in repo_units(repo) if u.startswith(src + "/")]
    headers = sorted(f for f in os.listdir(src) if f.endswith((".h", ".hpp")))
    rep.rule("in every build configuration: each declared function has exactly one definition that links; each header compiles on its own and defines nothing twice when "
             "included in two units; each template has a body that compiles for the element types")
    tmp = tempfile.mkdtemp(prefix="ccgl-verif-")
    try:
        jobs = []

        def comp(defs, path, obj):
            r = subprocess.run(cmd(repo, defs, ["-O0", "-c", path, "-o", obj]), capture_output=True, text=True)
            return r
        hsrc = {}
        for h in headers:
            hsrc[h] = os.path.join(tmp, "h_" + re.sub(r"\W", "_", h) + ".cpp")
            with open(hsrc[h], "w") as f:
                f.write('#include "%s"\n' % h)
        with ThreadPoolExecutor(8) as ex:
            res = {}
            for c in CONFIGS:
                for u in units:
                    o = os.path.join(tmp, cfgname(c) + "_" + os.path.basename(u) + ".o")
                    res[(c, u)] = (ex.submit(comp, c, u, o), o)
                for h in headers:
                    o = os.path.join(tmp, cfgname(c) + "_" + os.path.basename(hsrc[h]) + ".o")
                    res[(c, h)] = (ex.submit(comp, c, hsrc[h], o), o)
            decls = {c: ex.submit(cast.declarations, repo, c, hsrc["ccgl.h"]) for c in CONFIGS if "ccgl.h" in hsrc}
            rep.need(len(decls), 1, "top-level headers")
            # headers on their own
            for c in CONFIGS:
                for h in headers:
                    fut, o = res[(c, h)]
                    r = fut.result()
                    e = [l for l in r.stderr.splitlines() if "error:" in l]
                    rep.ob(r.returncode == 0, "header %s" % h, "src/" + h, "configuration %s: a program that includes only %s %s" % (cfgname(c), h, "compiles" if r.returncode == 0 else "does not compile: " + (e[0] if e else "?").replace(repo + "/", "")))
                    if r.returncode == 0:
                        twice = sorted(s for s, t in nm(o).items() if t in "TDBR" and s.startswith("_ZN4ccgl") or t in "TDB" and "4ccgl" in s)
                        rep.ob(not twice, "twice %s" % h, "src/" + h, "configuration %s: %s" % (cfgname(c), "%s defines %s in every unit that includes it: two such units do not link" % (h, demangle(twice[0])) if twice else "%s can be included in any number of units" % h))
            # definitions
            defined = {}
            for c in CONFIGS:
                syms, undef = {}, {}
                ok = True
                for u in units:
                    fut, o = res[(c, u)]
                    r = fut.result()
                    if r.returncode:
                        e = [l for l in r.stderr.splitlines() if "error:" in l]
                        rep.ob(False, "unit %s" % os.path.basename(u), "src/" + os.path.basename(u), "configuration %s: %s does not compile: %s" % (cfgname(c), os.path.basename(u), (e[0] if e else "?").replace(repo + "/", "")))
                        ok = False
                        continue
                    for s, t in nm(o).items():
                        if t == "U":
                            undef.setdefault(s, u)
                        elif t in "TDBRVW":
                            if t in "TDB" and s in syms and syms[s][1] in "TDB" and "ccgl" in s:
                                rep.ob(False, "duplicate %s" % short(s), "src/" + os.path.basename(u), "configuration %s: %s is defined in two units" % (cfgname(c), demangle(s)))
                            if s not in syms or syms[s][1] in "VW":
                                syms[s] = (u, t)
                defined[c] = syms
                for s, u in sorted(undef.items()):
                    if "4ccgl" in s and s not in syms:
                        rep.ob(False, "undefined %s" % short(s), "src/" + os.path.basename(u), "configuration %s: %s is used but nowhere defined" % (cfgname(c), demangle(s)))
            nd = 0
            wit = []
            for c in CONFIGS:
                ds, classes = decls[c].result()
                redecl = {}
                for d in ds:
                    if d.prev:
                        redecl.setdefault(d.prev, []).append(d)
                        redecl[d.id] = redecl[d.prev]
                for d in ds:
                    if d.prev or d.deleted or d.pure:
                        continue
                    where = "%s:%d" % (d.file.replace(repo + "/", "") if d.file else "src", d.line)
                    if d.access == "private" and (d.name == d.cls[-1] if d.cls else False or d.name == "operator="):
                        continue
                    nd += 1
                    body = d.body or any(x.body for x in redecl.get(d.id, []))
                    if d.tparams is None and not d.clstmpl:
                        m = d.mangled
                        cand = [m] + ([m.replace("C1E", "C2E", 1)] if m and "C1E" in m else []) if m else []
                        ok = body or any(x in defined[c] for x in cand)
                        rep.ob(ok, "defined %s" % d.qual, where, "configuration %s: %s is declared %s" % (cfgname(c), d.qual + sig(d), "and defined" if ok else "but defined nowhere: a program that uses it does not link"))
                    else:
                        ok = body or expl(defined[c], d)
                        rep.ob(ok, "defined %s" % d.qual, where, "configuration %s: template %s is declared %s" % (cfgname(c), d.qual + sig(d), "and defined" if ok else "but has no body"))
                        if ok and d.tparams is not None and body:
                            wit.append((c, d, where))
                for cn, tp, acc in classes:
                    if tp is not None and acc == "public":
                        wit.append((c, (cn, tp), "src"))
            rep.count("declarations x configurations", nd)
            rep.count("configurations", len(CONFIGS))
            rep.need(nd, 200, "declared functions")
            # instantiations
            per = {}
            for c, d, where in wit:
                for n, (code, types) in enumerate(witness(d)):
                    per.setdefault(c, []).append((d, where, types, code))
            rep.count("instantiations x configurations", sum(len(v) for v in per.values()))
            rep.need(sum(len(v) for v in per.values()), 100, "template instantiations")

            def runw(c, items, n):
                p = os.path.join(tmp, "w_%s_%d.cpp" % (cfgname(c), n))
                with open(p, "w") as f:
                    f.write('#include <string>\n#include <vector>\n#include "ccgl.h"\n')
                    for k, (d, where, types, code) in enumerate(items):
                        f.write("#line %d \"WIT\"\n%s\n" % (k + 1, code.replace("@K@", str(k))))
                r = subprocess.run(cmd(repo, c, ["-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", p]), capture_output=True, text=True)
                return r
            futs = []
            for c, items in per.items():
                for n in range(0, len(items), 60):
                    futs.append((c, items[n:n + 60], ex.submit(runw, c, items[n:n + 60], n)))
            for c, items, fu in futs:
                r = fu.result()
                bad = {}
                if r.returncode:
                    cur = None
                    for l in r.stderr.splitlines():
                        m = re.match(r"^(\S+):(\d+):\d+: (error|note): (.*)", l)
                        if not m:
                            continue
                        if m.group(3) == "error":
                            cur = m.group(1).replace(repo + "/", "") + ":" + m.group(2) + ": " + m.group(4)
                        if m.group(1) == "WIT":
                            bad.setdefault(int(m.group(2)) - 1, cur)
                    if not bad:
                        raise AnalysisBroken("instantiation witness: " + r.stderr[:600])
                for k, (d, where, types, code) in enumerate(items):
                    name = d[0] if isinstance(d, tuple) else d.qual
                    rep.ob(k not in bad, "instantiate %s" % name.split("::", 1)[1], where, "configuration %s: %s<%s> %s" % (cfgname(c), name, ", ".join(types), "compiles" if k not in bad else "does not compile: %s" % bad[k]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def sig(d):
    m = d.type.find("(")
    return d.type[m:] if m >= 0 else ""


def demangle(s):
    return subprocess.run(["c++filt", s], capture_output=True, text=True).stdout.strip()


def short(s):
    return demangle(s).split("(")[0]


def expl(defined, d):
    """explicitly instantiated in some unit"""
    tag = "".join("%d%s" % (len(x), x) for x in d.ns + d.cls + [d.name])
    return any(tag in s for s in defined)


def witness(d):
    """[(code, types)] instantiations of a template"""
    if isinstance(d, tuple):
        cn, tp = d
        if any(k.startswith("NonType") for k, n, pk in tp):
            return []
        out = []
        combos = RASTER_PAIRS if len(tp) == 2 else [(t,) for t in NUM] if len(tp) == 1 else [("int",) * len(tp)]
        for t in combos:
            out.append(("template class %s<%s>;" % (cn, ", ".join(t)), t))
        return out
    if d.access != "public" or any(not k.startswith("TemplateTypeParm") for k, n, pk in d.tparams):
        return []
    names = [n for k, n, pk in d.tparams]
    if any(n is None for n in names):
        return []
    text = any("STRING" in n.upper() for n in names)
    base = TEXT if text else NUM
    combos = [(t,) * len(names) for t in base]
    if len(names) > 1:
        combos += [tuple(base[(i + k) % len(base)] for k in range(len(names))) for i in range(len(base))]
    if d.clstmpl:
        return []
    ty = d.type
    m = re.match(r"^([^(]*)\((.*)\)(.*)$", ty)
    if not m:
        return []
    args, quals = m.group(2), m.group(3).strip()
    const = " const" if quals.startswith("const") else ""
    if d.cls and d.storage != "static":
        ptr = "(%s::*p)" % "::".join(d.cls)
    else:
        ptr = "(*p)"
    decl = ", ".join(("typename... " if pk else "typename ") + n for k, n, pk in d.tparams)
    use = ", ".join(n + ("..." if pk else "") for k, n, pk in d.tparams)
    open_ns = " ".join("namespace %s {" % x for x in d.ns)
    target = "::".join(d.ns + d.cls + [d.name])
    out = []
    for t in combos:
        code = ("%s template<%s> struct WIT@K@ { static bool f() { %s %s(%s)%s = &%s<%s>; return p != nullptr; } }; template struct WIT@K@<%s>; %s"
                % (open_ns, decl, m.group(1), ptr, args, const, target, use, ", ".join(t), "}" * len(d.ns)))
        out.append((code, t))
    return out
