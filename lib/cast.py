"""Declarations of the code under analysis, from clang's syntax tree, and compile-time witnesses."""
import json, os, re, subprocess, tempfile, shutil
import ir
from ir import DEFS, INCS, AnalysisBroken, VERIF

CONFIGS = []
for g in (1, 0):
    for m in (1, 0):
        for o in (1, 0):
            CONFIGS.append(tuple(["LINUX"] + (["USE_GDAL"] if g else []) + (["USE_MONGODB"] if m else []) + (["SUPPORT_OMP"] if o else [])))


def cmd(repo, defs, extra):
    return ["clang++", "-std=c++11", "-w"] + ["-D" + d for d in defs] + ["-I" + os.path.join(repo, "src"), "-I" + repo] + INCS + extra


class Decl:
    __slots__ = ("kind", "ns", "cls", "clstmpl", "name", "type", "mangled", "body", "tparams", "access", "line", "file", "deleted", "pure", "id", "prev", "inline", "storage", "clsspec", "params", "nparms")

    @property
    def qual(self):
        return "::".join(self.ns + self.cls + [self.name])


def declarations(repo, defs, source, tag="ccgl"):
    """[Decl] of every function-like declaration in namespace ccgl of a translation unit"""
    r = subprocess.run(cmd(repo, defs, ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + tag, source]), capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot parse %s: %s" % (source, r.stderr[-1500:]))
    s = r.stdout
    dec = json.JSONDecoder()
    pos, out, classes = 0, [], []
    n = len(s)
    cur = {"file": "", "line": 0}

    def loc(x):
        l = x.get("loc", {})
        l = l.get("spellingLoc", l.get("expansionLoc", l)) if "spellingLoc" in l or "expansionLoc" in l else l
        return l

    def track(x):
        # file and line are only given when they change
        for l in (x.get("loc", {}),):
            for k in ("spellingLoc", "expansionLoc"):
                if k in l:
                    if "file" in l[k]:
                        cur["file"] = l[k]["file"]
                    if "line" in l[k]:
                        cur["line"] = l[k]["line"]
            if "file" in l:
                cur["file"] = l["file"]
            if "line" in l:
                cur["line"] = l["line"]

    def visit_all(x):
        track(x)
        r = x.get("range", {})
        for e in ("begin", "end"):
            l = r.get(e, {})
            for y in (l, l.get("spellingLoc", {}), l.get("expansionLoc", {})):
                if "file" in y:
                    cur["file"] = y["file"]
                if "line" in y:
                    cur["line"] = y["line"]
        for y in x.get("inner", []):
            if isinstance(y, dict):
                visit_all(y)

    def mk(x, ns, cls, ct, tp, access):
        d = Decl()
        d.kind, d.ns, d.cls, d.clstmpl, d.name = x["kind"], list(ns), list(cls), ct, x.get("name", "")
        d.type = x.get("type", {}).get("qualType", "")
        d.mangled = x.get("mangledName")
        d.body = any(z["kind"] in ("CompoundStmt", "CXXTryStmt") for z in x.get("inner", []))
        d.tparams, d.access = tp, access
        d.deleted = x.get("explicitlyDeleted", False) or x.get("explicitlyDefaulted") == "deleted"
        d.pure, d.id, d.prev, d.inline = x.get("pure", False), x["id"], x.get("previousDecl"), x.get("inline", False)
        d.storage = x.get("storageClass")
        d.params = [(z.get("name"), z.get("type", {}).get("qualType", ""), any(True for q in z.get("inner", []))) for z in x.get("inner", []) if z["kind"] == "ParmVarDecl"]
        d.line, d.file = x.get("_line", 0), x.get("_file", "")
        if x.get("isImplicit") or x.get("explicitlyDefaulted"):
            d.body = True
        return d

    def annotate(x):
        track(x)
        x["_file"], x["_line"] = cur["file"], cur["line"]
        r = x.get("range", {})
        for y in x.get("inner", []):
            if isinstance(y, dict) and "kind" in y:
                annotate(y)
        l = r.get("end", {})
        for y in (l, l.get("spellingLoc", {}), l.get("expansionLoc", {})):
            if "file" in y:
                cur["file"] = y["file"]
            if "line" in y:
                cur["line"] = y["line"]

    FK = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")

    def walk(d, ns, cls, ct):
        access = "private" if d.get("tagUsed") == "class" else "public"
        for x in d.get("inner", []):
            if not isinstance(x, dict):
                continue
            k, nm = x.get("kind"), x.get("name")
            if k == "AccessSpecDecl":
                access = x.get("access", access)
            elif k == "NamespaceDecl":
                walk(x, ns + [nm], cls, ct)
            elif k == "LinkageSpecDecl":
                walk(x, ns, cls, ct)
            elif k == "CXXRecordDecl" and x.get("completeDefinition") and not x.get("isImplicit"):
                classes.append(("::".join(ns + cls + [nm or ""]), None, access))
                walk(x, ns, cls + [nm or ""], ct)
            elif k == "ClassTemplateDecl":
                tp = [(y["kind"], y.get("name"), y.get("isParameterPack", False)) for y in x["inner"] if y["kind"].startswith(("TemplateTypeParm", "NonTypeTemplateParm"))]
                rec = [y for y in x["inner"] if y["kind"] == "CXXRecordDecl"]
                if rec and rec[0].get("completeDefinition"):
                    classes.append(("::".join(ns + cls + [nm]), tp, access))
                    walk(rec[0], ns, cls + [nm], tp)
            elif k == "FunctionTemplateDecl":
                tp = [(y["kind"], y.get("name"), y.get("isParameterPack", False)) for y in x["inner"] if y["kind"].startswith(("TemplateTypeParm", "NonTypeTemplateParm", "TemplateTemplateParm"))]
                fd = [y for y in x["inner"] if y["kind"] in FK]
                if fd:
                    e = mk(fd[0], ns, cls, ct, tp, access if cls else "public")
                    e.id, e.prev = x["id"], x.get("previousDecl")
                    out.append(e)
            elif k in FK:
                if x.get("isImplicit"):
                    continue
                out.append(mk(x, ns, cls, ct, None, access if cls else "public"))
    while pos < n:
        while pos < n and s[pos].isspace():
            pos += 1
        if pos >= n:
            break
        d, pos = dec.raw_decode(s, pos)
        if d.get("kind") == "NamespaceDecl" and d.get("name") == tag:
            annotate(d)
            walk(d, [tag], [], None)
    return out, classes
