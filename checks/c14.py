"""C14: writes into character buffers are bounded and leave them terminated; parsed fields are used only when their conversion is known to have succeeded."""
import re
from ir import REPO
from paths import Walker, NN, icmp
from poly import add, const
from ranges import Ranges
import grid
from sym import show

TECH = "buffer-extent analysis (constant and linear sizes, carried to the callers of routines that get buffer and size), termination typestate per character buffer, result-count typestate for parsed fields, length facts for indexed fields"
NOTE = "character arrays, allocated character blocks and (buffer, size) parameters; std::string and std::vector manage their own storage. Lower bounds of pointers moved back from the end of a text (stripping trailing characters) are not decided."

# name: (destination, size argument, unit, how it ends: always terminated / only if the result is not zero or null / never)
BOUNDED = {
    "snprintf": (0, 1, 1, "always"), "vsnprintf": (0, 1, 1, "always"), "swprintf": (0, 1, 4, "always"), "vswprintf": (0, 1, 4, "always"),
    "strftime": (0, 1, 1, "result"), "wcsftime": (0, 1, 4, "result"), "readlink": (1, 2, 1, "never"), "readlinkat": (2, 3, 1, "never"),
    "getcwd": (0, 1, 1, "result"), "fgets": (0, 1, 1, "result"), "gethostname": (0, 1, 1, "never"),
    "strncpy": (0, 2, 1, "never"), "stpncpy": (0, 2, 1, "never"), "wcsncpy": (0, 2, 4, "never"),
    "memcpy": (0, 2, 1, "never"), "memmove": (0, 2, 1, "never"), "llvm.memcpy.p0.p0.i64": (0, 2, 1, "never"), "llvm.memmove.p0.p0.i64": (0, 2, 1, "never"),
    "wcstombs": (0, 2, 1, "never"), "mbstowcs": (0, 2, 4, "never"), "read": (1, 2, 1, "never"),
    "std::basic_istream::getline": (1, 2, 1, "always"), "std::basic_istream::get": (1, 2, 1, "always"), "std::basic_istream::read": (1, 2, 1, "never"),
    "std::basic_string::copy": (1, 2, 1, "never"),
    "llvm.memset.p0.i64": (0, 2, 1, "fill"), "memset": (0, 2, 1, "fill"),
}
# name: (destination, bytes needed, how it ends)
FIXED = {"asctime_r": (1, 26, "always"), "ctime_r": (1, 26, "always"), "bson_oid_to_string": (1, 25, "always"), "realpath": (1, 4096, "result")}
COPY = {"strcpy": (0, 1, 1), "stpcpy": (0, 1, 1), "wcscpy": (0, 1, 4), "strcat": (0, 1, 1), "wcscat": (0, 1, 4)}
ASTEXT = re.compile(r"^(strlen|strchr|strrchr|strstr|strcmp|strcasecmp|atoi|atof|puts|fputs|wcslen|strdup|std::basic_string::|std::operator|ccgl::)")


def fmtmax(fmt, args):
    """longest text a printf format can give, without the terminator; None if it has no limit"""
    n = 0
    k = 0
    for m in re.finditer(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|L|j|z|t)?([a-zA-Z%])|[^%]", fmt):
        if m.group(5) is None:
            n += 1
            continue
        fl, w, pr, mod, c = m.groups()
        if c == "%":
            n += 1
            continue
        if w == "*" or pr == "*":
            return None
        long = mod in ("l", "ll", "j", "z", "t")
        if c in "di":
            x = 20 if long else 11
        elif c == "u":
            x = 20 if long else 10
        elif c in "xX":
            x = (16 if long else 8) + (2 if "#" in fl else 0)
        elif c == "o":
            x = (22 if long else 11) + 1
        elif c in "fF" and mod != "L":
            x = 311 + (int(pr) if pr else 6)
        elif c in "eEgG" and mod != "L":
            x = 8 + (int(pr) if pr else 6)
        elif c == "c":
            x = 1
        elif c == "p":
            x = 18
        elif c == "s":
            t = args[k] if k < len(args) else None
            if pr:
                x = int(pr)
            elif isinstance(t, str):
                x = len(t)
            else:
                return None
        else:
            return None
        if pr and c in "diuxXo":
            x = max(x, int(pr) + 1)
        n += max(x, int(w or 0))
        k += 1
    return n


TM = {"Y": 11, "m": 3, "d": 3, "H": 3, "M": 3, "S": 3, "e": 3, "I": 3, "j": 4, "y": 3, "X": 12, "x": 20, "c": 48, "T": 12, "R": 8, "D": 12, "F": 20, "B": 12, "A": 12, "b": 6, "h": 6, "a": 6, "p": 5, "z": 6, "Z": 16, "u": 1, "w": 1, "n": 1, "t": 1, "%": 1, "s": 20, "G": 11, "V": 2, "U": 2, "W": 2}


def timemax(fmt):
    n = 0
    for m in re.finditer(r"%[EO_^#0-]?(.)|[^%]", fmt):
        if m.group(1) is None:
            n += 1
        elif m.group(1) in TM:
            n += TM[m.group(1)]
        else:
            return None
    return n


class Text:
    def __init__(self, ctx, rep):
        self.p, self.S, self.rep = ctx.prog(), ctx.sym(), rep
        self.R = Ranges(self.p, self.S)
        self.P = self.R.P
        self.done = {}
        self.reported = set()

    # ---- literals
    def literal(self, op):
        t = self.p.cstring(op) if op[0] in ("g", "cg") else None
        if t is None and op[0] == "g":
            a = self.p.globals.get(op[1], {}).get("arr")
            if a and all(x[0] == "c" for x in a):
                t = "".join(chr(x[1]) for x in a[:-1]) if a[-1][1] == 0 else None
        return t

    # ---- what a pointer points into
    def root(self, f, op):
        """(base operand, byte offset as polynomial or None) of a character pointer"""
        off = {}
        n = 0
        while op[0] == "v" and n < 50:
            n += 1
            i = f.insts[op[1]]
            if i.op == "bitcast":
                op = i.args[0]
            elif i.op == "getelementptr":
                for x in i.d.get("path", []):
                    if x[0] != "x":
                        return op, {}
                    o = tuple(x[1])
                    o = (o[0], o[1], o[2]) if o[0] == "c" else o
                    off = add(off, self.P.poly(self.S.expr(f, o)), x[2])
                op = i.args[0]
            else:
                break
        return op, off

    def extent(self, f, base):
        """polynomial: bytes of the object, or ("param", k), or None"""
        if base[0] == "a":
            return ("param", base[1])
        if base[0] != "v":
            return None
        i = f.insts[base[1]]
        if i.op == "alloca":
            m = re.match(r"\[(\d+) x (i8|i32|i16)\]$", i.d["at"])
            if m:
                return const(int(m.group(1)) * {"i8": 1, "i16": 2, "i32": 4}[m.group(2)])
            if i.d["at"] in ("i8", "i32") and i.args and i.args[0][0] != "c":
                return self.P.poly(("bin", "mul", self.S.expr(f, i.args[0]), ("c", 1 if i.d["at"] == "i8" else 4)))
            return None
        if i.op == "call" and i.callee and self.p.q(i.callee) in ("operator new[]", "malloc"):
            return self.P.poly(self.newsize(self.S.expr(f, i.args[0])))
        return None

    def newsize(self, e):
        """size of a new[] expression without the guards against overflow"""
        if e[0] in ("sel", "select") and len(e) == 4:
            if e[2] == ("c", -1):
                return self.newsize(e[3])
        if e[0] == "ev" and e[1][0] == "call" and "mul.with.overflow" in e[1][1]:
            return ("bin", "mul", e[1][2], e[1][3])
        return e

    # ---- bounds
    def fits(self, f, blk, dest, need, what, i, depth=0):
        """need (polynomial, bytes) does not exceed the room behind dest; obligations on (buffer, size) parameters move to the callers"""
        base, off = self.root(f, dest)
        if off is None:
            return
        ext = self.extent(f, base)
        if ext is None:
            self.skipped += 1
            return
        facts = self.R.polys(f, self.S.facts(f, blk))
        total = add(need, off)
        key = (f.name, i.id, what)
        if isinstance(ext, tuple):
            k = ext[1]
            cands = []
            for j in range(len(f.params)):
                if j == k or not re.match(r"i(32|64)$", f.params[j]["t"]):
                    continue
                for unit in (1, 4):
                    from poly import nonneg
                    if nonneg(add(self.P.poly(("bin", "mul", ("arg", j), ("c", unit))), total, -1), facts):
                        cands.append((j, unit))
                        break
            c = total.get((), 0) if not [m for m in total if m != ()] else None
            calls = self.p.callers().get(f.name, [])
            if not cands and c is None:
                self.bad(key, f, i, "%s is not bounded by a size that the caller gives with the buffer" % what)
                return
            if not cands and not calls:
                self.bad(key, f, i, "%s needs %d bytes of a buffer whose size is not known" % (what, c))
                return
            self.good(f, i)
            if depth > 4:
                return
            for u in calls:
                g = u.fn
                if k < len(u.args) and u.args[k] == ("null",):
                    continue
                if cands:
                    j, unit = cands[0]
                    n2 = self.P.poly(("bin", "mul", self.S.expr(g, u.args[j]), ("c", unit)))
                else:
                    n2 = const(c)
                self.fits(g, u.blk, u.args[k], n2, "%s (called from %s)" % (what.split(" (")[0], self.p.q(g.name).split("::")[-1]), u, depth + 1)
            return
        from poly import nonneg
        if nonneg(add(ext, total, -1), facts):
            self.good(f, i)
        else:
            self.bad(key, f, i, "%s may write beyond the end of the buffer" % what)

    def good(self, f, i):
        self.rep.ob(True, "bounded:%s:%s" % (self.p.q(f.name), i.line), i.where(), "bounded write")

    def bad(self, key, f, i, text):
        if key in self.reported:
            return
        self.reported.add(key)
        self.rep.ob(False, "overrun:%s:%s" % (self.p.q(f.name), self.p.q(i.callee).split("::")[-1] if i.callee else "store"), i.where(), "%s: %s" % (self.p.q(f.name), text))

    # ---- room for numbers
    def room(self, f, size_op, least, what, i, unit_off=0, depth=0):
        """the size handed to a formatting call is at least `least` units"""
        e = self.S.expr(f, size_op) if not isinstance(size_op, dict) else None
        s = self.P.poly(e) if e is not None else size_op
        c = s.get((), 0) if not [m for m in s if m != ()] else None
        if c is not None:
            self.rep.ob(c >= least, "cut:%s:%s" % (self.p.q(f.name), what), i.where(), "%s: %s may need %d characters but gets room for %d" % (self.p.q(f.name), what, least, c))
            return
        for j in range(len(f.params)):
            d = add(s, self.P.poly(("arg", j)), -1)
            if not [m for m in d if m != ()]:
                if depth < 4:
                    for u in self.p.callers().get(f.name, []):
                        self.room(u.fn, u.args[j], least - int(d.get((), 0)), what, u, 0, depth + 1)
                return

    def writers(self, f):
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            q = self.p.q(i.callee)
            name = q.split("::")[-1]
            if q in BOUNDED:
                d, s, unit, end = BOUNDED[q]
                if len(i.args) <= max(d, s) or not self.chars(f, i.args[d]):
                    continue
                self.sites += 1
                e = self.S.expr(f, i.args[s])
                self.fits(f, i.blk, i.args[d], self.P.poly(("bin", "mul", self.newsize(e), ("c", unit))), "the size given to %s" % name, i)
                if q in ("snprintf", "swprintf"):
                    t = self.literal(i.args[2])
                    if t is not None:
                        mx = fmtmax(t, [self.literal(a) for a in i.args[3:]])
                        if mx is not None:
                            self.room(f, i.args[s], mx + 1, '%s "%s"' % (name, t), i)
            elif q in FIXED:
                d, n, end = FIXED[q]
                if len(i.args) > d and i.args[d] != ("null",):
                    self.sites += 1
                    self.fits(f, i.blk, i.args[d], const(n), name, i)
            elif q in COPY:
                d, s, unit = COPY[q]
                self.sites += 1
                t = self.literal(i.args[s])
                n = const(len(t) + 1) if t is not None else add(self.P.poly(("call", "strlen", self.S.expr(f, i.args[s]))), const(1))
                if name.endswith("cat"):
                    n = add(n, self.P.poly(("call", "strlen", self.S.expr(f, i.args[d]))))
                self.fits(f, i.blk, i.args[d], dict((m, c * unit) for m, c in n.items()), name, i)
            elif q == "strncat":
                self.sites += 1
                n = add(add(self.P.poly(self.S.expr(f, i.args[2])), const(1)), self.P.poly(("call", "strlen", self.S.expr(f, i.args[0]))))
                self.fits(f, i.blk, i.args[0], n, name, i)
            elif q in ("sprintf", "vsprintf"):
                self.sites += 1
                t = self.literal(i.args[1])
                mx = fmtmax(t, [self.literal(a) for a in i.args[2:]]) if t is not None else None
                if mx is None:
                    self.bad((f.name, i.id), f, i, "%s writes a text of any length into a fixed buffer" % name)
                else:
                    self.fits(f, i.blk, i.args[0], const(mx + 1), name, i)
            elif q == "gets":
                self.bad((f.name, i.id), f, i, "gets has no limit")
            elif re.match(r"(__isoc23_|__isoc99_)?(s|f|)scanf$", q):
                k = 0 if q.endswith("_scanf") or q == "scanf" else 1
                t = self.literal(i.args[k])
                if t is not None:
                    n = k
                    for m in re.finditer(r"%(\*)?(\d+)?(hh|h|ll|l|L|j|z|t)?(\[\^?\]?[^\]]*\]|.)", t):
                        if m.group(4) == "%" or m.group(1):
                            continue
                        n += 1
                        if m.group(4)[0] in "s[":
                            if m.group(2) is None:
                                self.bad((f.name, i.id), f, i, "%%%s without a width has no limit" % m.group(4))
                            elif n < len(i.args):
                                self.fits(f, i.blk, i.args[n], const(int(m.group(2)) + 1), "%" + m.group(4), i)
            elif q == "std::operator>>" and len(i.args) == 2 and self.chars(f, i.args[1], only=True):
                self.bad((f.name, i.id), f, i, "operator>> has no limit")

    def chars(self, f, op, only=False):
        """the operand points into characters: a character array, a new[] block used as text, or a character pointer parameter"""
        base, off = self.root(f, op)
        if base[0] == "v":
            i = f.insts[base[1]]
            if i.op == "alloca":
                return re.match(r"\[\d+ x i(8|32|16)\]$", i.d["at"]) is not None and (i.d["at"].endswith("i8]") or self.wide(f, i))
            return not only and i.op == "call" and i.callee is not None and self.p.q(i.callee) == "operator new[]" and self.astext(f, base)
        if base[0] == "a":
            t = self.ptypes(f)
            return base[1] < len(t) and re.match(r"(char|wchar_t) *\*$", t[base[1]] or "") is not None
        return False

    def wide(self, f, al):
        return any(u.op == "call" and u.callee and self.p.q(u.callee) in ("swprintf", "mbstowcs", "wcsncpy", "wcscpy") or u.op == "getelementptr" for u in f.uses().get(("v", al.id), [])) and any(
            u.op == "call" and u.callee and "wchar_t" in self.p.dem(u.callee) + self.p.q(u.callee) for o in self.aliases(f, ("v", al.id)) for u in f.uses().get(o, []))

    def aliases(self, f, op):
        out = [op]
        for o in out:
            for u in f.uses().get(o, []):
                if u.op in ("getelementptr", "bitcast") and u.args[0] == o:
                    out.append(("v", u.id))
        return out

    def astext(self, f, op):
        """an allocated block that is passed on as text somewhere"""
        for o in self.aliases(f, op):
            for u in f.uses().get(o, []):
                if u.op == "call" and u.callee:
                    q = self.p.q(u.callee)
                    if q.startswith("std::basic_string::") or q in BOUNDED and BOUNDED[q][3] != "fill" and not q.startswith(("llvm", "mem", "read", "std::basic_istream::read")) or q in COPY or q in FIXED or q in ("strlen", "wcslen"):
                        return True
        return False

    def ptypes(self, f):
        if not hasattr(self, "_pt"):
            self._pt = {}
        if f.name not in self._pt:
            lead = 1 if f.sret else 0
            self._pt[f.name] = [None] * lead + [re.sub(r"\bconst$", "", t or "").strip() for t in f.dity[1:]]
        return self._pt[f.name]

    # ---- stores at computed positions
    def stores(self, f):
        for i in f.all_insts():
            if i.op != "store":
                continue
            base, off = self.root(f, i.args[1])
            if base == i.args[1] or base[0] != "v":
                continue
            al = f.insts[base[1]]
            ext = self.extent(f, base)
            if ext is None or isinstance(ext, tuple):
                continue
            if al.op == "call" and not self.astext(f, base):
                continue
            if al.op == "alloca" and not self.chars(f, base):
                continue
            self.sites += 1
            w = 4 if al.op == "alloca" and al.d["at"].endswith("i32]") else 1
            facts = self.R.polys(f, self.S.facts(f, i.blk))
            from poly import nonneg
            texts = [m for m in off if m != () and all(isinstance(x, tuple) and x[:2] in (("call", "strlen"), ("call", "wcslen")) for x in m)]
            if texts and len(texts) == len([m for m in off if m != ()]) == 1:
                self.good(f, i)  # at or before the terminator
                continue
            hi = self.within(f, i, off, facts, lambda o, fs: nonneg(add(add(ext, o, -1), const(-w)), fs))
            lo = self.within(f, i, off, facts, nonneg)
            if hi and lo:
                self.good(f, i)
            else:
                self.bad((f.name, i.id), f, i, "the position written is not shown to lie %s the buffer" % ("before the end of" if lo else "inside"))

    def within(self, f, i, off, facts, test, depth=0):
        """the test holds for a position, or for every value that its variables may have been given"""
        extra = []
        for m in off:
            for x in m:
                if isinstance(x, tuple) and x[0] == "call" and x[1] in ("readlink", "read") and len(x) > 4:
                    extra.append(add(self.P.poly(x[4]), {(x,): 1}, -1))  # never more than was asked for
        if test(off, facts + extra):
            return True
        if depth > 4:
            return False
        for m in off:
            if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "phi" and m[0][2] == f.name:
                ph = f.insts[m[0][1]]
                if ph.op != "phi":
                    return False
                ok = True
                for v, b in ph.args:
                    e = self.P.poly(self.S.expr(f, v))
                    if any(m[0] in mm for mm in e):
                        return False  # a loop variable
                    o = dict((k, c) for k, c in off.items() if k != m)
                    o = add(o, e, off[m])
                    fs = self.R.polys(f, set(self.S.edge_facts(f, b, ph.blk)) | set(self.S.facts(f, b)))
                    ok = ok and self.within(f, i, o, facts + fs, test, depth + 1)
                return ok
        return False

    # ---- termination
    def states(self, f, base, start, blk0, idx0, depth=0, args=()):
        """walk the life of one buffer from a start state; the set of states at the returns"""
        key = (f.name, base, start, args)
        if key in self.done:
            return self.done[key]
        self.done[key] = {start}
        al = set(self.aliases(f, base))
        if any(u.op in ("phi", "select") or u.op == "store" and u.args[0] in al for o in al for u in f.uses().get(o, [])):
            # the address goes elsewhere too: keep to what is seen here
            pass
        W = Walker(f, 40000)
        out = set()
        p, S = self.p, self.S

        def use(i, st, env):
            if isinstance(st, tuple):
                v = W.val(st[1], env)
                if v == NN or isinstance(v, int) and v != 0:
                    return "ok"
                st = "raw" if v == 0 else "unsure"
            if st not in ("ok", "zero"):
                k = (f.name, i.id, "text")
                if k not in self.reported:
                    self.reported.add(k)
                    why = {"raw": "before anything was written to it", "open": "before it was terminated", "unsure": "although the call that fills it may have failed"}[st]
                    self.rep.ob(False, "open:%s:%s" % (p.q(f.name), f.vname(base)), i.where(), "%s reads a character buffer as text %s" % (p.q(f.name), why))
                return "ok"
            return st

        def step(i, st, env, w):
            if i.op == "ret":
                out.add(st if not isinstance(st, tuple) else "unsure")
                return [(st, None)]
            if i.op == "store" and i.args[1] in al:
                if i.args[0][0] == "c" and i.args[0][1] == 0:
                    if st == "zero":
                        return [(st, None)]
                    return [("ok", None)]
                if st == "zero" or st == "ok":
                    return [(st, None)]
                return [("ok" if st != "raw" else "open", None)]
            if i.op != "call" or not i.callee:
                return [(st, None)]
            hit = [k for k, a in enumerate(i.args) if a in al]
            if not hit:
                return [(st, None)]
            q = p.q(i.callee)
            if q in BOUNDED or q in FIXED or q in ("sprintf", "vsprintf") or q in COPY or q == "strncat":
                d = BOUNDED[q][0] if q in BOUNDED else FIXED[q][0] if q in FIXED else COPY[q][0] if q in COPY else 0
                if hit != [d]:
                    if q.startswith(("llvm", "mem")):
                        return [(st, None)]
                    return [(use(i, st, env), None)]
                end = BOUNDED[q][3] if q in BOUNDED else FIXED[q][2] if q in FIXED else "always"
                if q.endswith("cat"):
                    use(i, st, env)
                if end == "fill":
                    return [("zero" if i.args[1][0] == "c" and i.args[1][1] == 0 else "open", None)]
                if end == "always":
                    return [("ok", None)]
                if end == "result":
                    if q in ("strftime", "wcsftime"):
                        t = self.literal(i.args[2])
                        mx = timemax(t) if t is not None else None
                        if mx is not None and i.args[1][0] == "c" and i.args[1][1] > mx:
                            return [("ok", None)]
                    return [(("cond", ("v", i.id)), None)]
                # never terminated by the call itself
                if st in ("zero",) and self.spare(f, i, q):
                    return [("zero", None)]
                return [("open", None)]
            g = p.fns.get(i.callee)
            if g is not None and g.blocks and i.callee in self.names and depth < 4 and len(hit) == 1 and self.ptypes(g)[hit[0]:hit[0] + 1] and re.match(r"(char|wchar_t) *\*$", self.ptypes(g)[hit[0]] or ""):
                res = set()
                s0 = st
                if isinstance(st, tuple):
                    s0 = use(i, st, env)
                known = tuple((("a", k), a[1]) for k, a in enumerate(i.args) if a[0] == "c" and k != hit[0])
                r = self.states(g, ("a", hit[0]), s0, 0, 0, depth + 1, known)
                return [(x, None) for x in sorted(r or {s0})]
            if q.startswith(("operator delete", "llvm.", "free")) or q in ("__isoc23_sscanf", "sscanf") and hit[0] > 1:
                return [(st if not q.endswith("scanf") else "ok", None)]
            if ASTEXT.match(q):
                if "char const*, unsigned long" in p.dem(i.callee) and len(i.args) > hit[0] + 1 and self.filled(f, i.args[hit[0] + 1], al):
                    return [(st, None)]  # as many characters as the call that filled the buffer says it wrote
                return [(use(i, st, env), None)]
            return [("ok" if st == "raw" else st, None)]  # an external call that fills or reads it in its own way

        def edge(b, s, st, env):
            if isinstance(st, tuple):
                v = W.val(st[1], env)
                if v == NN or isinstance(v, int) and v != 0:
                    return "ok"
                if v == 0:
                    return "raw"
            return st

        W.run([(blk0, idx0, dict(args), start)], step, edge)
        self.done[key] = out
        return out

    def filled(self, f, op, al):
        """the operand is the number of characters a call reports to have put into the buffer"""
        while op[0] == "v" and f.insts[op[1]].op in ("sext", "zext", "trunc"):
            op = f.insts[op[1]].args[0]
        i = f.insts[op[1]] if op[0] == "v" else None
        return i is not None and i.op == "call" and i.callee is not None and self.p.q(i.callee) in ("readlink", "read", "snprintf") and any(a in al for a in i.args)

    def spare(self, f, i, q, depth=0):
        """a copy that does not terminate leaves at least the last character of the (zero-filled) block untouched"""
        d, s, unit, _ = BOUNDED[q]
        base, off = self.root(f, i.args[d])
        ext = self.extent(f, base)
        if ext is None:
            return False
        from poly import nonneg
        need = add(self.P.poly(("bin", "mul", ("bin", "add", self.S.expr(f, i.args[s]), ("c", 1)), ("c", unit))), off)
        facts = self.R.polys(f, self.S.facts(f, i.blk))
        if not isinstance(ext, tuple):
            return nonneg(add(ext, need, -1), facts)
        for j in range(len(f.params)):
            if j != ext[1] and nonneg(add(self.P.poly(("bin", "mul", ("arg", j), ("c", unit))), need, -1), facts):
                return True  # that the size parameter is the size of the buffer is checked at the callers
        return False

    def lives(self, f):
        for i in f.all_insts():
            if i.op == "alloca" and self.chars(f, ("v", i.id)):
                self.buffers += 1
                self.states(f, ("v", i.id), "raw", 0, 0)
            elif i.op == "call" and i.callee and self.p.q(i.callee) == "operator new[]" and self.astext(f, ("v", i.id)):
                self.buffers += 1
                self.states(f, ("v", i.id), "raw", i.blk, i.idx + 1)
                e = self.extent(f, ("v", i.id))
                from poly import nonneg
                facts = self.R.polys(f, self.S.facts(f, i.blk))
                self.rep.ob(nonneg(add(e, const(-1)), facts), "empty:%s" % self.p.q(f.name), i.where(), "%s: a text block is allocated with a length that may be zero or negative" % self.p.q(f.name))

    # ---- parsed fields
    def fields(self, f):
        for i in f.all_insts():
            if i.op != "call" or not i.callee or not re.match(r"(__isoc23_|__isoc99_)?(s|f|)w?scanf$", self.p.q(i.callee)):
                continue
            k = 1 if re.search(r"[sf]w?scanf$", self.p.q(i.callee)) and not self.p.q(i.callee).endswith("_scanf") else 0
            t = self.literal(i.args[k])
            outs = []
            if t is not None:
                n = 0
                a = k + 1
                for m in re.finditer(r"%(\*)?(\d+)?(hh|h|ll|l|L|j|z|t)?(\[\^?\]?[^\]]*\]|.)", t):
                    if m.group(4) == "%" or m.group(1):
                        continue
                    if a >= len(i.args):
                        self.rep.ob(False, "fields:%s" % self.p.q(f.name), i.where(), "%s: the format has more conversions than variables" % self.p.q(f.name))
                        break
                    if m.group(4) != "n":
                        n += 1
                        outs.append((i.args[a], n))
                    else:
                        outs.append((i.args[a], 0))
                    a += 1
            else:
                outs = [(x, n + 1) for n, x in enumerate(i.args[k + 1:])]
            self.nfields += len(outs)
            for o, n in outs:
                self.field(f, i, o, n, [x for x, _ in outs])

    def field(self, f, call, out, n, outs):
        al = self.S.root(f, out)
        if al is None:
            return
        own = set(self.aliases(f, ("v", al.id)))
        res = ("v", call.id)
        p = self.p
        if n == 0:  # %n: set only when everything before it matched; it must have a value of its own before
            pre = [u for o in own for u in f.uses().get(o, []) if u.op == "store" and u.args[1] == o and f.idominates(u, call)]
            self.rep.ob(bool(pre), "position:%s" % p.q(f.name), call.where(), "%s: the position of a %%n is used without a value of its own" % p.q(f.name))
            return
        flagged = []

        def uses_(i, st, env, w):
            if st == -9:
                return [(-1, {res: ("result",)}) if i is call else (st, None)]
            if i.op == "store" and i.args[1] in own:
                return None
            if i is not call and i.op == "call" and i.callee and re.search(r"w?scanf$", p.q(i.callee)) and any(a in own for a in i.args):
                return None
            if i is call:
                return None
            if i.op == "load" and i.args[0] in own or i.op == "call" and i.callee and any(a in own for a in i.args) and not p.q(i.callee).startswith("llvm."):
                if st < n:
                    v = w.val(res, env)
                    if not (isinstance(v, int) and v >= n):
                        flagged.append(i)
                        return None
            return [(st, None)]

        def edge(b, s, st, env):
            if st == -9:
                return st
            v = W.val(res, env)
            if isinstance(v, int):
                return max(st, v) if v >= 0 else -1
            for x, c, pol in [(e[0], e[1], e[2] if len(e) > 2 else True) for e in f.cond_edges(b)]:
                if x != s or c is None or c[0] == "case":
                    continue
                k = self.least(f, c, pol, res, env=env, w=W)
                if k is not None:
                    st = max(st, k)
            return st

        W = Walker(f, 30000)
        W.run([(0, 0, {}, -9)], uses_, edge)
        ok = not flagged
        where = flagged[0].where() if flagged else call.where()
        self.rep.ob(ok, "field:%s:%s" % (p.q(f.name), f.vname(("v", al.id))), where,
                    "%s uses the field %s although conversion %d of the call at line %s is not known to have succeeded" % (p.q(f.name), f.vname(("v", al.id)), n, call.line))

    def least(self, f, c, pol, res, depth=0, env=None, w=None):
        """lower bound of a call result that a branch condition gives"""
        if c[0] != "v" or depth > 6:
            return None
        i = f.insts[c[1]]
        if i.op == "xor":
            return self.least(f, i.args[0], not pol, res, depth + 1, env, w)
        if i.op in ("zext", "trunc", "freeze"):
            return self.least(f, i.args[0], pol, res, depth + 1, env, w)
        if i.op == "and" and pol or i.op == "or" and not pol:
            r = [x for x in (self.least(f, a, pol, res, depth + 1, env, w) for a in i.args) if x is not None]
            return max(r) if r else None
        if i.op == "icmp":
            a, b = i.args
            pr = i.d["p"]
            if env is not None and b[0] != "c" and isinstance(w.val(b, env), int):
                b = ("c", w.val(b, env))
            if b[0] != "c":
                a, b = b, a
                pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pr, pr)
            while a[0] == "v" and f.insts[a[1]].op in ("sext", "zext", "trunc"):
                a = f.insts[a[1]].args[0]
            if b[0] != "c" and env is not None and isinstance(w.val(b, env), int):
                b = ("c", w.val(b, env))
            if b[0] != "c":
                return None
            if env is not None and w.val(a, env) == ("result",):
                a = res
            if a != res:
                # a flag made of the result: bool ok = scanf(...) == 3
                return self.least(f, a, pol if (pr == "ne") == (b[1] == 0) else not pol, res, depth + 1, env, w) if pr in ("eq", "ne") and b[1] in (0, 1) and a[0] == "v" and f.insts[a[1]].op in ("icmp", "xor", "zext", "and", "or") else None
            k = b[1]
            if not pol:
                pr = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}.get(pr, pr)
            return {"eq": k, "sge": k, "sgt": k + 1}.get(pr)
        return None

    # ---- fields of split lines
    def parts(self, f):
        p, S = self.p, self.S
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            q = p.q(i.callee)
            if q in ("std::vector::operator[]", "std::vector::at"):
                ix = S.expr(f, i.args[1])
                if ix[0] == "phi" or ix[0] == "sel":    # whichever it is, there must be a first part
                    o = i.args[1]
                    while o[0] == "v" and f.insts[o[1]].op in ("sext", "zext", "trunc"):
                        o = f.insts[o[1]].args[0]
                    ls = [v for v, b in grid.split(f, o, None)]
                    if ls and all(v[0] == "c" for v in ls):
                        ix = ("c", min(v[1] for v in ls))
            elif q == "std::vector::front" or q == "std::vector::back" or q in ("std::basic_string::front", "std::basic_string::back"):
                ix = ("c", 0)
            elif q == "std::basic_string::operator[]":
                continue  # position length() is valid: the terminator
            else:
                continue
            c = S.expr(f, i.args[0])
            if not self.parsed(f, i.args[0], c):
                continue
            size = ("call", "std::vector::size" if "vector" in q else "std::basic_string::size", c)
            need = None
            if ix[0] == "c":
                need = ix[1] + 1
            elif ix == ("bin", "sub", size, ("c", 1)):
                need = 1
            if need is None:
                continue
            self.nparts += 1
            facts = S.facts(f, i.blk)
            got = self.size_at_least(f, i, c, facts)
            self.rep.ob(got >= need, "part:%s:%d" % (p.q(f.name), need), i.where(), "%s uses part %d of a text that is not known to have %d parts here" % (p.q(f.name), need, need))

    def parsed(self, f, op, c):
        if c[0] == "arg":
            t = self.ptypes(f)
            return c[1] < len(t) and (t[c[1]] or "").startswith(("const vector<string", "vector<string")) and "const" in (f.dity[1 + c[1] - (1 if f.sret else 0)] or "")
        if c[0] != "loc":
            return False
        al = self.S.root(f, op)
        if al is None:
            return False
        for u in f.uses().get(("v", al.id), []):
            if u.op != "call" or not u.callee:
                continue
            if u.args and u.args[0] == ("v", al.id):
                if u.d.get("sret") and u.callee in self.names:
                    return True
                if self.p.q(u.callee) == "std::vector::operator=":
                    return True
        return False

    def size_at_least(self, f, i, c, facts):
        best = 0
        root = self.S.root(f, i.args[0])
        if root is not None and any(u.op == "call" and u.callee and re.search(r"::(emplace_back|push_back)$", self.p.q(u.callee)) and u.args[0] == ("v", root.id) and f.idominates(u, i) for u in f.uses().get(("v", root.id), [])):
            best = 1
        for x in facts:
            if x[0] in ("false", "true") and x[1][0] == "call" and x[1][1].endswith("::empty") and x[1][2] == c:
                if x[0] == "false":
                    best = max(best, 1)
            if len(x) == 3 and isinstance(x[1], tuple) and isinstance(x[2], tuple):
                a, b = x[1], x[2]
                pr = x[0]
                if a[0] == "c":
                    a, b = b, a
                    pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pr, pr)
                if a[0] == "call" and a[1].split("::")[-1] in ("size", "length") and a[2] == c and b[0] == "c":
                    k = b[1]
                    v = {"eq": k, "uge": k, "sge": k, "ugt": k + 1, "sgt": k + 1}.get(pr, 0)
                    if pr == "ne" and k == 0:
                        v = 1
                    best = max(best, v)
        return best


def check(ctx, rep):
    T = Text(ctx, rep)
    p = T.p
    rep.rule("the size given to a writer of text, or the longest text it can write, does not exceed the room behind its destination; a (buffer, size) pair is followed to the callers")
    rep.rule("a number formatted into a buffer always fits")
    rep.rule("a character buffer is read as text only when it has been written and terminated on every path to there")
    rep.rule("stores at computed positions of a character buffer lie inside it")
    rep.rule("a variable that scanf fills is used only where the result is known to count its conversion")
    rep.rule("a part of a split text is used only where the number of parts is known to be large enough")
    T.sites = T.buffers = T.nfields = T.nparts = T.skipped = 0
    T.names = set(f.name for f in p.project())
    fs = [f for f in p.project() if f.blocks]
    for f in fs:
        T.writers(f)
        T.stores(f)
        T.lives(f)
        T.fields(f)
        T.parts(f)
    rep.count("writes into character buffers", T.sites)
    rep.count("character buffers followed", T.buffers)
    rep.count("fields filled by scanf", T.nfields)
    rep.count("parts of split texts", T.nparts)
    rep.count("destinations that are not character buffers of this code", T.skipped)
    rep.need(T.sites, 8, "writes into character buffers")
    rep.need(T.buffers, 5, "character buffers")
    rep.need(T.nfields, 4, "parsed fields")
