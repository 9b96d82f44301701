"""C29: a path is taken apart at its last separator and at the last dot of the file's own name, and put together the same way."""
TECH = "abstract interpretation of the path routines over shapes of path texts (words of unknown text between separators and dots)"
NOTE = ("Decides GetPathFromFullName, GetCoreFileName, GetSuffix, ConcatFullName, AppendCoreFileName, PrefixCoreFileName and ReplaceSuffix for every path of the "
        "listed shapes (any directory text, with or without dots and separators; names with no, one or two dots). Names that begin or end with a dot, links "
        "and relative parts (resolved by the operating system), an existing directory given as a file, and Windows are left out.")

NS = "ccgl::utils_filesystem::"
SEP, DOT = "/", "."


class Unknown(Exception):
    pass


# ---- texts: a tuple of single characters and words; a word is (name, may be empty, characters it does not contain or None) ------
def M(n):          # any text at all
    return (n, True, None)


def W(n):          # a non-empty text without separators and dots
    return (n, False, frozenset("/."))


def lit(s):
    return tuple(s)


def show(t):
    return "".join(x if isinstance(x, str) else "<%s>" % x[0] for x in t) or "\"\""


# ---- lengths: constant + sum of word lengths --------------------------------------------------------------------------------------
class Lin:
    def __init__(self, c=0, w=None):
        self.c = c
        self.w = {k: v for k, v in (w or {}).items() if v}

    def __add__(self, o):
        w = dict(self.w)
        for k, v in o.w.items():
            w[k] = w.get(k, 0) + v
        return Lin(self.c + o.c, w)

    def neg(self):
        return Lin(-self.c, {k: -v for k, v in self.w.items()})

    def __sub__(self, o):
        return self + o.neg()

    def sign(self):
        """-1, 0, 1 or None; words are (name, may be empty, ...)"""
        if not self.w:
            return (self.c > 0) - (self.c < 0)
        lo = self.c + sum(v * (0 if k[1] else 1) for k, v in self.w.items() if v > 0)
        hi = self.c + sum(v * (0 if k[1] else 1) for k, v in self.w.items() if v < 0)
        if all(v > 0 for v in self.w.values()) and lo > 0:
            return 1
        if all(v < 0 for v in self.w.values()) and hi < 0:
            return -1
        return None


def length(t):
    n = Lin()
    for x in t:
        n = n + (Lin(1) if isinstance(x, str) else Lin(0, {x: 1}))
    return n


NPOS = -1


def big(l):
    """a length that went below zero is a huge unsigned one"""
    return l.sign() == -1


def at(t, l):
    """index of the part of a text that begins at a length"""
    n = Lin()
    for k in range(len(t) + 1):
        s = (n - l).sign()
        if s == 0:
            return k
        if k < len(t):
            n = n + length(t[k:k + 1])
    if big(l):
        return None
    if (l - length(t)).sign() == 1:
        return None
    raise Unknown("a position inside a word")


def find(t, chars, first, start=None):
    ks = list(range(len(t))) if first else list(range(len(t) - 1, -1, -1))
    if start is not None:
        if big(start):
            ks = [] if first else ks
        else:
            k0 = at(t, start)
            ks = [k for k in ks if (k >= k0 if first else k <= k0)] if k0 is not None else ([] if first else ks)
    for k in ks:
        x = t[k]
        if isinstance(x, str):
            if x in chars:
                return length(t[:k])
        elif x[2] is None or not set(chars) <= x[2]:
            raise Unknown("may be inside a word")
    return Lin(NPOS)


def substr(t, b, n):
    if big(b):
        raise Unknown("throws")
    i = at(t, b)
    if i is None:
        raise Unknown("throws")
    e = b + n
    if big(n) or (e - length(t)).sign() in (0, 1):
        return t[i:]
    j = at(t, e)
    if j is None:
        return t[i:]
    return t[i:j]


def split(t, c):
    """parts between the delimiters as getline gives them; only known from the last word backwards"""
    out, cur = [], []
    exact = True
    for k in range(len(t)):
        x = t[k]
        if isinstance(x, str):
            if x == c:
                out.append(tuple(cur))
                cur = []
            else:
                cur.append(x)
        else:
            if x[2] is None or c not in x[2]:
                exact = False       # the parts from here backwards are not known
                out, cur = [None], [None]
                continue
            cur.append(x)
    if cur:
        out.append(None if None in cur else tuple(cur))
    out = [None if p is not None and None in p else p for p in out]
    return ("parts", out, exact)


class Run:
    def __init__(self, p, S):
        self.p, self.S, self.steps, self.reads = p, S, 0, set()

    def call(self, f, args):
        """the text (or number) that a routine gives for arguments; args are by parameter number without the result slot"""
        self.steps += 1
        self.reads.add(self.p.q(f.name))
        if self.steps > 400:
            raise Unknown("too deep")
        mem, val = {}, {}
        off = 1 if f.sret else 0
        ret = ("a", 0) if f.sret else None

        def key(op):
            while op[0] == "v":
                i = f.insts[op[1]]
                if i.op == "bitcast" or i.op == "getelementptr" and all(a[0] == "c" and a[1] == 0 for a in i.args[1:]):
                    op = i.args[0]
                else:
                    break
            return op

        def text(op):
            k = key(op)
            if k in mem:
                return mem[k]
            if k[0] == "a" and k[1] - off in args:
                return args[k[1] - off]
            if k[0] == "v" and k[1] in val:
                return val[k[1]]
            e = self.S.expr(f, op)
            if e[0] == "str":
                return lit(e[1])
            if e[0] == "glob" and ".str" in str(e[1]):
                return ()
            raise Unknown("text %s" % (e,))

        def num(op):
            if op[0] == "c":
                v = op[1]
                return Lin(v if v < 2 ** 63 else v - 2 ** 64)
            if op[0] == "v" and op[1] in val:
                return val[op[1]]
            if op[0] == "a" and op[1] - off in args:
                return args[op[1] - off]
            raise Unknown("number")

        def ch(op):
            v = num(op)
            if isinstance(v, tuple):
                return v
            if isinstance(v, Lin) and not v.w:
                return (chr(v.c & 255),)
            raise Unknown("character")
        b, pred, n = 0, None, 0
        while True:
            n += 1
            if n > 300:
                raise Unknown("loop")
            phis = {}
            for i in f.blocks[b]:
                if i.op == "phi":
                    for op, pb in i.args:
                        if pb == pred:
                            try:
                                phis[i.id] = num(op)
                            except Unknown:
                                try:
                                    phis[i.id] = text(op)
                                except Unknown:
                                    pass
            for k in list(phis):
                val[k] = phis[k]
            nxt = None
            for i in f.blocks[b]:
                if i.op in ("phi", "alloca", "bitcast", "getelementptr", "landingpad", "fence"):
                    continue
                if i.op == "ret":
                    if f.sret:
                        return mem.get(ret)
                    return num(i.args[0]) if i.args else None
                if i.op == "unreachable":
                    raise Unknown("no end")
                if i.op == "br":
                    if len(i.args) == 1:
                        nxt = i.args[0][1]
                    else:
                        c = num(i.args[0])
                        if c.w or c.c not in (0, 1, -1):
                            raise Unknown("condition")
                        tgt = i.args[2] if c.c else i.args[1]   # printed as in IR: cond, false, true
                        nxt = tgt[1]
                    break
                if i.op in ("add", "sub"):
                    x, y = num(i.args[0]), num(i.args[1])
                    val[i.id] = x + y if i.op == "add" else x - y
                elif i.op in ("zext", "sext", "trunc", "freeze"):
                    val[i.id] = num(i.args[0])
                elif i.op == "xor":
                    x, y = num(i.args[0]), num(i.args[1])
                    if x.w or y.w:
                        raise Unknown("xor")
                    val[i.id] = Lin(int(bool(x.c) != bool(y.c)))
                elif i.op in ("and", "or"):
                    x, y = num(i.args[0]), num(i.args[1])
                    if x.w or y.w:
                        raise Unknown("and")
                    val[i.id] = Lin(int((bool(x.c) and bool(y.c)) if i.op == "and" else (bool(x.c) or bool(y.c))))
                elif i.op == "select":
                    c = num(i.args[0])
                    if c.w:
                        raise Unknown("select")
                    val[i.id] = num(i.args[1] if c.c else i.args[2])
                elif i.op == "icmp":
                    val[i.id] = Lin(self.compare(i.d["p"], num(i.args[0]), num(i.args[1])))
                elif i.op == "load":
                    k = key(i.args[0])
                    if k in mem:
                        val[i.id] = mem[k]
                    elif k[0] == "v" and k[1] in val:
                        val[i.id] = val[k[1]]
                    else:
                        continue
                elif i.op == "store":
                    try:
                        v = num(i.args[0])
                    except Unknown:
                        try:
                            v = text(i.args[0])
                        except Unknown:
                            continue
                    mem[key(i.args[1])] = v
                elif i.op in ("call", "invoke"):
                    self.effect(f, i, mem, val, key, text, num, ch)
                else:
                    continue
            if nxt is None:
                raise Unknown("no way on")
            pred, b = b, nxt

    def compare(self, pred, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 1 == len(y) and pred in ("eq", "ne"):
            if all(isinstance(v[0], str) for v in (x, y)):
                return int((x == y) == (pred == "eq"))
            w, c = (x[0], y[0]) if isinstance(y[0], str) else (y[0], x[0])
            if isinstance(c, str) and w[2] and c in w[2]:
                return int(pred == "ne")
            raise Unknown("characters")
        if isinstance(x, tuple) or isinstance(y, tuple):
            x = Lin(ord(x[0])) if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], str) else x
            y = Lin(ord(y[0])) if isinstance(y, tuple) and len(y) == 1 and isinstance(y[0], str) else y
            if isinstance(x, tuple) or isinstance(y, tuple):
                t, c = (x, y) if isinstance(x, tuple) else (y, x)
                if len(t) == 1 and isinstance(c, Lin) and not c.w and t[0][2] and chr(c.c & 255) in t[0][2] and pred in ("eq", "ne"):
                    return int(pred == "ne")
                raise Unknown("characters")
        s = (x - y).sign()
        if pred in ("eq", "ne"):
            if s is None:
                raise Unknown("equal")
            return int((s == 0) == (pred == "eq"))
        if pred[0] == "u":
            bx, by = big(x), big(y)
            if bx != by:
                s = 1 if bx else -1
        if s is None:
            raise Unknown("order")
        return int({"lt": s < 0, "le": s <= 0, "gt": s > 0, "ge": s >= 0}[pred[1:]])

    def effect(self, f, i, mem, val, key, text, num, ch):
        q = self.p.q(i.callee) if i.callee else ""
        b = q.split("::")[-1]
        a = list(i.args)
        g = self.p.fns.get(i.callee)

        def chars(op):
            try:
                return "".join(ch(op))
            except Unknown:
                t = text(op)
                if all(isinstance(x, str) for x in t):
                    return "".join(t)
                raise
            except TypeError:
                raise Unknown("characters")
        if q.startswith(NS) or q == "ccgl::utils_string::itoa":
            out = None
            if b == "GetAbsolutePath":
                out = text(a[1])
            elif b in ("DirectoryExists", "PathExists", "FileExists"):
                val[i.id] = Lin(1 if b != "DirectoryExists" else 0)
                return
            elif b == "itoa":
                out = (("number", False, frozenset("/.")),)
            elif g is not None:
                off = 1 if g.sret else 0
                args = {}
                for k in range(len(a) - off):
                    try:
                        args[k] = text(a[k + off])
                    except Unknown:
                        try:
                            args[k] = num(a[k + off])
                        except Unknown:
                            pass
                r = self.call(g, args)
                if g.sret:
                    out = r
                elif r is not None:
                    val[i.id] = r
                    return
            if out is None:
                raise Unknown(b)
            mem[key(a[0])] = out
            return
        if b == "SplitString":
            mem[key(a[0])] = split(text(a[1]), "".join(ch(a[2]))) if len(a) > 2 else self.no(b)
            return
        if q.startswith("std::vector::"):
            v = mem.get(key(a[0]))
            if not (isinstance(v, tuple) and v[:1] == ("parts",)):
                if b == "~vector":
                    return
                raise Unknown(b)
            ps, exact = v[1], v[2]
            if b == "size":
                val[i.id] = Lin(len(ps), {} if exact else {("more", True, None): 1})
            elif b == "empty":
                val[i.id] = Lin(int(not ps))
            elif b in ("operator[]", "at", "back", "front"):
                if b == "back":
                    k = len(ps) - 1
                elif b == "front":
                    k = 0 if exact else -1
                else:
                    n = num(a[1])
                    d = n - Lin(len(ps), {} if exact else {("more", True, None): 1})
                    if d.w or not -len(ps) <= d.c < 0:
                        raise Unknown("element")
                    k = len(ps) + d.c
                if not 0 <= k < len(ps) or ps[k] is None:
                    raise Unknown("element")
                val[i.id] = ps[k]
            elif b == "~vector":
                pass
            else:
                raise Unknown(b)
            return
        if q.startswith("std::basic_string::") or q in ("std::operator+", "std::move", "std::operator==", "std::operator!="):
            if b in ("~basic_string",):
                return
            if b == "basic_string":
                if len(a) >= 4 and i.args[2][0] != "v" or len(a) == 4:
                    mem[key(a[0])] = substr(text(a[1]), num(a[2]), num(a[3]) if not isinstance(self.typ(f, i, 3), str) else Lin(NPOS))
                elif len(a) == 1:
                    mem[key(a[0])] = ()
                else:
                    mem[key(a[0])] = text(a[1])
            elif b == "operator+":
                x = self.part(a[1], text, ch)
                y = self.part(a[2], text, ch)
                mem[key(a[0])] = x + y
            elif b in ("operator+=", "append", "push_back"):
                if len(a) > 3:
                    raise Unknown(b)
                k = key(a[0])
                if b == "append" and len(a) == 3:
                    n, c = num(a[1]), ch(a[2])
                    if n.w or n.c > 8:
                        raise Unknown(b)
                    mem[k] = text(a[0]) + c * n.c
                else:
                    mem[k] = text(a[0]) + self.part(a[1], text, ch)
                val[i.id] = mem[k]
                if i.id is not None:
                    f_alias = a[0]
                    mem[("v", i.id)] = mem[k]
            elif b in ("operator=", "assign"):
                k = key(a[0])
                mem[k] = substr(text(a[1]), num(a[2]), num(a[3])) if len(a) == 4 else text(a[1])
                mem[("v", i.id)] = mem[k]
            elif b in ("length", "size"):
                val[i.id] = length(text(a[0]))
            elif b == "empty":
                s = length(text(a[0])).sign()
                if s is None:
                    raise Unknown("empty")
                val[i.id] = Lin(int(s == 0))
            elif b in ("find_last_of", "rfind", "find", "find_first_of"):
                cs = chars(a[1])
                if b in ("rfind", "find") and len(cs) != 1:
                    raise Unknown(b)
                st = num(a[2]) if len(a) > 2 else None
                last = b in ("find_last_of", "rfind")
                if last and st is not None and big(st):
                    st = None
                val[i.id] = find(text(a[0]), cs, not last, st)
            elif b == "substr":
                mem[key(a[0])] = substr(text(a[1]), num(a[2]), num(a[3]))
            elif b in ("back", "front", "operator[]", "at"):
                t = text(a[0])
                if b == "back":
                    k = len(t) - 1
                elif b == "front":
                    k = 0
                else:
                    k = at(t, num(a[1]))
                    if k is None:
                        raise Unknown(b)
                if not 0 <= k < len(t):
                    raise Unknown(b)
                if not isinstance(t[k], str) and not t[k][2]:
                    raise Unknown(b)
                mem[("v", i.id)] = t[k:k + 1]
                val[i.id] = t[k:k + 1]
            elif b == "pop_back":
                t = text(a[0])
                if not t or not isinstance(t[-1], str):
                    raise Unknown(b)
                mem[key(a[0])] = t[:-1]
            elif b == "erase":
                t = text(a[0])
                s, n = num(a[1]), num(a[2])
                mem[key(a[0])] = substr(t, Lin(0), s) + (() if big(n) else substr(t, s + n, Lin(NPOS)))
                mem[("v", i.id)] = mem[key(a[0])]
            elif b == "resize":
                mem[key(a[0])] = substr(text(a[0]), Lin(0), num(a[1]))
            elif b in ("clear",):
                mem[key(a[0])] = ()
            elif b == "swap":
                x, y = text(a[0]), text(a[1])
                mem[key(a[0])], mem[key(a[1])] = y, x
            elif b in ("c_str", "data"):
                mem[("v", i.id)] = text(a[0])
                val[i.id] = text(a[0])
            elif b in ("operator==", "operator!="):
                x, y = self.part(a[0], text, ch), self.part(a[1], text, ch)
                if x == y or not (length(x) - length(y)).w and (length(x) - length(y)).c or (length(x) - length(y)).sign() in (1, -1):
                    val[i.id] = Lin(int((x == y) == (b == "operator==")))
                else:
                    raise Unknown(b)
            elif b == "move":
                mem[("v", i.id)] = text(a[0])
                val[i.id] = text(a[0])
            else:
                raise Unknown(b)
            return
        # anything else only matters when its result is used
        return

    def typ(self, f, i, k):
        """an allocator argument is an address, a length a number"""
        op = i.args[k]
        if op[0] == "v" and f.insts[op[1]].op == "alloca":
            return "address"
        return None

    def part(self, op, text, ch):
        try:
            return text(op) if op[0] != "c" else ch(op)
        except Unknown:
            return ch(op)

    def no(self, b):
        raise Unknown(b)


def shapes():
    d, e = M("dir"), M("dir2")
    n, n2, s = W("name"), W("name2"), W("suffix")
    plain = ("dir", True, frozenset("."))
    out = []
    # (what, directory part, core name, suffix)
    out.append(("a file with a suffix", (d, SEP), (n,), (s,)))
    out.append(("a file with a suffix in a directory with a dot", (d, DOT, W("dir2"), SEP), (n,), (s,)))
    out.append(("a file with a suffix in a directory that ends with a dot", (d, DOT, SEP), (n,), (s,)))
    out.append(("a file with two dots", (d, SEP), (n, DOT, n2), (s,)))
    out.append(("a file without suffix", (plain, SEP), (n,), ()))
    out.append(("a file without suffix in a directory with a dot", (d, DOT, W("dir2"), SEP), (n,), ()))
    out.append(("a file in the root directory", (SEP,), (n,), (s,)))
    f, g = W("folder"), W("folder2")
    out.append(("a file with a suffix in a folder of a folder", (SEP, f, SEP, g, SEP), (n,), (s,)))
    out.append(("a file with a suffix in a folder with a dot", (SEP, f, DOT, g, SEP), (n,), (s,)))
    out.append(("a file with two dots in a folder", (SEP, f, SEP), (n, DOT, n2), (s,)))
    out.append(("a file without suffix in a folder with a dot", (SEP, f, DOT, g, SEP), (n,), ()))
    out.append(("a bare name with a suffix", (), (n,), (s,)))
    out.append(("a bare name with two dots", (), (n, DOT, n2), (s,)))
    out.append(("a bare name", (), (n,), ()))
    return out


def whole(d, c, s):
    return d + c + ((DOT,) + s if s else ())


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("directory: everything up to and including the last separator; suffix: what follows the last dot of the part behind the last separator, or nothing; core name: the rest of that part")
    rep.rule("directory + core name + '.' + suffix is the path again; a missing suffix adds no dot; a directory without closing separator gets one")
    rep.rule("appending, prefixing and replacing the suffix change that part and nothing else")
    fns = {}
    for f in p.project():
        q = p.q(f.name)
        if q.startswith(NS):
            fns.setdefault(q[len(NS):], []).append(f)
    x, deli = W("text"), ("-",)
    und = n = 0

    def case(fn, what, args, expect, pick=None):
        nonlocal und, n
        for f in fns.get(fn, []):
            if pick and not pick(f):
                continue
            try:
                r = Run(p, S).call(f, args)
            except Unknown as u:
                und += 1
                rep.und = getattr(rep, "und", []) + ["%s for %s: %s" % (fn, what, u)]
                continue
            if r is None or isinstance(r, Lin) or not isinstance(r, tuple):
                und += 1
                continue
            n += 1
            rep.ob(r == expect, "%s of %s" % (fn, what), "%s:%s" % (f.shortfile, f.line),
                   "%s of %s gives %s, it is %s" % (fn, show(args[0]) if 0 in args else what, show(r), show(expect)))

    def txt(k):
        return lambda f: "basic_string" in (f.dity[k + 1] if len(f.dity) > k + 1 else "") or True
    for what, d, c, s in shapes():
        P = whole(d, c, s)
        case("GetPathFromFullName", what, {0: P}, d)
        case("GetCoreFileName", what, {0: P}, c)
        case("GetSuffix", what, {0: P}, s)
        case("ConcatFullName", what, {0: d, 1: c, 2: s}, P)
        for f in fns.get("AppendCoreFileName", []) + fns.get("PrefixCoreFileName", []):
            nm = p.q(f.name)[len(NS):]
            number = "long, char" in f.dem or "int, char" in f.dem
            y = (("number", False, frozenset("/.")),) if number else (x,)
            one = whole(d, c + deli + y if nm[0] == "A" else y + deli + c, s)
            case(nm, what + (" and a number" if number else ""), {0: P, 1: Lin(7) if number else y, 2: deli}, one, pick=lambda g, f=f: g is f)
        if d:
            case("ReplaceSuffix", what, {0: P, 1: (x,)}, whole(d, c, (x,)) if s else ())
    for what, d in (("a directory without closing separator", (M("dir"), SEP, W("folder"))), ("such a directory with a dot", (M("dir"), SEP, W("folder"), DOT, W("folder2")))):
        for s in ((), (W("suffix"),)):
            case("ConcatFullName", what + (" and a suffix" if s else ""), {0: d, 1: (W("name"),), 2: s}, whole(d + (SEP,), (W("name"),), s))
    rep.count("path shapes decided", n)
    rep.count("path shapes not decided", und)
    rep.count("path routines", sum(len(v) for v in fns.values()))
    rep.need(n, 10, "path shapes decided")
