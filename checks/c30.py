"""C30: the fields of a date keep their quantity, offset and unit from one form to the other."""
from sym import show
TECH = "use-definition chains of the fields of broken-down times, with unit and offset typing (calendar number / offset number / seconds / milliseconds) and guard facts for the time zone flag"
NOTE = ("Covers every read and write of a field of struct tm and of DateTime, the order of parsed and printed fields, the conversion between milliseconds and seconds and the choice "
        "between UTC and local time. The exactness of the calendar arithmetic itself (Julian days, the C library's normalisation) is N03.")

OFF = {"tm_year": 1900, "tm_mon": 1, "tm_mday": 0, "tm_hour": 0, "tm_min": 0, "tm_sec": 0, "tm_wday": 0, "tm_yday": 1}
RANGE = {"tm_mon": (0, 11), "tm_mday": (1, 31), "tm_hour": (0, 23), "tm_min": (0, 59), "tm_sec": (0, 60), "tm_year": (-2000, 1899)}
DT = {"year": ("tm_year", 1900), "month": ("tm_mon", 1), "day": ("tm_mday", 0), "hour": ("tm_hour", 0), "minute": ("tm_min", 0), "second": ("tm_sec", 0),
      "day_of_week": ("tm_wday", 0), "day_of_year": ("tm_yday", 0)}
NAMES = {"yr": "tm_year", "year": "tm_year", "iyear": "tm_year", "month": "tm_mon", "mon": "tm_mon", "imonth": "tm_mon", "mn": "tm_mon", "day": "tm_mday", "iday": "tm_mday", "dy": "tm_mday",
         "hour": "tm_hour", "ihour": "tm_hour", "minute": "tm_min", "iminute": "tm_min", "second": "tm_sec", "isecond": "tm_sec"}
RETURNS = {"GetYear": "tm_year", "GetMonth": "tm_mon", "GetDay": "tm_mday", "DayOfYear": "tm_yday"}
ORDER = ["tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec"]
LETTERS = {"Y": 0, "y": 0, "m": 1, "b": 1, "B": 1, "d": 2, "e": 2, "H": 3, "M": 4, "S": 5, "X": 3, "T": 3, "F": 0, "R": 3}
SPAN = {"X": 5, "T": 5, "F": 2, "R": 4}
UTC, LOCAL = ("gmtime_r", "timegm", "UTCTime"), ("localtime_r", "mktime", "LocalTime")
CASTS = ("sext", "zext", "trunc", "freeze")


def field(S, f, addr):
    e = S.expr(f, addr)
    if e[0] == "fld" and isinstance(e[2], str):
        return e[2]
    return None


def const(op):
    if op[0] == "c":
        v = op[1]
        w = op[2] if len(op) > 2 else 64
        return v - (1 << w) if v >= (1 << (w - 1)) and w > 1 else v
    return None


def quantity(p, S, f, e, depth=0):
    """field that a number outside of a broken-down time is known to be: by the parameter or the place in the parsed text"""
    if depth > 4:
        return None
    if e[0] == "ld":
        return quantity(p, S, f, e[1], depth + 1)
    if e[0] == "arg":
        return NAMES.get(f.pnames.get(e[1]) or f.argname(e[1]))
    if e[0] == "fld" and e[2] in DT and "DateTime" in f.dem + str(e):
        return DT[e[2]][0]
    if e[0] == "loc":
        at = set()
        for i in f.all_insts():
            if i.op == "call" and i.callee and "sscanf" in p.q(i.callee).split("::")[-1]:
                es = [S.expr(f, a) for a in i.args[2:]]
                if e in es and es.index(e) < 6:
                    at.add(ORDER[es.index(e)])
        return at.pop() if len(at) == 1 else "different fields" if at else None
    return None


def walk(f, i):
    """(what, instruction, operand index, offset) of everything a number read from a field goes to"""
    us = f.uses()
    work, seen = [(i, 0, False)], set()
    while work:
        d, off, neg = work.pop()
        if (d.id, off) in seen:
            continue
        seen.add((d.id, off))
        for u in us.get(("v", d.id), []):
            if u.op in CASTS or u.op in ("phi", "select"):
                if u.op == "select" and u.args[0] == ("v", d.id):
                    continue
                work.append((u, off, neg))
            elif u.op in ("add", "sub") and const(u.args[1]) is not None and u.args[0] == ("v", d.id):
                c = const(u.args[1])
                work.append((u, off + (c if u.op == "add" else -c), neg))
            elif u.op == "add" and const(u.args[0]) is not None:
                work.append((u, off + const(u.args[0]), neg))
            else:
                yield u, d, off


def check(ctx, rep):
    p, S = ctx.prog(), ctx.sym()
    rep.rule("a year leaves a broken-down time with 1900 added and enters it with 1900 taken off, a month with 1; days, hours, minutes and seconds unchanged; the day of the year counts from 1 where it is returned")
    rep.rule("each field is written from, stored to and returned as the same quantity; parsed and printed fields go from years to seconds")
    rep.rule("a constant or a step in place leaves a field inside its range; only February gets a leap day")
    rep.rule("a table of the months is indexed from 0 if it has twelve entries and from 1 if it has thirteen")
    rep.rule("UTC routines run only where the caller's flag is true, local ones only where it is false, and the flag is passed on")
    rep.rule("times in milliseconds become seconds by / 1000 and % 1000, microseconds by / 1000000; moving forward adds, moving backward subtracts")
    nr = nw = nf = nu = nm = 0
    for f in p.project():
        nm_ = p.q(f.name).split("::")[-1]
        zone = []
        for i in f.all_insts():
            if i.op == "load":
                m = field(S, f, i.args[0])
                if m in OFF:
                    nr += 1
                    reads(p, S, rep, f, nm_, i, m)
                elif m in ("tv_usec", "tv_nsec"):
                    nm += 1
                    micro(S, rep, f, nm_, i, m)
                elif m in ("filetime", "total_milliseconds"):
                    nm += 1
                    millis(p, S, rep, f, nm_, i, m)
            elif i.op == "store":
                m = field(S, f, i.args[1])
                if m in OFF:
                    nw += 1
                    writes(p, S, rep, f, nm_, i, m)
            elif i.op == "call" and i.callee:
                b = p.q(i.callee).split("::")[-1]
                if b in UTC or b in LOCAL:
                    zone.append((b, i))
                elif b == "strftime":
                    nf += printed(S, rep, f, nm_, i)
        nu += zones(p, S, rep, f, nm_, zone)
        if nm_ in ("FromFileTime", "Forward", "Backward"):
            nm += filetime(p, S, rep, f, nm_)
        if nm_ == "ConvertTMToDateTime":
            nm += both(S, rep, f, nm_)
    rep.count("reads of broken-down times", nr)
    rep.count("writes of broken-down times", nw)
    rep.count("printed formats", nf)
    rep.count("choices between UTC and local time", nu)
    rep.count("conversions of milliseconds", nm)
    rep.need(nr, 8, "reads of broken-down times")
    rep.need(nw, 5, "writes of broken-down times")


def reads(p, S, rep, f, nm, i, m):
    for u, d, off in walk(f, i):
        where = u.where()
        ok, what = True, ""
        want = OFF[m]
        if u.op == "store" and u.args[0] == ("v", d.id):
            t = field(S, f, u.args[1])
            if t == m:
                continue
            a = S.expr(f, u.args[1])
            if t in OFF:
                ok, what = False, "is stored in %s" % t
            elif t in DT:
                ok = DT[t] == (m, off)
                what = "with %+d is stored in %s" % (off, t)
            else:
                q = quantity(p, S, f, a)
                ok = off == want and q in (None, m)
                what = "with %+d is stored in %s" % (off, show(a, f))
        elif u.op == "ret":
            ok = off == want and RETURNS.get(nm, m) == m
            what = "with %+d is returned by %s" % (off, nm)
        elif u.op == "call" and u.callee:
            if u.callee not in p.fns:
                continue
            g = p.fns[u.callee]
            k = u.args.index(("v", d.id))
            q = NAMES.get(g.pnames.get(k) or g.argname(k))
            ok = off == want and q in (None, m)
            what = "with %+d is passed on to %s" % (off, p.q(u.callee).split("::")[-1])
        elif u.op == "getelementptr" and u.args[0] != ("v", d.id):
            st = u.d.get("st", "")
            n = int(st[1:].split(" ")[0]) if st.startswith("[") else None
            if m != "tm_mon" or n not in (12, 13):
                continue
            ok = off == n - 12
            what = "with %+d indexes a table of %d" % (off, n)
        elif u.op in ("mul", "sdiv", "udiv", "srem", "urem", "sitofp", "uitofp") and m == "tm_year":
            ok = off == want
            what = "with %+d is calculated with" % off
        else:
            continue
        rep.ob(ok, "%s of %s" % (m, nm), where, "%s: %s %s%s" % (nm, m, what, "" if ok else ", it should have %+d and stay the same quantity" % want))


def writes(p, S, rep, f, nm, i, m):
    e = S.expr(f, i.args[0])
    off = 0
    while e[0] == "bin" and e[1] in ("add", "sub") and e[3][0] == "c":
        off += e[3][1] if e[1] == "add" else -e[3][1]
        e = e[2]
    if e[0] == "c":
        v = e[1] + off
        if m in RANGE:
            lo, hi = RANGE[m]
            rep.ob(lo <= v <= hi or v == 0, "constant %s of %s" % (m, nm), i.where(), "%s: %s is set to %d%s" % (nm, m, v, "" if lo <= v <= hi or v == 0 else ", outside its range"))
        return
    if e[0] == "ld" and e[1][0] == "fld" and e[1][2] in OFF:
        if e[1][2] == m:
            if m == "tm_mon" and off < 0:
                rep.ob(stepped(S, f, i, e), "step of %s in %s" % (m, nm), i.where(), "%s: the month is taken back by %d%s" % (nm, -off, " and January is told apart" if stepped(S, f, i, e) else " without telling January apart (the month is counted from 0)"))
            return
        if off != 0 or e[1][2] != m:
            rep.ob(False, "%s from %s in %s" % (m, e[1][2], nm), i.where(), "%s: %s is filled from %s" % (nm, m, e[1][2]))
        return
    if m == "tm_mday" and e[0] == "ld" and e[1][0] == "idx" and off:
        ok = any(x[0] == "eq" and "tm_mon" in str(x[1:]) for x in S.facts(f, i.blk))
        rep.ob(ok, "leap day in %s" % nm, i.where(), "%s: the day from the table is moved by %+d %s" % (nm, off, "for one month only" if ok else "whatever the month is"))
        return
    q = quantity(p, S, f, e)
    if m in ("tm_year", "tm_mon") or q is not None:
        if q is None and e[0] not in ("arg", "ld"):
            return
        want = -OFF[m]
        ok = off == want and q in (None, m)
        rep.ob(ok, "%s set in %s" % (m, nm), i.where(), "%s: %s is set to %s %+d%s" % (nm, m, show(e, f), off, "" if ok else ", it should be the same quantity with %+d" % want))


def stepped(S, f, i, e):
    for x in S.facts(f, i.blk):
        if x[0] in ("ne", "sgt") and e in x[1:] and ("c", 0) in x[1:]:
            return True
        if x[0] == "sge" and e in x[1:] and ("c", 1) in x[1:]:
            return True
    for j in f.all_insts():
        if j.op == "icmp":
            a, b = S.expr(f, j.args[0]), const(j.args[1])
            if a == e and b is not None and (j.d["p"], b) in (("slt", 0), ("sge", 0), ("sle", -1), ("sgt", -1), ("eq", -1), ("ne", -1)) and f.idominates(i, j):
                return True
            # the reduced number itself is compared
            if a[0] == "bin" and a[2] == e and b is not None and (j.d["p"], b) in (("slt", 0), ("sge", 0), ("sle", -1), ("sgt", -1), ("eq", -1), ("ne", -1)):
                return True
    return False


def printed(S, rep, f, nm, i):
    e = S.expr(f, i.args[2])
    if e[0] != "str":
        return 0
    last, ok, k = -1, True, 0
    t = e[1]
    while k < len(t) - 1:
        if t[k] == "%":
            c = t[k + 1]
            if c in LETTERS:
                if LETTERS[c] <= last:
                    ok = False
                last = SPAN.get(c, LETTERS[c])
            k += 1
        k += 1
    rep.ob(ok, "format of %s" % nm, i.where(), "%s prints %s, %s" % (nm, t, "from years to seconds" if ok else "which repeats a field or is not in the order of years, months, days, hours, minutes, seconds"))
    return 1


def zones(p, S, rep, f, nm, calls):
    flags = [k for k, q in enumerate(f.params) if q["t"] == "i1"]
    n = 0
    kinds = {b in UTC for b, i in calls}
    if calls and flags:
        n += 1

        def follows(k):
            for b, i in calls:
                fs = S.facts(f, i.blk)
                if (("true" if b in UTC else "false"), ("arg", k)) not in fs:
                    return False
            return True
        ok = any(follows(k) for k in flags)
        rep.ob(ok, "time zone of %s" % nm, calls[0][1].where(), "%s: %s" % (nm, "UTC if the flag is set, local time if not" if ok else "the choice between UTC and local time (%s) does not follow the flag" % ", ".join(b for b, i in calls)))
    elif calls and nm in ("LocalTime", "UTCTime", "ToUTCTime") and nm != "ToLocalTime":
        n += 1
        bad = [b for b, i in calls if b != "mktime" and (b in UTC) != (nm != "LocalTime")]
        rep.ob(not bad, "time zone of %s" % nm, calls[0][1].where(), "%s: %s" % (nm, "asks for %s" % "the other zone by %s" % bad[0] if bad else "asks for its own time zone"))
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "GetDateTime" and i.callee in p.fns:
            g = p.fns[i.callee]
            if not flags:
                continue
            n += 1
            e = S.expr(f, i.args[-1])
            ok = e[0] == "arg" and e[1] in flags
            if not ok and e[0] == "c":
                ok = any(("true" if e[1] else "false", ("arg", k)) in S.facts(f, i.blk) for k in flags)
            elif not ok and e[0] not in ("not", "arg", "c"):
                ok = True       # not decided here
            rep.ob(ok, "time zone passed on by %s" % nm, i.where(), "%s: GetDateTime is %s" % (nm, "given the caller's flag" if ok else "not given the caller's flag but %s" % show(e, f)))
    return n


def micro(S, rep, f, nm, i, m):
    one = 1000000 if m == "tv_usec" else 1000000000
    for u, d, off in walk(f, i):
        if u.op in ("sdiv", "udiv"):
            c = const(u.args[1])
            rep.ob(c in (one // 1000, one), "unit of %s" % nm, u.where(), "%s: %s / %s" % (nm, m, c))
        elif u.op in ("sitofp",):
            for v in f.uses().get(("v", u.id), []):
                if v.op in ("fdiv", "fmul"):
                    t = v.args[1]
                    x = float(t[1]) if t[0] == "f" and num(t[1]) else None
                    if x is not None:
                        rep.ob(abs((x if v.op == "fdiv" else 1 / x) - one) < 1, "unit of %s" % nm, v.where(), "%s: %s in seconds by %s" % (nm, m, t[1]))
                elif v.op in ("fadd", "fsub"):
                    rep.ob(False, "unit of %s" % nm, v.where(), "%s: %s is added to seconds" % (nm, m))


def num(t):
    try:
        return float(t) != 0
    except (ValueError, TypeError):
        return False


def millis(p, S, rep, f, nm, i, m):
    for u, d, off in walk(f, i):
        if u.op in ("sdiv", "udiv", "srem", "urem", "mul"):
            c = const(u.args[1])
            rep.ob(c == 1000, "unit of %s" % nm, u.where(), "%s: %s %s %s" % (nm, m, "%" if "rem" in u.op else "/", c))
        elif u.op == "store" and u.args[0] == ("v", d.id):
            a = S.expr(f, u.args[1])
            to = [j for j in f.all_insts() if j.op == "call" and j.callee and p.q(j.callee).split("::")[-1] in ("gmtime_r", "localtime_r") and S.expr(f, j.args[0]) == a]
            if a[0] == "loc" and to:
                rep.ob(False, "unit of %s" % nm, u.where(), "%s: %s, which is in milliseconds, is taken for seconds" % (nm, m))


def filetime(p, S, rep, f, nm):
    n = 0
    if nm == "FromFileTime":
        k = 1 if f.sret else 0
        us = [u for u in f.uses().get(("a", k), []) if u.op in ("sdiv", "udiv", "srem", "urem")]
        for u in us:
            n += 1
            rep.ob(const(u.args[1]) == 1000, "unit of %s" % nm, u.where(), "%s: the milliseconds are divided by %s" % (nm, const(u.args[1])))
        for i in f.all_insts():
            if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "ConvertTMToDateTime":
                n += 1
                e = S.expr(f, i.args[-1])
                ok = e[0] not in ("c", "arg") and not (e[0] == "bin" and "div" in e[1])
                rep.ob(ok, "milliseconds of %s" % nm, i.where(), "%s: what is left of the second is %s" % (nm, show(e, f)))
        return n
    for i in f.all_insts():
        if i.op == "call" and i.callee and p.q(i.callee).split("::")[-1] == "FromFileTime":
            e = S.expr(f, i.args[-1])
            n += 1
            if e[0] != "bin":
                continue
            want = "add" if nm == "Forward" else "sub"
            mine = any(x[0] == "ld" and x[1][0] == "fld" and x[1][2] in ("filetime", "total_milliseconds") for x in (e[2],) + ((e[3],) if want == "add" else ()))
            step = any(x[0] == "arg" for x in e[2:])
            ok = e[1] == want and mine and step
            rep.ob(ok, "direction of %s" % nm, i.where(), "%s: goes to %s" % (nm, show(e, f)))
    return n


def both(S, rep, f, nm):
    v = {}
    for i in f.all_insts():
        if i.op == "store":
            m = field(S, f, i.args[1])
            if m in ("filetime", "total_milliseconds"):
                v[m] = (S.expr(f, i.args[0]), i)
    n = 0
    for m, (e, i) in v.items():
        if e[0] == "bin" and e[1] == "add":
            n += 1
            ok = any(x[0] == "bin" and x[1] == "mul" and ("c", 1000) in x[2:] for x in e[2:]) and any(x[0] == "arg" for x in e[2:])
            rep.ob(ok, "%s of %s" % (m, nm), i.where(), "%s: %s is %s" % (nm, m, show(e, f)))
    return n
