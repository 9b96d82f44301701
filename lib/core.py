"""Check harness: one registry per run; reports, known findings, evidence and exit status."""
import json, os, sys, time, traceback
import ir
from ir import AnalysisBroken, VERIF, REPO
from sym import Sym, show
from effects import Effects
from absint import Reach


class Ctx:
    """shared lazily built program models"""
    _prog = {}

    def __init__(self):
        self._p = {}

    def prog(self, openmp=False, keep=True):
        k = (openmp, keep)
        if k not in self._p:
            self._p[k] = ir.load(openmp=openmp, keep=keep)
        return self._p[k]

    def sym(self, openmp=False):
        k = ("s", openmp)
        if k not in self._p:
            self._p[k] = Sym(self.prog(openmp))
        return self._p[k]

    def effects(self, openmp=False):
        k = ("e", openmp)
        if k not in self._p:
            self._p[k] = Effects(self.prog(openmp), self.sym(openmp))
        return self._p[k]

    def reach(self, openmp=False):
        k = ("r", openmp)
        if k not in self._p:
            self._p[k] = Reach(self.prog(openmp), self.sym(openmp), self.effects(openmp))
        return self._p[k]


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viols = []        # dicts
        self.keys = set()
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.counts = {}
        self.rules = []
        self.assumptions = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ob(self, ok, key, where, text, sample=None):
        """one obligation; not ok is a violation"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample or len(self.samples) < 12:
                self.samples.append("%s: %s [holds]" % (where, text))
        else:
            self.viol(key, where, text)
        return ok

    def viol(self, key, where, text):
        if key in self.keys:
            return
        self.keys.add(key)
        self.viols.append({"key": key, "where": where, "text": text})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, n, minimum, what):
        if n < minimum:
            raise AnalysisBroken("%s: only %d instance(s) found, expected at least %d: the code under analysis no longer has the shape this check was built for" % (what, n, minimum))


LEVEL = "other"


def run(pid, module):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(pid)
    try:
        module.check(Ctx(), rep)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        if not rep.viols:
            return 3
    except Exception:
        traceback.print_exc(limit=-6)
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        if not rep.viols:
            return 3
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    kk = {k["key"]: k for k in known}
    new = [v for v in rep.viols if v["key"] not in kk]
    old = [v for v in rep.viols if v["key"] in kk]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL,
          "coverage": {"explanation": "static analysis of the linked IR of every source file of the current tree; rules: " + " | ".join(rep.rules),
                       "obligations": rep.obligations, "discharged": rep.discharged, "exhaustive": True,
                       "samples": rep.samples[:12], "counts": rep.counts,
                       "known_findings": [v["key"] for v in old]},
          "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged; %s" % (pid, rep.obligations, rep.discharged, ", ".join("%s=%d" % x for x in sorted(rep.counts.items()))))
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["where"], v["text"]))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new:
            print("  %s: %s  {%s}" % (v["where"], v["text"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
