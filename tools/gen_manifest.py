#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per check module, the rest of properties.jsonl under not_applicable."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "lib"), os.path.join(H, "checks")]
sys.dont_write_bytecode = True
NA = json.load(open(os.path.join(H, "tools", "na.json")))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    pid = json.loads(l)["id"]
    f = os.path.join(H, "checks", pid.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module(pid.lower())
        cmd = "python3 check.py " + pid
        checks.append(dict(property=pid, quick_cmd=cmd, thorough_cmd=cmd, evidence_file="evidence/%s.json" % pid,
                           technique=m.TECH, level="other", level_note=m.NOTE))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no check has been built for it yet")))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na,
               notes="All checks are static: they compile the current sources of /repo to LLVM IR (no execution) and decide the property on that IR. VERIF_REPO overrides the repository path."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
