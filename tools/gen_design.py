#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (between BEGIN/END markers): method table, not applicable, planted changes."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def section(text, name, body):
    return re.sub(r"(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), text, flags=re.S)


m = json.load(open(V + "/MANIFEST.json"))
props = dict((q["id"], q) for q in map(json.loads, open(V + "/properties.jsonl")))
rows = []
for c in m["checks"]:
    q = props[c["property"]]
    rows.append("### %s %s\n\n*Decided by:* %s.\n\n*Limits:* %s\n" % (q["id"], q["title"], c["technique"].rstrip("."), c["level_note"]))
na = "".join("* **%s %s** - %s\n" % (x["property"] if "property" in x else x["id"], props[x.get("property", x.get("id"))]["title"], x["reason"]) for x in m["not_applicable"])
seeds = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(d))
    seeds.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), j["property"], j["what_it_breaks"].replace("|", "/").replace("\n", " ")))
p = V + "/DESIGN.md"
s = open(p).read()
s = section(s, "METHODS", "\n".join(rows) + "\n")
s = section(s, "NA", na)
s = section(s, "SEEDED", "| planted change | caught by | what it breaks |\n|---|---|---|\n" + "".join(seeds))
open(p, "w").write(s)
