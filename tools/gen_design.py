#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: prose from tools/design/*.md, one section per property from properties.jsonl and the
directives of its harness, and the table of seeded bugs from seeded/*/meta.json and tools/seed/results.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def directives(path):
    d = {}
    for l in open(path):
        m = re.match(r"// MC-([A-Z]+):\s*(.*)$", l)
        if m:
            d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
res = {}
if os.path.exists(V + "/tools/seed/results.json"):
    res = json.load(open(V + "/tools/seed/results.json"))
cost = res.get("_cost", {})
notes = json.load(open(V + "/tools/design/notes.json"))
o = [open(V + "/tools/design/head.md").read().rstrip()]
o.append("\n## The properties, one by one\n")
for p in props:
    d = directives("%s/harness/%s.cpp" % (V, p["id"]))
    n = notes.get(p["id"], {})
    o.append("### %s — %s\n" % (p["id"], p["title"]))
    o.append("*Specified.* " + p["statement"] + "\n")
    o.append("*How it is decided.* " + d["TECH"][0][0].upper() + d["TECH"][0][1:] + "." + (" " + n["how"] if "how" in n else "") + "\n")
    o.append("*Bounds.* " + " ".join(d["BOUNDS"]) + (" Assumes: " + "; ".join(d["ASSUME"]) + "." if "ASSUME" in d else "") + "\n")
    o.append("*Build configurations.* quick: %s; thorough adds: %s.%s\n" % (d["QUICK"][0], d.get("THOROUGH", ["none"])[0] or "none",
             " Cost of the quick run: about %s s on 8 cores." % cost[p["id"]] if p["id"] in cost else ""))
    o.append("*Why tests cannot settle it.* " + p["why_tests_cant"] + "\n")
    if "note" in n:
        o.append("*Notes.* " + n["note"] + "\n")
o.append("## Seeded bugs\n")
o.append(open(V + "/tools/design/seeds.md").read().rstrip() + "\n")
o.append("| seeded bug | property | needs | caught by its check |")
o.append("|---|---|---|---|")
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    o.append("| %s | %s | %s | %s |" % (i, j["property"], j["needs"].replace("|", "/"), res.get(i, "not run")))
o.append("")
o.append(open(V + "/tools/design/tail.md").read().rstrip() + "\n")
open(V + "/DESIGN.md", "w").write("\n".join(o))
print(len("\n".join(o)), "bytes")
