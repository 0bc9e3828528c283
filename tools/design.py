#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md (per property section, planted bugs) from checks/*.py, properties.jsonl and seeded/*."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = {}
cur = None
for l in open(V + "/tools/design_notes.md"):
    m = re.match(r"## (C\d+)", l)
    if m:
        cur = m.group(1)
        notes[cur] = ""
    elif cur:
        notes[cur] += l
out = []
for p in props:
    t = ast.parse(open("%s/checks/%s.py" % (V, p["id"].lower())).read())
    k = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "PARTS", "BUDGET", "LEVEL")}
    out.append("### %s %s\n" % (p["id"], p["title"]))
    d = " ".join(ast.get_docstring(t).split())
    out.append("*Generated and oracle.* %s\n" % d[len(p["id"]) + 2:])
    out.append("*Non-trivial.* %s.\n" % k["RULE"].rstrip("."))
    out.append("*Bounds, cost.* %s; quick at most %d s, thorough at most %d s of wall time on 8 cores.%s\n" % (
        "; ".join("%s: %d cases quick, %d thorough" % (a, b["quick"], b["thorough"]) for a, b in k["PARTS"].items()), k["BUDGET"]["quick"], k["BUDGET"]["thorough"],
        " Assumed: %s." % "; ".join(k["ASSUMPTIONS"]) if k.get("ASSUMPTIONS") else ""))
    out.append(notes.get(p["id"], "").strip() + "\n")
seed = ["| planted bug | property, check which catches it | needs |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seed.append("| %s | %s%s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], "" if m.get("caught", True) else " (missed)", m["needs"]))
s = open(V + "/DESIGN.md").read()
for name, txt in (("properties", "\n".join(out)), ("seeded", "\n".join(seed) + "\n")):
    a, b = "<!-- begin %s -->" % name, "<!-- end %s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + txt + s[j:]
open(V + "/DESIGN.md", "w").write(s)
