#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_how.py, checks.json, design_caught.json and design_tail.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + "/tools/"
ns = {}
exec(open(T + "design_how.py").read(), ns)
checks = json.load(open(V + "/checks.json"))
out = [open(T + "design_head.md").read().rstrip() + "\n"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    how, oracle, cost = ns["HOW"][i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("%s Oracle: %s. Quick: about %s on 8 cores.\n" % (how, oracle, cost))
    for h in checks[i]["harnesses"]:
        t = h.get("thorough", {}).get("bounds")
        out.append("- `%s`: %s%s" % (h["func"], h["bounds"], "; thorough: " + t if t else ""))
    out.append("")
out.append("## Planted changes\n")
out.append(open(T + "design_planted.md").read().rstrip() + "\n")
caught = json.load(open(T + "design_caught.json"))
out.append("| change | what it needs | caught by |\n|---|---|---|")
for k in sorted(caught):
    out.append("| %s | %s | %s |" % (k, caught[k][0], caught[k][1]))
out.append("")
out.append(open(T + "design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
