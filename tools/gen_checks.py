#!/usr/bin/env python3
"""Writes /verif/checks.json (what symgo runs per property) and /verif/MANIFEST.json."""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

src = {}
for f in glob.glob(V + "/harness/*/*.go"):
    pkg = os.path.basename(os.path.dirname(f))
    for m in re.finditer(r"^func ([A-Z]\w*)\(\) \{\n(.*?)^\}", open(f).read(), re.S | re.M):
        src[pkg + "." + m.group(1)] = m.group(2)

def H(func, bounds, weight=0, thorough=None, tbounds=None, quick=None, covers=None, **kw):
    body = src[func]
    d = {"name": func, "func": func, "bounds": bounds}
    d["covers"] = covers if covers is not None else re.findall(r'nd\.Cover\("([^"]*)"\)', body)
    t = {}
    if thorough:
        t["params"] = thorough
    if tbounds:
        t["bounds"] = tbounds
    if "tpreempt" in kw:
        t["preempt"] = kw.pop("tpreempt")
    if "tdelays" in kw:
        t["delays"] = kw.pop("tdelays")
    if t:
        d["thorough"] = t
    if quick:
        d["params"] = quick
    if weight:
        d["weight"] = weight
    d.update(kw)
    return d

DIST = "the definitions are those in the sources and comments of the pinned commit (CRC seeds recomputed from field names and types where these determine them); a definition that was already wrong there is not noticed"
COMPLETE = "accessors are asked on complete frames only (as the reader and a copying FrameFromBytes make them)"
STD = "the standard library used by the code (fmt, bytes, encoding/binary, bufio, io, tabwriter, sync, context, net) behaves as its models in harness/models and the engine describe"
checks = {}
notes = {}

def C(pid, hs, note, assumptions=(), outside=(), **kw):
    checks[pid] = {"level": "model_checking", "harnesses": hs, "assumptions": [STD] + list(assumptions), "outside": list(outside), **kw}
    notes[pid] = note

exec(open(V + "/tools/checks_list.py").read())

json.dump(checks, open(V + "/checks.json", "w"), indent=1)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks are one engine (engine/, a symbolic executor for go/ssa with z3) running the harnesses in harness/ against /repo's current sources; see DESIGN.md. No hooks in /repo.",
}
for p in props:
    i = p["id"]
    if i in checks:
        man["checks"].append({
            "property": i,
            "quick_cmd": "bash check.sh " + i,
            "thorough_cmd": "bash check.sh %s -tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "solver-based bounded symbolic execution of the real code (go/ssa + SMT), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes[i],
        })
    else:
        man["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(man["checks"]), "checks;", [x["property"] for x in man["not_applicable"]])
