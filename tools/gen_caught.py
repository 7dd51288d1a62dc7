#!/usr/bin/env python3
"""Writes tools/design_caught.json from seeded/*/meta.json and the outputs of the last sweep (DIR/out.ID)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = sys.argv[1]
r = {}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    c = "MISSED"
    try:
        t = open(D + "/out." + i).read()
    except OSError:
        t = ""
    x = re.search(r"VIOLATION property=(C\d+).*\n\s*(.*)", t)
    if x:
        w = x.group(2).strip()
        w = re.sub(r"^assert in harness ", "", w)
        c = "%s: %s" % (x.group(1), re.sub(r"\(?/tmp/\S+/repo/(\S+?)\)?(?=[ )])", r"\1", w)[:160].replace("|", "/"))
    r[i] = [m["needs"].replace("|", "/"), c]
json.dump(r, open(V + "/tools/design_caught.json", "w"), indent=1)
print(sum(v[1] == "MISSED" for v in r.values()), "missed of", len(r))
