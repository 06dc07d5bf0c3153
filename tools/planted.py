#!/usr/bin/env python3
"""Development aid: writes the list of planted bugs into DESIGN.md, between its markers."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    by.setdefault(d["property"], []).append((i, d.get("missed")))
n = sum(len(v) for v in by.values())
miss = [i for v in by.values() for i, m in v if m]
out = [f"{n} bugs are kept in `seeded/`. Each is caught by the quick check of its own property"
       + (" except: " + ", ".join(miss) if miss else "") + ":", ""]
for p in sorted(by): out.append(f"* {p}: " + ", ".join(i.split("-", 1)[1] for i, _ in by[p]))
p = V + "/DESIGN.md"; s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
s = s[:s.index(a) + len(a)] + "\n".join(out) + "\n" + s[s.index(b):]
open(p, "w").write(s); print(n)
