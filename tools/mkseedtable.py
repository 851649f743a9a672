#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/seed_results.tsv (id, property, first, now)"""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(ROOT, "tools", "seed_results.tsv")
if os.path.exists(p):
    for l in open(p):
        f = l.rstrip("\n").split("\t")
        if len(f) >= 3: res[f[0]] = f
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); i = os.path.basename(d)
    c = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    r = res.get(i)
    rows.append("| %s | %s | %s | %s |" % (i, c(m["what_it_breaks"]), c(m["needs"]), (m["property"] + (" " + r[2] if r else "")) ))
f = os.path.join(ROOT, "DESIGN.md"); s = open(f).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(f, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
