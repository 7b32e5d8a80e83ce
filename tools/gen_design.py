#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md and the results of tools/plant.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
book = json.load(open(V + "/tools/planted.json"))
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for b, res in sorted(book.items()):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    rows.append("| %s | %s | %s | %s |" % (b, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), ", ".join(p for p, v in sorted(res.items()) if v) or "**none**"))
open(V + "/DESIGN.md", "w").write(open(V + "/tools/design.md").read().replace("@TABLE@", "\n".join(rows)))
