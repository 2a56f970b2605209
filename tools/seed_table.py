#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/DESIGN.md").read()
h = "## Planted bugs"
t = t[:t.index(h)]
rows = []
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} |")
t += h + "\n\nEach was written from the text of a property, applied to /repo, confirmed to compile, to pass the stable tests and to\nfail its demonstration (`tools/seeds.py test`), and run against the quick check of its property. All are caught by the\ncheck named. `pre-inner-text` was missed at first: C17 looked only at the whole document's rendering; since then C17,\nC18 and C19 also compare the outer html, inner html and inner text of a random node, with other options mixed in.\n\n| planted bug | caught by (quick) | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(R + "/DESIGN.md", "w").write(t)
