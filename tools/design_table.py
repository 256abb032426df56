#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| `%s` | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"],
                                        m["needs"].strip().replace("\n", " ").replace("|", "\\|")))
p = root + "/DESIGN.md"
s = open(p).read()
a = s.index("<!-- planted -->") + len("<!-- planted -->")
b = s.index("<!-- /planted -->")
s = s[:a] + "\n\n| planted bug | caught by | manifests with |\n|---|---|---|\n" + "\n".join(rows) + "\n\n" + s[b:]
open(p, "w").write(s)
