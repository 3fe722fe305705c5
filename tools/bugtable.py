#!/usr/bin/env python3
"""rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], " ".join(d["what_it_breaks"].split()).replace("|", "/")))
t = "<!-- bugs -->\n| planted bug | caught by | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /bugs -->"
p = root + "/DESIGN.md"
s = open(p).read()
s = s.replace("BUGTABLE", t) if "BUGTABLE" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
