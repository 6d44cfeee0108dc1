#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| id \| property \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "".join(rows), s)
open(p, "w").write(s)
