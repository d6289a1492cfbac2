#!/usr/bin/env python3
"""Development tool: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
rows = "".join("| %s | %s |\n" % (k, ", ".join(sorted(v))) for k, v in sorted(by.items()))
p = R + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| property \| bugs \|\n\|---\|---\|\n)(\|.*\n)+", lambda m: m.group(1) + rows, s)
open(p, "w").write(s)
