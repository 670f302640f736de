#!/usr/bin/env python3
"""Rewrites the table of planted bugs in design_tail.md from seeded/*/meta.json (run after planting)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    d = open(os.path.dirname(f) + "/patch.diff").read()
    where = ", ".join(re.findall(r"^--- a/(\S+)", d, re.M))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), where.replace("src/core/", ""), m.get("caught_by", m["property"]), m["needs"]))
p = V + "/tools/design_tail.md"
s = open(p).read()
t = "<!-- seeds -->\n| planted bug | file | caught by (quick tier) | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "planted bugs")
