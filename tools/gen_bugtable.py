"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/found_by.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
found = dict(l.split(None, 1) for l in open(os.path.join(V, "tools", "found_by.txt")) if l.strip())
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    rows.append(f"| {n} | {j['property']} | {j['needs']} | {found.get(n, '?').strip()} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->")
open(p, "w").write(s[:a] + "<!-- bugs -->\n| planted bug | property | needs | found by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[b:])
