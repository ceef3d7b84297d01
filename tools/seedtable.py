"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. The
last column is kept from the old table."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "| bug | check | needs | |\n|-----|-------|-------|--|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a) + 1
old = {}
for l in s[a:b].splitlines():
    c = [x.strip() for x in l.strip("|").split("|")]
    old[c[0]] = c[-1] if len(c) > 3 else ""
rows = ""
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m, n = json.load(open(f)), f.split("/")[-2]
    rows += "| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"], old.get(n, ""))
open(p, "w").write(s[:a] + rows + s[b:])
