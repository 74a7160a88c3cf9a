#!/usr/bin/env python3
"""Rewrites DESIGN.md's section 5 (the table of planted bugs) from seeded/*/meta.json and the text below."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
HEAD = open("tools/planted.md").read()
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[1]
    rows.append((m["property"], i, m["needs"].replace("|", "/").replace("\n", " ")))
rows.sort()
s = open("DESIGN.md").read()
k = s.find("\n## 5.")
if k >= 0: s = s[:k + 1]
else: s = s.rstrip("\n") + "\n\n"
s += HEAD.replace("COUNT", str(len(rows))) + "\n| check | change | needs |\n|---|---|---|\n" + "".join(f"| {a} | {b} | {c} |\n" for a, b, c in rows)
open("DESIGN.md", "w").write(s)
