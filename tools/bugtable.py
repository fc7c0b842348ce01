#!/usr/bin/env python3
"""bugtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = []
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append((m["property"], os.path.basename(d[:-1]), m["needs"].replace("|", "/")))
rows.sort()
t = "| change | needs | caught by |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (b, c, a) for a, b, c in rows) + "\n"
s = open("DESIGN.md").read()
i = s.index("| change | needs | caught by |")
j = s.index("## False alarms of the harness")
open("DESIGN.md", "w").write(s[:i] + t + s[j:])
print(len(rows))
