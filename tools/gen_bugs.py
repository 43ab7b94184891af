#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# bugs not caught by the check of their property: id -> what caught it instead
OTHER = json.load(open(os.path.join(root, "tools", "bugs_caught.json")))
rows = []
sd = os.path.join(root, "seeded")
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    c = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
    rows.append(f"| {i} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {OTHER.get(i, m['property'])} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = s[: s.index("<!-- BUGS -->")]
open(p, "w").write(head + "<!-- BUGS -->\n| bug | breaks | needs | caught by |\n|-|-|-|-|\n" + "\n".join(rows) + "\n")
print(len(rows), "bugs")
