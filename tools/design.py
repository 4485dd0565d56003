#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design/*.md, known_findings.txt and seeded/*/."""
import os, json, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
import sys; sys.path.insert(0, here)
from props import PROPS, NA
out = [open(here + "/design/00_head.md").read()]
for l in open(root + "/known_findings.txt"):
    l = l.strip()
    if l:
        out.append("* `%s`\n" % l.replace("`", "'"))
out.append("\n# Properties\n\n")
for p in PROPS:
    f = here + "/design/%s.md" % p["id"]
    out.append(open(f).read() + "\n")
out.append("# Not applicable\n\n")
for p in NA:
    out.append("* **%s** %s: %s\n" % (p["id"], p["title"], p["reason"]))
out.append("\n# Planted bugs and what catches them\n\n| seed | property | needs | caught by |\n|---|---|---|---|\n")
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s |\n" % (n, d["property"], d["needs"], d.get("caught_by", d["property"])))
out.append("\n" + open(here + "/design/99_tail.md").read())
open(root + "/DESIGN.md", "w").write("".join(out))
