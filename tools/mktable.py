#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read().split("## Planted bugs, one by one")[0].rstrip() + "\n\n## Planted bugs, one by one\n\n"
s += "Each was confirmed in a scratch copy (builds, passes the 254 tests, its demonstration fails) and is reported by the\nquick check of its own property (and often by others).\n\n| id | what breaks | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    s += "| %s | %s | %s |\n" % (f.split("/")[-2], d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"))
open(p, "w").write(s)
