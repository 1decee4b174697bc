#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md.
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
t = open("DESIGN.md").read()
h = "| bug | property | breaks | needs |\n|---|---|---|---|\n"
t = t[: t.index(h)] + h
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    t += "| %s | %s | %s | %s |\n" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
open("DESIGN.md", "w").write(t)
