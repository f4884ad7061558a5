#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/design_*.md and the planted bugs' meta.json (+ tools/seed_results.json)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = f"{here}/tools/seed_results.json"
if os.path.exists(p): res = json.load(open(p))
out = "".join(open(f"{here}/tools/design_{x}.md").read() + "\n" for x in ("head", "props", "tail"))
out += "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(f"{here}/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    out += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not run')} |\n"
open(f"{here}/DESIGN.md", "w").write(out)
