#!/usr/bin/env python3
# Assembles /verif/DESIGN.md; the table of planted bugs comes from seeded/ and tools/caught.json (written by tools/mkseed.py --check).
import json, os, glob
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
try: caught = json.load(open(T + "/caught.json"))
except OSError: caught = {}
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '?')} |")
R = lambda n: open(f"{T}/{n}").read()
mut = R("design_mutation.md") if os.path.exists(T + "/design_mutation.md") else "(running)"
open(V + "/DESIGN.md", "w").write(R("design_head.md") + R("design_props.md") + R("design_tail.md").replace("SEEDTABLE", "\n".join(rows)).replace("MUTATION", mut))
