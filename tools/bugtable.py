#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md: what each needs, and the checks known to report it (out of tools/seed/caught.txt)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
try:
    for l in open(V + "/tools/seed/caught.txt"):
        i, *c = l.split()
        caught[i] = c
except OSError:
    pass
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    print(f"| {i} | {m['property']} | {m['needs']} | {', '.join(caught.get(i, [])) or '-'} |")
