#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| Bug | Caught by | What it breaks | Needs |\n|---|---|---|---|")
for d in sorted(glob.glob(here + "/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    print("| %s | %s | %s | %s |" % (i, m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
