#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md section 7."""
import json, glob, os
r = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| id | property | needs | breaks |\n|---|---|---|---|")
for m in sorted(glob.glob(r + "/*/meta.json")):
    j = json.load(open(m))
    print("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"], j["what_it_breaks"]))
