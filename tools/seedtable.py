#!/usr/bin/env python3
"""prints the DESIGN.md table of planted bugs from seeded/*/meta.json"""
import json, os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| planted bug | caught by | needs |\n|---|---|---|")
for i in sorted(os.listdir(H)):
    m = json.load(open(os.path.join(H, i, "meta.json")))
    print("| `%s` | %s | %s |" % (i, m["property"], m["needs"]))
