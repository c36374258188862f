#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted bugs from seeded/*/meta.json and a log of `seeds.py try`."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d+) \{.*'check': '(\w+)'", l)
    if m:
        res[m.group(1)] = m.group(3)
print("| planted bug | property | what it breaks | needs | its check |\n|---|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    print("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], res.get(d, "?")))
