#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md (a development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    print("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
