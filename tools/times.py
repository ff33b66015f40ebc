#!/usr/bin/env python3
"""prints time and counts per harness of the last run of a property"""
import json, sys
d = json.load(open("evidence/%s.json" % sys.argv[1]))
for h in sorted(d["coverage"]["harnesses"], key=lambda h: -h["wall_s"]):
    print("%-28s %7.1fs paths %6d queries %6d asserts %4d solver %6.1fs %s" % (h["harness"], h["wall_s"], h["paths"], h["queries"], h["distinct_assertions"], h["solver_s"], h["numbers"]))
