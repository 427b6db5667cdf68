#!/usr/bin/env python3
"""Prints the classes recorded in the evidence files."""
import json
import sys
for p in sys.argv[1:]:
    d = json.load(open("evidence/%s.json" % p))
    for k, v in d["coverage"]["parts"].items():
        print(k, {x: v[x] for x in v if x != "classes"})
        print("   ", {a: (b["cases"], b["total"]) for a, b in v["classes"].items()})
