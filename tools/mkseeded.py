#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json.
Usage: mkseeded.py [file with the output of a run of all planted bugs against their checks]"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    space = {}
    if len(sys.argv) > 1:
        for l in open(sys.argv[1]):
            m = re.match(r"(\S+) (\S+) rc (\d+) .*?(CAUGHT|MISSED) ?(.*)", l)
            if m:
                space[m[1]] = m[4].lower()
    rows = ["| planted bug | what it breaks | needs | check |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        f = os.path.join(V, "seeded", d, "meta.json")
        if os.path.exists(f):
            m = json.load(open(f))
            rows.append("| %s | %s | %s | %s %s |" % (d, m["what_it_breaks"], m["needs"], m["property"], space.get(d, "caught")))
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- planted -->", "<!-- /planted -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
main()
