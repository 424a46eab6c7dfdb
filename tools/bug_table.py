#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = collections.defaultdict(list)
for m in glob.glob(V + "/seeded/*/meta.json"):
    c[json.load(open(m))["property"]].append(int(re.match(r"b(\d+)", os.path.basename(os.path.dirname(m))).group(1)))
rows = "".join("| %s | %s |\n" % (p, ", ".join("b%02d" % b for b in sorted(c[p]))) for p in sorted(c))
s = open(V + "/DESIGN.md").read()
s, n = re.subn(r"(\| check \| planted bugs it catches \|\n\|---\|---\|\n)(?:\|.*\n)*", lambda m: m.group(1) + rows, s)
assert n == 1
open(V + "/DESIGN.md", "w").write(s)
