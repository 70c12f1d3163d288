"""Rewrites the table of seeded changes in DESIGN.md (between its two rules)."""
import collections
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(ROOT, "tools", "missed.txt")).read().split())
by = collections.defaultdict(list)
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    by[m["property"]].append(d + ("*" if d in MISSED else ""))
rows = "".join(f"| {p} | {', '.join(by[p])} |\n" for p in sorted(by))
path = os.path.join(ROOT, "DESIGN.md")
t = open(path).read()
t = re.sub(r"(\| by check \| seeded changes \|\n\|-+\|-+\|\n)(?:\|.*\n|SEEDED_TABLE\n)*",
           lambda m: m.group(1) + rows, t)
open(path, "w").write(t)
