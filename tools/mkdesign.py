#!/usr/bin/env python3
"""mkdesign.py > DESIGN.md: the text of design_head.md, the findings and the table of planted bugs"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print(open(os.path.join(V, "tools/design_head.md")).read())
print("## Findings\n\nEach was shown against the real code by a generated case, and is repaired by one `fix:` commit in `/repo` "
      "(`known_findings.txt`). None is left unrepaired.\n")
for line in open(os.path.join(V, "known_findings.txt")):
    if line.startswith("fixed:"):
        _, prop, commit, what = line.split(None, 3)
        print(f"- {prop.split('=')[1]} ({commit}): {what.strip()}")
print("\n## Planted bugs\n\nEvery one applies to HEAD, compiles, passes the 264 tests and is shown by its `demo.sh`. All are reported by the quick check of "
      "the property given (seed 1), with a shrunk replay.\n\n| id | caught by | needs |\n|----|-----------|-------|")
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d))
    needs = m["needs"].replace("|", "/").replace("\n", " ")
    print(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {needs} |")
tail = os.path.join(V, "tools/design_tail.md")
if os.path.exists(tail):
    print("\n" + open(tail).read(), end="")
