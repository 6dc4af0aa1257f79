#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json and tools/seeded_notes.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, "tools", "seeded_notes.json")))
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    n = notes.get(i, {})
    rows.append(f"| {i} | {m['what_it_breaks']} | {n.get('facet', m['property'])} | {n.get('missed', '')} |")
sec = """## 6. Planted bugs

Written from the text of a property and the code, validated in a worktree (builds, passes the
stable tests, demonstration fails), kept in `/verif/seeded`. "Caught by" names the
facet(s) of the quick check of its property. The last column says what was added when the check first
missed it (empty: caught at once).

| bug | what it breaks | caught by | first missed; added |
|-----|----------------|-----------|---------------------|
""" + "\n".join(rows) + "\n\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
if "@SEEDED@" in s:
    s = s.replace("@SEEDED@\n\n", sec)
else:
    s = re.sub(r"## 6\. Planted bugs.*?(?=## 7\.)", lambda m: sec, s, flags=re.S)
open(p, "w").write(s)
