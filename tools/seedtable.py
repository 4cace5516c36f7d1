"""Rewrites the table of planted bugs at the end of DESIGN.md"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs"
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read().split(MARK)[0].rstrip()
rows = []
for sid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))
    rows.append(f"| {sid} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
text += f"""

{MARK}

Each is confirmed with `tools/seed.sh ID` (demonstration passes on the unchanged tree and fails with the patch, the stable tests
pass, the check of the property reports it). All of them are caught by the check of their property. Checks that had to be
strengthened first: C01 for s43 (statements expired only just now), C14 for s21 (histories with two anchors), C18 for s32, C22 for s34 (registration in the histories), C23 for s46 (odd status answers),
C24 for s41 (several requests by one client), C25 for s39 (asking again after all has expired).

| id | property | breaks | needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(path, "w").write(text)
