#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
notes = {}
p = os.path.join(here, "tools", "seednotes.json")
if os.path.exists(p):
    notes = json.load(open(p))
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (
        b, m["property"], m["needs"], m["what_it_breaks"],
        notes.get(b, m["property"])))
f = here + "/DESIGN.md"
s = open(f).read()
a = s.index("## Planted bugs")
end = "## Planted bugs (`seeded/`)\n\n" \
    "Each one passes the test suite and its demo fails with it only; the last\n" \
    "column is the check that reports it (quick tier, VERIF_SEED=1).\n\n"
open(f, "w").write(s[:a] + end + "\n".join(rows) + "\n")
