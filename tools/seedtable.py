#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c02-stop-at-inactive": "histories with a client that has an active and an inactive device",
    "c07-half-restored": "console checks under failing terminal requests, setting by setting",
    "c08-session-by-count": "a history in which the oldest of three leaves",
    "c09-batched-flush": "requests glued to the first bytes of the next one",
}
try:
    MISSED.update(json.load(open(v + "/tools/seeds/missed.json")))
except OSError:
    pass
d = open(v + "/DESIGN.md").read()
i = d.find("| bug |")
if i >= 0:
    d = d[:i]
rows = ["| bug | property | what it needs | first missed: closed by |", "|---|---|---|---|"]
for p in sorted(glob.glob(v + "/seeded/*/meta.json")):
    m = json.load(open(p))
    n = os.path.basename(os.path.dirname(p))
    rows.append("| %s%s | %s | %s | %s |" % (n, "*" if n in MISSED else "", m["property"], m["needs"].replace("|", "/"), MISSED.get(n, "")))
open(v + "/DESIGN.md", "w").write(d.rstrip("\n") + "\n\n" + "\n".join(rows) + "\n")
