#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from
seeded/*/meta.json and the lines of `tools/seeded.sh own` given on stdin."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in sys.stdin:
    m = re.match(r"(\S+) \[(P\d+)\] caught by: ?(.*)", l)
    if m: got[m[1]] = m[3].strip()
rows = ["| planted bug | needs | caught by (own check) |", "|---|---|---|"]
for b in sorted(os.listdir(f"{root}/seeded")):
    j = json.load(open(f"{root}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {j['needs'].replace('|','/')} | {got.get(b,'?')} |")
p = f"{root}/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE", t)
else: s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
