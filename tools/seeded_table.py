#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
missed = {"b04-limit-width", "b11-insert-chunks", "b12-upsert-own-txn", "b14-not-and", "b20-oid"}
extra = os.path.join(os.path.dirname(__file__), "missed.txt")
if os.path.exists(extra):
    missed |= set(open(extra).read().split())
rows = ["| bug | caught by | what it breaks | needs |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    c = m.get("caught_by", m["property"])
    rows.append(f"| {i}{' *' if i in missed else ''} | {c} | {m['what_it_breaks']} | {m['needs']} |")
p = "/verif/DESIGN.md"
s = open(p).read()
a, b = "<!-- table of planted bugs -->", "<!-- end of table -->"
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE", a + "\n" + b)
s = s[:s.index(a)] + a + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
