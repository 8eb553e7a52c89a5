#!/usr/bin/env python3
"""Lines for the table of planted bugs in DESIGN.md: seedtable.py results.txt (lines 'ID PROP rc=N # clause')."""
import json, os, re, sys
T = "/verif/DESIGN.md"
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d+) rc=(\d) ?(.*)", l)
    if m:
        res.setdefault(m.group(1), []).append((m.group(2), m.group(3), m.group(4)))
t = open(T).read()
head, tail = t.split("| bug | property | caught by |\n|---|---|---|\n")
rest = tail.split("\n\n", 1)
rows = dict((r.split("|")[1].strip(), r) for r in rest[0].splitlines() if r.startswith("|"))
for i, rs in res.items():
    p = json.load(open("/verif/seeded/%s/meta.json" % i))["property"]
    c = [a for a, rc, _ in rs if rc == "1"]
    rows[i] = "| %s | %s | %s |" % (i, p, ", ".join(c) if c else "missed")
rows = {k: v for k, v in rows.items() if os.path.isdir("/verif/seeded/" + k)}
open(T, "w").write(head + "| bug | property | caught by |\n|---|---|---|\n" + "\n".join(rows[k] for k in sorted(rows)) +
                   "\n" + ("\n" + rest[1] if len(rest) > 1 and rest[1].strip() else ""))
