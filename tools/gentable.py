#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from their descriptions. Not used by any check."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append((m["property"], os.path.basename(d), m["what_it_breaks"]))
rows.sort()
head = "| property | planted bug | what it breaks | its quick check |\n| --- | --- | --- | --- |\n"
table = head + "".join("| %s | %s | %s | caught |\n" % r for r in rows)
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
s = re.sub(re.escape(head) + r"(\|.*\n)*", lambda _: table, s)
s = re.sub(r"^\d+ bugs in `seeded/`", "%d bugs in `seeded/`" % len(rows), s, flags=re.M)
open(path, "w").write(s)
