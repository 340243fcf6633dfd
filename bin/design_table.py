#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it breaks |", "|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| `%s` | %s; needs %s |" % (os.path.basename(d), m["what_it_breaks"], m["needs"]))
p = here + "/DESIGN.md"
s = open(p).read()
open(p, "w").write(re.sub(r"(?s)<!-- seeded -->.*<!-- end -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- end -->", s))
