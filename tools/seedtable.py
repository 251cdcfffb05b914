#!/usr/bin/env python3
"""The table of planted bugs at the end of DESIGN.md, from a log of `ID CAUGHT|MISSED ...` lines."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (CAUGHT|MISSED)(?: rc=\d+)? (.*)", l)
        if m:
            c = re.search(r'\\"?(C\d\d: [^\\"]*)', m.group(3))
            log[m.group(1)] = (m.group(2), c.group(1) if c else "")
out = ["## 7. Planted bugs", "", "Every bug of `seeded/` with the check of its property and what that check reports first (quick tier).", "",
       "| planted bug | needs | reported by |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    r = log.get(i, ("?", ""))
    out.append("| %s | %s | %s %s |" % (i, m["needs"].replace("|", "/"), m["property"] if r[0] == "CAUGHT" else "**not reported**", r[1][5:60]))
p = V + "/DESIGN.md"
s = open(p).read().split("## 7. Planted bugs")[0].rstrip() + "\n\n" + "\n".join(out) + "\n"
open(p, "w").write(s)
