#!/usr/bin/env python3
"""puts the table of planted bugs into DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted bug | caught by | what it breaks |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} |")
rows.append("<!-- /seeds -->")
s = open(V + "/DESIGN.md").read()
t = "\n".join(rows)
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows) - 4, "seeds")
