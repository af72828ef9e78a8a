#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "<!-- seeds -->\n| planted change | caught by | needs | breaks |\n|---|---|---|---|\n"
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    t += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(p)), m.get("caught_by", m["property"]), m["needs"], m["what_it_breaks"])
t += "<!-- /seeds -->"
d = open(V + "/DESIGN.md").read()
d = d.replace("SEEDTABLE", t) if "SEEDTABLE" in d else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
