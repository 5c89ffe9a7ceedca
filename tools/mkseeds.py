#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("* `%s` (%s%s): %s — needs %s" % (os.path.basename(os.path.dirname(m)), d["property"], d.get("also") and ", also " + d["also"] or "",
                                               d["what_it_breaks"], d["needs"]))
p = here + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"(Every one is caught by the check named[^\n]*:\n\n).*?(?=\n## |\Z)", lambda k: k.group(1) + "\n".join(rows) + "\n", t, flags=re.S)
open(p, "w").write(t)
