#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between markers) from properties.jsonl, checks.json and seeded/."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(os.path.join(here, "harness", "checks.json")))
rows = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    c = checks[p["id"]]
    rows.append("### %s %s\n\nMethod: %s.\nCases: %s\nOracle and strength: %s%s\n" % (
        p["id"], p["title"], c["technique"], c["rule"], c["note"].strip(),
        "\nAssumes: " + "; ".join(c["assumptions"]) + "." if c["assumptions"] else ""))
table = "<!-- properties -->\n" + "\n".join(rows) + "<!-- /properties -->"
seeded = ["<!-- seeded -->", "## Planted bugs", "",
          "Each was written from the property's text and the code, in a scratch copy; `caught` tells what the",
          "quick checks did with it (and, where a check had to be strengthened for it, how).", ""]
res = {}
rp = os.path.join(here, "seeded-results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
sd = os.path.join(here, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeded.append("* `%s` (%s): %s Needs: %s **%s**" % (
        d, m["property"], m["what_it_breaks"], m["needs"], res.get(d, "not run yet")))
seeded.append("<!-- /seeded -->")
path = os.path.join(here, "DESIGN.md")
s = open(path).read()
for mark, tag, body in (("@@TABLE@@", "properties", table), ("@@SEEDED@@", "seeded", "\n".join(seeded))):
    if mark in s:
        s = s.replace(mark, body)
    else:
        s = re.sub("<!-- %s -->.*<!-- /%s -->" % (tag, tag), lambda _: body, s, flags=re.S)
open(path, "w").write(s)
