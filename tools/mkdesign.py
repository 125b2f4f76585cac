#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, known-findings.txt and seeded/."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(root + "/tools/design.md").read()
fixes = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(root + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixes.append("| %s | `%s` | %s |" % tuple(x.replace("|", "\\|") for x in m.groups()))
try:
    caught = json.load(open(root + "/tools/seeds/caught.json"))
except OSError:
    caught = {}
seeds = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d, i = json.load(open(f)), f.split("/")[-2]
    seeds.append("| %s | %s | %s | %s |" % (i, d["what_it_breaks"], d["needs"], caught.get(i, "-")))
text = text.replace("@FIXES@", "\n".join(fixes)).replace("@SEEDS@", "\n".join(seeds))
open(root + "/DESIGN.md", "w").write(text)
