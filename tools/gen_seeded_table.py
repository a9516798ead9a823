#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
# The last column is what seeded/*/meta.json's property check said when it was run
# against the change (quick tier, VERIF_SEED=1), kept in tools/caught.json.
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + "/tools/caught.json"))
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    id = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (id, d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), caught.get(id, "not run")))
start, end = "<!-- planted bugs -->", "<!-- end of planted bugs -->"
text = open(root + "/DESIGN.md").read()
if start not in text:
    text += "\n## Planted bugs\n\n" + start + "\n" + end + "\n"
head, rest = text.split(start)
tail = rest.split(end)[1]
table = "\n| change | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(root + "/DESIGN.md", "w").write(head + start + table + end + tail)
print(len(rows))
