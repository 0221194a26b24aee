"""Rewrites the table of planted bugs in DESIGN.md (seeded/ is only there while developing)."""
import json
import os

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = os.path.join(top, "seeded")
rows = ["| planted bug | needs | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    one = lambda s: s.replace("\n", " ").replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (d, one(m["needs"]), one(m["what_it_breaks"]), m["property"]))
path = os.path.join(top, "DESIGN.md")
text = open(path).read()
mark = "<!-- table -->\n"
open(path, "w").write(text[:text.index(mark) + len(mark)] + "\n" + "\n".join(rows) + "\n")
