"""Rewrite the seeded-bug table at the end of DESIGN.md.

usage: python3 tools/seedtable.py RESULTS   (the output of tools/seeds.py)
"""
import json
import pathlib
import re
import sys

V = pathlib.Path(__file__).resolve().parent.parent
MARK = "<!-- seeded table -->\n"

res = {}
for line in open(sys.argv[1]):
  w = line.split()
  if len(w) > 1 and w[0] in ("caught", "MISSED", "missed"):
    res[w[1]] = w[0].lower()
rows = [MARK, "| change | needs | decided by |\n", "| --- | --- | --- |\n"]
for d in sorted((V / "seeded").iterdir()):
  m = json.loads((d / "meta.json").read_text())
  r = res.get(d.name, "not run")
  rows.append("| %s | %s | %s |\n" % (
      d.name, re.sub(r"\s+", " ", m["needs"]).replace("|", "/"),
      m["property"] if r == "caught" else f"**{r}** ({m['property']})"))
p = V / "DESIGN.md"
text = p.read_text()
p.write_text(text.split(MARK)[0] + "".join(rows))
