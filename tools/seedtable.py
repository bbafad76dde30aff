"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LED = json.load(open(os.path.join(R, "tools", "missed.json")))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    star = "* (%s)" % LED[d] if d in LED else ""
    rows.append("| %s%s | %s | %s | %s |" % (d, star, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
f = os.path.join(R, "DESIGN.md")
s = open(f).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(f, "w").write(s)
