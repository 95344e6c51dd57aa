"""Refreshes the table of planted bugs in DESIGN.md (run by hand)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"]))
t = open(H + "/DESIGN.md").read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("SEEDTABLE", new) if "SEEDTABLE" in t else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: new, t, flags=re.S)
open(H + "/DESIGN.md", "w").write(t)
