"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m.get("caught_by", m["property"]), m["needs"], m["what_it_breaks"]))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"(<!-- table -->\n).*?(<!-- /table -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
