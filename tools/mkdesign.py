"""Brings the table of planted bugs in DESIGN.md up to date from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
# Property checks that found each, as measured (quick tier, seed 1) by tools/measure.py
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
rows = ["<!-- planted -->", "| planted bug | breaks | caught by | effect |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (
        name, m["property"], caught.get(name, "not measured"), m["what_it_breaks"]))
rows.append("<!-- /planted -->")
table = "\n".join(rows)
if "SEEDTABLE" in text: text = text.replace("SEEDTABLE", table)
else: text = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: table, text, flags=re.S)
open(path, "w").write(text)
