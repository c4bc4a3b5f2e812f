"""Prints the table of seeded changes for DESIGN.md (from seeded/*/meta.json and tools/caught.json)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
print("| seed | property | needs | caught by (clause) |\n|---|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    c = caught.get(i, {})
    needs = " ".join(m["needs"].split()).replace("|", "/")
    print("| %s | %s | %s | %s |" % (i, m["property"], needs if len(needs) < 150 else needs[:147] + "...", "%s: %s" % (m["property"], c.get("clause")) if c.get("caught") else "not caught"))
