"""Writes MANIFEST.json from the list of implemented checks."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
notes = os.path.join(V, "tools", "notes.json")
if os.path.exists(notes):
    NOTE = json.load(open(notes))
DEF = ("TLC checks the TLA+ model of this property exhaustively within small constants; the real code is bound to the "
       "specification by scenarios generated from it and by recorded runs that TLC judges against the specification's own "
       "definitions. Exploration of inputs of the real code is bounded and partly random (seeded). Trusted: TLC, the "
       "Json/IOUtils modules, the recorder that encodes values.")
checks = []
for p in props:
    if os.path.exists(os.path.join(V, "harness", "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "TLA+ specification checked with TLC; conformance by replaying spec-generated scenarios and judging recorded traces with TLC",
                       "level": "model_checking", "level_note": NOTE.get(p, DEF)})
have = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none", "enable": "No hooks were added to /repo; the checks import the working tree directly.", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in have],
     "notes": "Pure Python under test: nothing has to be built, every check imports /repo's working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
