"""The design models must reject flawed designs: runs each model with a flaw and expects a violation."""
import os, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import tlc
CASES = [("PhaseModel", "INIT Init\nNEXT Next\nCONSTANT NP = 3\nCONSTANT NStates = 1\nCONSTANT MaxRounds = 1\nCONSTANT MaxKrylov = 2\n"
          "CONSTANT Flaw = \"%s\"\nINVARIANT Good\n" % f) for f in ("exhaust", "nowork", "skip")]
work = tempfile.mkdtemp(prefix="flaws-")
j = tlc.java_overrides(work)
for m, cfg in CASES:
    r = tlc.Run(work, j, m, cfg, workers=4, timeout=600)
    r.wait()
    print(m, [l for l in cfg.split("\n") if "Flaw" in l], "violated:", r.violated, r.errors[:1], r.distinct)
