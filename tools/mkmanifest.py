"""Writes MANIFEST.json: one check per property that props.py implements."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; recorded executions of the real code validated against it"
NOTE = ("Conformance of every explored execution of the real code with the TLA+ specification, plus TLC model checking of "
        "the specification's own properties within the bounds in DESIGN.md; hash functions are trusted (JDK SHA-256) and "
        "ideal in design-level models. ")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = getattr(props, "LEVEL_NOTES", {})
checks, na = [], []
for i in ids:
    if hasattr(props, i):
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking",
                       "level_note": NOTE + NOTES.get(i, "")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+ (TLC). No hooks in /repo are needed: everything is observed through the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
