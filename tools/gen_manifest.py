"""writes MANIFEST.json from the checks present"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
TECH = ("symbolic execution of the real Python/PyTorch code (torch dispatch interpreter over exact polynomial terms, instances regenerated "
        "from /repo on every run), negated property decided by z3 (QF_LRA with case splits), counterexamples replayed on the real code")
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python check.py %s quick" % i,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s thorough" % i, "technique": TECH, "level": "other",
                       "level_note": "bounded: solver verdict for all inputs/parameters in the box, for the listed configurations; see DESIGN.md and evidence"})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from symx import env; env.boot()\"",
           "checks": checks, "not_applicable": na, "notes": "no hooks in /repo; see DESIGN.md"}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
