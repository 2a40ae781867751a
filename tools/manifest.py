"""Writes MANIFEST.json from the harness registry:  PYTHONPATH=. python3-vt tools/manifest.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ["VP_LTREE"] = "1"
from vp import boot  # noqa: E402

boot.boot("sym", ltree=True)
from vp import harness  # noqa: E402

harness.load()
NA = {}
na_file = os.path.join(HERE, "tools", "not_applicable.json")
if os.path.exists(na_file):
    NA = json.load(open(na_file))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
TRUST = ("Trusts z3, the symbolic interpreter in vp/ (instrumented treebeard source; Django's own ORM code runs unmodified down to "
         "the SQL compiler, which is replaced by a symbolic relational evaluator), and the sampled agreement of that evaluator "
         "with the real database: a random sample of explored paths is re-run on uninstrumented treebeard and {db} on every run and must agree "
         "exactly. Every counterexample is replayed there before it is reported.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in harness.JOBS and i not in NA:
        m = harness.META[i]
        db = "PostgreSQL" if m["db"] == "pg" else "SQLite"
        cmd = f"PYTHONHASHSEED=0 python3-vt -m vp.check {i} --tier "
        checks.append({
            "property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "bounded symbolic execution of the real source (SMT, z3), counterexamples replayed on the real database",
            "level": "model_checking",
            "level_note": "Every behaviour within the bounds is decided by the solver. Bounds: " + m["bounds"] + ". " + TRUST.format(db=db),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
out = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import django'", "checks": checks,
       "not_applicable": na,
       "notes": "No hooks in /repo. See DESIGN.md for the method and its limits, known_findings.json for findings and repairs."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed:", " ".join(x["property"] for x in na))
