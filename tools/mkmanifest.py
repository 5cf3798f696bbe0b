"""Writes MANIFEST.json from the property modules."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim.props import PROPS
PY = "/opt/venv/bin/python"
NA = {
    "C90": "pure function of one input point: no schedule, time, I/O, history or fault for a simulator to decide (history and thread independence of the same functions is C18)",
    "C91": "pure function of a point, bounds and an explicit generator: nothing to schedule or fail (its effect inside runs is decided by C06 and C07)",
    "C92": "pure function of the argument vector: no concurrency, time, I/O or multi-party behaviour",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "%s check.py run %s --tier quick" % (PY, i),
            "thorough_cmd": "%s check.py run %s --tier thorough" % (PY, i),
            "technique": p.TECHNIQUE,
            "level": p.LEVEL,
            "level_note": p.NOTE,
        })
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS]
doc = {"version": 1, "setup_cmd": PY + " check.py list", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every seam used (algorithm.rng, user objective / callbacks / repair, numpy's entropy source, builtins.open / os / datetime as seen by the runner, thread scheduling through sys.monitoring) exists without changing the repository. Replay a violation: %s check.py replay <file>. Known findings and fixed defects: known_findings.json." % PY}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
