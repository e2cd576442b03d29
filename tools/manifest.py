"""Write MANIFEST.json from what vlib.check offers."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import check as K
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p in K.CHECKS:
        t, n = K.DESCR.get(p, K.DESCR["*"])
        checks.append({"property": p, "quick_cmd": f"python3 run.py check {p} --tier quick",
                       "thorough_cmd": f"python3 run.py check {p} --tier thorough",
                       "technique": t, "level": K.LEVELS[p], "level_note": n})
na = [{"property": p, "reason": "the specification will cover it; its check is not registered yet"}
      for p in ids if p not in K.CHECKS]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: hooq is used through its public macros."}, f, indent=1)
    f.write("\n")
