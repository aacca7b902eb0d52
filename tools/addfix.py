"""tools/addfix.py ID[,ID] COMMIT WHAT: record a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
for i in sys.argv[1].split(","):
    d["fixed"].append("fixed: property=%s %s %s" % (i, sys.argv[2], sys.argv[3]))
json.dump(d, open(p, "w"), indent=1)
