"""tools/addfinding.py ID MECHANISM UNIT WHAT: record an open finding in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
e = dict(property=sys.argv[1], mechanism=sys.argv[2], status="open", what=sys.argv[4])
if sys.argv[3]:
    e["unit"] = sys.argv[3]
d["findings"].append(e)
json.dump(d, open(p, "w"), indent=1)
