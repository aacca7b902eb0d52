#!/bin/bash
# tools/fixcommit.sh ID[,ID] "what failed" "fix: message": run the repository's tests, commit in /repo, record in known_findings.json
set -e
cd /repo
bash /opt/vp/test.sh /tmp/fix_out.json >/tmp/fix_log 2>&1 || true
/opt/venv/bin/python - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/fix_out.json'))['passed']
miss=set(b)-set(o)
print('missing', miss); sys.exit(bool(miss))
P
git add -A highway_env && git commit -qm "$3" && git log --oneline | head -1
python3 /verif/tools/addfix.py "$1" $(git rev-parse --short HEAD) "$2"
