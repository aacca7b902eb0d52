"""Build the planted bugs of seeds_src.py into /verif/seeded/<id>/ and confirm each one.
usage: seed.py [ids or properties...]      (no argument: those not built yet)
For each: the changed lines are original ones, the stable tests pass with it, the demonstration passes without and fails with it; then says whether the check catches it."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from mutate import check  # noqa
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
HEADER = '''import os
import sys
import copy
import warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ["SDL_VIDEODRIVER"] = "offscreen"
os.environ["PYGAME_HIDE_SUPPORT_PROMPT"] = "1"
warnings.simplefilter("ignore")
import numpy as np


def check(condition, message=""):
    if not condition:
        print("FAILED:", message)
        sys.exit(1)


'''
RESULTS = {}
SH = '''#!/bin/bash
# run from the repository's top directory
PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py" 2>/dev/null
'''


def sh(cmd, cwd, **env):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env), timeout=900)
    return r.returncode, r.stdout.decode()


def original():
    """The pinned commit: the parent of my first one."""
    log = sh(["git", "log", "--reverse", "--format=%H %s"], "/repo")[1].splitlines()
    first = next(i for i, l in enumerate(log) if l.split(" ", 1)[1].startswith("fix:"))
    return log[first - 1].split()[0]


def blame(files):
    """The changed lines of each hunk must be the original repository's."""
    base = original()
    bad = []
    for f, olds in files.items():
        out = sh(["git", "blame", "-s", "-l", "%s..HEAD" % base, "--", f], "/repo")[1].splitlines()
        text = open("/repo/" + f).read()
        for old, new in olds:
            line = text[:text.index(old)].count("\n")
            o, n = old.split("\n"), new.split("\n")
            for k, l in enumerate(o):
                if l not in n and not out[line + k].startswith("^"):
                    bad.append((f, line + k + 1))
    return bad


def one(s):
    sid, prop, edits, needs, breaks, demo = s
    d = "/tmp/seed/%s" % sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    try:
        files = {}
        for f, old, new in edits:
            f = "highway_env/" + f
            t = open(d + "/repo/" + f).read()
            if t.count(old) != 1:
                return "%-26s ERROR old text found %d times in %s: %r" % (sid, t.count(old), f, old[:60])
            open(d + "/repo/" + f, "w").write(t.replace(old, new))
            files.setdefault(f, []).append((old, new))
        bad = blame(files)
        diff = subprocess.run(["git", "diff"], cwd=d + "/repo", stdout=subprocess.PIPE, check=True).stdout.decode()
        out = os.path.join(V, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(HEADER + demo.strip("\n") + "\n\nprint(\"passed\")\n")
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop.split(",")[0], "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        clean = sh(["bash", out + "/demo.sh"], "/repo")
        broken = sh(["bash", out + "/demo.sh"], d + "/repo")
        rc, tests = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=tests/envs/test_time.py", "tests"], d + "/repo", PYTHONPATH=d + "/repo", SDL_VIDEODRIVER="dummy")
        res = []
        for p in prop.split(","):
            c, mech = check(d, p)
            res.append("%s rc=%d %s" % (p, c, " ".join(x.replace("mechanism=", "") for x in mech)[:90]))
        RESULTS[sid] = dict(property=prop, needs=needs, results=res)
        good = clean[0] == 0 and broken[0] != 0 and not bad and rc == 0
        note = "" if good else " clean=%s broken=%s blame=%s" % (clean if clean[0] else 0, broken[0], bad)
        return "%-26s %s %s | tests: %s | %s%s" % (sid, "ok " if good else "BAD", "CAUGHT" if any("rc=1" in r for r in res[:1]) else "missed", tests.strip().splitlines()[-1][:40], "; ".join(res), note)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    import seeds_src
    sel = sys.argv[1:]
    todo = [s for s in seeds_src.ALL if (s[0] in sel or s[1] in sel or any(s[0].startswith(x) for x in sel)) or (not sel and not os.path.exists(os.path.join(V, "seeded", s[0], "patch.diff")))]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, todo):
            print(r, flush=True)
    f = os.path.join(V, "tools", "seed_results.json")
    old = json.load(open(f)) if os.path.exists(f) else {}
    old.update(RESULTS)
    json.dump({k: old[k] for k in sorted(old) if any(k == x[0] for x in seeds_src.ALL)}, open(f, "w"), indent=1)
