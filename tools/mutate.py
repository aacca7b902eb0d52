"""Apply each planted bug of a list to a scratch copy of /repo, run its stable tests there and the checks against it.
usage: mutate.py module [ids or properties...]   (prints: id, tests, property: caught/missed)"""
import importlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def prepare(mid, f, old, new):
    d = "/tmp/mut/%s" % mid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    p = d + "/repo/highway_env/" + f
    s = open(p).read()
    if s.count(old) != 1:
        return None, "old text found %d times" % s.count(old)
    open(p, "w").write(s.replace(old, new))
    return d, None


def tests(d):
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH=d + "/repo", SDL_VIDEODRIVER="dummy", PYTHONDONTWRITEBYTECODE="1"), timeout=600)
    t = r.stdout.decode()
    return t.strip().splitlines()[-1]


def check(d, prop, extra=""):
    r = subprocess.run(["/opt/venv/bin/python", "run.py", prop], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, HM_REPO=d + "/repo", HM_NO_EVIDENCE="1", HM_JOBS="4"), timeout=900)
    out = r.stdout.decode()
    mech = sorted({l.strip().split(" unit=")[0] for l in out.splitlines() if "mechanism=" in l})
    return r.returncode, mech


def one(m):
    mid, prop, f, old, new = m
    d, err = prepare(mid, f, old, new)
    if err:
        return "%-8s ERROR %s" % (mid, err)
    t = tests(d)
    res = []
    for p in prop.split(","):
        rc, mech = check(d, p)
        res.append("%s rc=%d %s" % (p, rc, " ".join(x.replace("mechanism=", "") for x in mech)[:110]))
    shutil.rmtree(d, ignore_errors=True)
    return "%-8s %s | tests: %s | %s" % (mid, "CAUGHT" if any("rc=1" in r for r in res) else "missed", t[-60:], "; ".join(res))


if __name__ == "__main__":
    mod = importlib.import_module(sys.argv[1])
    sel = sys.argv[2:]
    ms = [m for m in mod.M if not sel or m[0] in sel or any(p in sel for p in m[1].split(","))]
    with ThreadPoolExecutor(3) as ex:
        for line in ex.map(one, ms):
            print(line, flush=True)
