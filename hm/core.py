"""Runtime-monitoring framework: units of workload, monitors, verdicts, evidence.

A check is a module hm/checks/<id>.py with
  RULE      how cases are made and what makes one non-trivial
  REQUIRED  {counter: minimum}: deciding monitors that must have observed something
  units(tier) -> list of (name, function, kwargs): every unit runs in its own forked process with its own
              random generator; function(ctx, **kwargs) drives the real code and reports what the oracles saw.

Verdicts are three-valued: 0 held on everything observed, 1 violated (with a replay file), 2/3 no answer
(error of the harness / a deciding monitor observed too little).
"""
import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HM_REPO", "/repo")
PKG = os.path.join(REPO, "highway_env")

MAX_VIOLATIONS_PER_UNIT = 6
MAX_SAMPLES = 6


class StopUnit(Exception):
    pass


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.size <= 64 else "array%s" % (x.shape,)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:64]]
    return repr(x)[:200]


def digest(*parts):
    """Digest of (nested) numbers, arrays and strings, used to count distinct cases."""
    import numpy as np
    h = hashlib.blake2b(digest_size=8)

    def feed(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.shape).encode())
            h.update(np.ascontiguousarray(np.round(x.astype(float), 6)).tobytes())
        elif isinstance(x, (float, np.floating)):
            h.update(repr(round(float(x), 6)).encode())
        elif isinstance(x, (list, tuple)):
            h.update(b"(")
            for y in x:
                feed(y)
            h.update(b")")
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                feed(x[k])
        else:
            h.update(str(x).encode())
        h.update(b"|")

    for p in parts:
        feed(p)
    return h.hexdigest()


class Ctx:
    def __init__(self, pid, unit, seed, tier, budget):
        import numpy as np
        self.pid, self.unit, self.seed, self.tier = pid, unit, seed, tier
        self.unit_seed = zlib.crc32(("%s/%s/%d" % (pid, unit, seed)).encode()) & 0x7fffffff
        self.rng = np.random.RandomState(self.unit_seed)
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.harness_errors = []
        self.listed = {k["mechanism"] for k in load_known(pid) if k.get("status") == "open" and (not k.get("unit") or k["unit"] in unit)}
        self.case = None
        self.t0 = time.time()
        self.budget = budget

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def out_of_time(self):
        """Soft cut of the workload on slow machines (never a verdict)."""
        return time.time() - self.t0 > self.budget

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def seen(self, *parts):
        """One non-trivial evaluated case, identified by its content."""
        self.evaluations += 1
        if len(self.distinct) < 200000:
            self.distinct.add(digest(*parts))

    def sample(self, **kw):
        if len(self.samples) < MAX_SAMPLES:
            self.samples.append(jsonable(dict(unit=self.unit, **kw)))

    def fail(self, mech, msg, **detail):
        self.record(dict(mech=mech, msg=msg, unit=self.unit, case=jsonable(self.case), detail=jsonable(detail)))

    def record(self, v):
        """Keep a violation; a listed finding is kept twice and does not cut the exploration short."""
        if v["mech"] in self.listed:
            if sum(w["mech"] == v["mech"] for w in self.violations) < 2:
                self.violations.append(v)
            return
        self.violations.append(v)
        if sum(w["mech"] not in self.listed for w in self.violations) >= MAX_VIOLATIONS_PER_UNIT:
            raise StopUnit()

    def ok(self, cond, mech, msg="", **detail):
        self.count("asserts")
        if not cond:
            self.fail(mech, msg, **detail)
        return bool(cond)

    def close(self, a, b, mech, msg="", tol=1e-6, rtol=1e-6, **detail):
        import numpy as np
        self.count("asserts")
        try:
            a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            good = a_.shape == b_.shape and np.allclose(a_, b_, rtol=rtol, atol=tol, equal_nan=True)
        except (TypeError, ValueError):
            good = False
        if not good:
            self.fail(mech, msg, got=a, expected=b, **detail)
        return good

    def exception(self, exc, where=""):
        """An exception that escaped while driving valid input: whose is it?"""
        frames = traceback.extract_tb(exc.__traceback__)
        text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
        owner = None
        for f in reversed(frames):
            if f.filename.startswith(PKG + os.sep):
                owner = f
                break
            if f.filename.startswith(VERIF + os.sep):
                break
        if owner is None:
            self.harness_errors.append(text)
            return
        mech = "exception:%s@%s" % (type(exc).__name__, owner.name)
        self.record(dict(mech=mech, msg="%s: %s %s" % (type(exc).__name__, exc, where), unit=self.unit,
                         case=jsonable(self.case), detail={"traceback": text}))

    def guard(self, case=None):
        return Guard(self, case)


class Guard:
    """with ctx.guard(case): one case; an exception ends the case, not the unit."""

    def __init__(self, ctx, case):
        self.ctx, self.new = ctx, case

    def __enter__(self):
        self.old = self.ctx.case
        if self.new is not None:
            self.ctx.case = self.new
        return self.ctx

    def __exit__(self, et, ev, tb):
        try:
            if ev is not None and isinstance(ev, Exception) and not isinstance(ev, StopUnit):
                self.ctx.exception(ev)
                return True
        finally:
            self.ctx.case = self.old
        return False


def run_unit(pid, name, fn, kwargs, seed, tier, budget):
    ctx = Ctx(pid, name, seed, tier, budget)
    try:
        fn(ctx, **kwargs)
    except StopUnit:
        pass
    except Exception as e:  # noqa
        try:
            ctx.exception(e)
        except StopUnit:
            pass
    return dict(unit=name, evaluations=ctx.evaluations, distinct=ctx.distinct, counters=ctx.counters,
                samples=ctx.samples, violations=ctx.violations, harness_errors=ctx.harness_errors,
                wall=time.time() - ctx.t0)


def run_all(pid, units, seed, tier, jobs, unit_timeout, budget):
    """Fork one process per unit, `jobs` at a time."""
    tmp = tempfile.mkdtemp(prefix="hm_%s_" % pid)
    listed = {k["mechanism"] for k in load_known(pid) if k.get("status") == "open"}
    results, running, todo = [], {}, list(enumerate(units))
    try:
        while todo or running:
            while todo and len(running) < jobs:
                i, (name, fn, kwargs) = todo.pop(0)
                path = os.path.join(tmp, "%d.pkl" % i)
                sys.stdout.flush()
                sys.stderr.flush()
                pid_ = os.fork()
                if pid_ == 0:
                    try:
                        os.setsid()
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                        if not os.environ.get("HM_DEBUG"):
                            os.dup2(dn, 2)
                        res = run_unit(pid, name, fn, kwargs, seed, tier, budget)
                        with open(path + ".tmp", "wb") as f:
                            pickle.dump(res, f)
                        os.rename(path + ".tmp", path)
                    finally:
                        os._exit(0)
                running[pid_] = (name, path, time.time())
            time.sleep(0.01)
            for p in list(running):
                name, path, t0 = running[p]
                done, status = os.waitpid(p, os.WNOHANG)
                if done:
                    del running[p]
                    if os.path.exists(path):
                        with open(path, "rb") as f:
                            results.append(pickle.load(f))
                        os.unlink(path)
                        if os.environ.get("HM_FAILFAST") and any(v["mech"] not in listed for v in results[-1]["violations"]):  # mutation campaigns only
                            for q in running:
                                os.killpg(q, signal.SIGKILL)
                                os.waitpid(q, 0)
                            return results
                    else:
                        results.append(dict(unit=name, evaluations=0, distinct=set(), counters={}, samples=[],
                                            violations=[], wall=time.time() - t0,
                                            harness_errors=["unit %s died, status %s" % (name, status)]))
                elif time.time() - t0 > unit_timeout:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(p, 0)
                    del running[p]
                    results.append(dict(unit=name, evaluations=0, distinct=set(), counters={}, samples=[],
                                        violations=[], wall=time.time() - t0,
                                        harness_errors=["unit %s exceeded %ds: inconclusive" % (name, unit_timeout)]))
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return results


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


ROUNDS = {"C02": 2, "C03": 2, "C05": 3, "C06": 2, "C07": 5, "C08": 2, "C09": 2, "C10": 3, "C11": 4, "C12": 5, "C13": 6, "C14": 5, "C15": 5, "C17": 2, "C18": 3,
          "C20": 3, "C21": 3, "C22": 2, "C27": 4, "C30": 2, "C31": 2, "C32": 2, "C33": 3}


def main(pid, module, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("HM_JOBS", "8"))
    only = None
    if replay:
        with open(replay) as f:
            r = json.load(f)
        seed, tier, only = r["seed"], r["tier"], r["unit"]
    units = module.units(tier)
    if tier == "quick":     # further rounds of the same units, each with its own random stream
        units = [("%s~%d" % (u[0], r) if r else u[0],) + tuple(u[1:]) for r in range(ROUNDS.get(pid, 1)) for u in units]
    if only:
        units = [u for u in units if u[0] == only]
    sel = os.environ.get("HM_UNIT")
    if sel:
        units = [u for u in units if sel in u[0]]
    unit_timeout = 700 if tier == "quick" else 3600
    budget = float(os.environ.get("HM_BUDGET", "240" if tier == "quick" else "1500"))
    results = run_all(pid, units, seed, tier, jobs, unit_timeout, budget)

    counters, distinct, samples = {}, set(), []
    evaluations = 0
    violations, errors = [], []
    for r in results:
        evaluations += r["evaluations"]
        distinct |= r["distinct"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        violations += r["violations"]
        errors += r["harness_errors"]
    for r in sorted(results, key=lambda r: r["unit"]):
        samples += r["samples"][:2]
    known = load_known(pid)
    reported, new = {}, []
    for v in violations:
        k = next((k for k in known if k.get("status") == "open" and k["mechanism"] == v["mech"]
                  and (not k.get("unit") or k["unit"] in v["unit"])), None)
        if k is not None:
            reported[(k["mechanism"], k.get("unit"))] = k
        else:
            new.append(v)
    for k in reported.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    by_mech = {}
    for v in new:
        by_mech.setdefault(v["mech"], []).append(v)
    for mech, vs in sorted(by_mech.items()):
        v = vs[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1((mech + v["unit"]).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, mechanism=mech, seed=seed, tier=tier, unit=v["unit"], case=v["case"],
                           message=v["msg"], detail=v["detail"], occurrences=len(vs),
                           how="cd /verif && python run.py %s --replay <this file>" % pid), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  mechanism=%s unit=%s (%d occurrences): %s" % (mech, v["unit"], len(vs), str(v["msg"])[:400]))
        rc = 1
    required = getattr(module, "REQUIRED", {})
    short = {k: (counters.get(k, 0), m) for k, m in required.items() if counters.get(k, 0) < m}
    if rc == 0 and errors:
        print("HARNESS-ERROR in %s:" % pid)
        for e in errors[:5]:
            print(e)
        rc = 2
    if rc == 0 and short and not only and not sel:
        print("INCONCLUSIVE %s: monitors observed too little: %s" % (pid, short))
        rc = 3
    level = "exploration"
    ev = dict(property=pid, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=int(evaluations), distinct_nontrivial=len(distinct), rule=module.RULE,
                            samples=samples[:12], units=len(units),
                            monitor_counters={k: int(v) for k, v in sorted(counters.items())},
                            harness_errors=len(errors)),
              assumptions=getattr(module, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    if not sel and not only and not os.environ.get("HM_NO_EVIDENCE"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    slow = sorted(results, key=lambda r: -r["wall"])[:3]
    print("%s tier=%s seed=%d units=%d evaluations=%d distinct=%d asserts=%d violations=%d wall=%.1fs (slowest: %s) -> exit %d"
          % (pid, tier, seed, len(units), evaluations, len(distinct), counters.get("asserts", 0), len(new),
             time.time() - t0, ", ".join("%s %.0fs" % (r["unit"], r["wall"]) for r in slow), rc))
    return rc
