"""Differential monitor: the same episode, replayed in differently polluted processes, must give the same trace."""
import copy
import json
import os
import subprocess
import sys

import numpy as np

from hm import core
from hm import world as W

RULE = ("episodes of every environment with random supported configurations, seeds and action sequences; each is played alone in a fresh process and "
        "compared, step by step and field by field, with the same episode played after a history of other environments in that process, interleaved "
        "step by step with other environments, after earlier episodes of the same object, and in processes with other string-hash seeds; a case is one "
        "pair of traces with at least one step; distinct by the content of the reference trace")
REQUIRED = {"pairs_dirty": 60, "pairs_interleaved": 60, "pairs_replayed": 60, "pairs_hashseed": 20, "pairs_crossings": 6, "steps_compared": 800}


INTERSECTION = dict(DISTANCE_WANTED=7, COMFORT_ACC_MAX=6, COMFORT_ACC_MIN=-3)
CLASSES = (W.IDMVehicle, W.LinearVehicle, W.AggressiveVehicle, W.DefensiveVehicle)


def prelude():
    """Known finding: an intersection overwrites these three class attributes. All compared processes start from the overwritten
    values, so that any other influence still shows; the unit `leak` decides the known one."""
    for c in CLASSES:
        for k, v in INTERSECTION.items():
            setattr(c, k, v)


def baseline(name, cfg, seed, aseed, steps):
    return W.run_trace(W.make(name, cfg, seed, reset=False), aseed, steps, seed)


def pollute(rng, only=None):
    """a history: other environments built, reset, stepped and transformed in this process"""
    names = [n for n in W.ENVS]
    for _ in range(int(rng.randint(2, 5))):
        name = names[rng.randint(len(names))]
        cfg = W.random_env_config(rng, name)
        env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
        for _ in range(int(rng.randint(0, 4))):
            _, _, done, _ = env.step(W.sample_action(env.action_space, rng))
            if np.all(done):
                break
        k = rng.randint(5)
        if k == 0:
            copy.deepcopy(env)
        elif k == 1 and name not in ("parking", "summon", "lane-keeping"):
            env.simplify()
        elif k == 2 and name not in ("parking", "summon", "lane-keeping"):
            env.randomize_behaviour()
        elif k == 3 and name not in ("parking", "summon", "lane-keeping"):
            env.change_vehicles(W.LINEAR).randomize_behaviour()
    np.random.seed(int(rng.randint(1 << 30)))
    np.random.rand(int(rng.randint(1, 50)))


def dirty(name, cfg, seed, aseed, steps, hseed):
    rng = np.random.RandomState(hseed)
    pollute(rng)
    return baseline(name, cfg, seed, aseed, steps)


def replayed(name, cfg, seed, aseed, steps, hseed):
    rng = np.random.RandomState(hseed)
    env = W.make(name, cfg, int(rng.randint(1 << 30)))
    for _ in range(int(rng.randint(1, 3))):
        for _ in range(int(rng.randint(1, 6))):
            _, _, done, _ = env.step(W.sample_action(env.action_space, rng))
            if np.all(done) and rng.rand() < .8:
                break
        if rng.rand() < .5:
            env.reset()
        elif rng.rand() < .6:      # an episode with the very seed of the next one
            env.seed(seed)
            env.reset()
            for _ in range(int(rng.randint(0, 4))):
                env.step(W.sample_action(env.action_space, rng))
    return W.run_trace(env, aseed, steps, seed)


def interleaved(name, cfg, seed, aseed, steps, hseed):
    rng = np.random.RandomState(hseed)
    names = list(W.ENVS)
    others = []
    for _ in range(2):
        n2 = names[rng.randint(len(names))] if rng.rand() < .7 else name
        others.append(W.make(n2, W.random_env_config(rng, n2), seed=int(rng.randint(1 << 30))))

    def disturb():
        for o in others:
            k = rng.randint(8)
            if k == 0:
                o.seed(int(rng.randint(1 << 30)))
                o.reset()
            else:
                _, _, done, _ = o.step(W.sample_action(o.action_space, rng))
                if np.all(done):
                    o.reset()
        np.random.rand()

    env = W.make(name, cfg, seed, reset=False)
    arng = np.random.RandomState(aseed)
    env.seed(seed)
    disturb()
    obs = env.reset()
    W.forget_routes(env, aseed)
    out = [("reset", W.norm(obs), W.flat(W.snap(env)))]
    pol = W.Policy(arng)
    for t in range(steps):
        disturb()
        a = pol(env.action_space)
        obs, rew, done, info = env.step(a)
        out.append((t, W.norm(obs), W.norm(rew), W.norm(done), W.norm({k: v for k, v in info.items() if k != "action"}), W.flat(W.snap(env))))
        if np.all(done):
            break
    return out


NAMES = ["step", "observation", "reward", "done", "info", "state"]


def compare(ctx, kind, ref, got):
    ctx.count("pairs_" + kind)
    ctx.count("steps_compared", min(len(ref), len(got)) - 1)
    if len(ref) > 1:
        ctx.seen(kind, repr(ref)[:100000])
    for r, g in zip(ref, got):
        if r != g:
            names = ["step", "observation", "state"] if r[0] == "reset" else NAMES
            k = next((i for i, (a, b) in enumerate(zip(r, g)) if a != b), 0)
            d = W.first_diff(r[k], g[k], names[k])
            ctx.fail("trace-%s" % kind, "step %s: %s differs from the episode played alone: %s" % (r[0], names[k], d))
            return
    if len(ref) != len(got):
        ctx.fail("trace-%s" % kind, "episode lengths %d != %d" % (len(ref), len(got)))


def run(ctx, name, count, steps):
    rng = ctx.rng
    prelude()
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg = W.random_env_config(rng, name) if e else {}
        seed, aseed = int(rng.randint(1 << 30)), int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, config=cfg, seed=seed, actions=aseed, steps=steps)):
            ref = W.child_value(ctx, W.in_child(baseline, name, cfg, seed, aseed, steps))
            if ref is None:
                continue
            if e == 0:
                ctx.sample(env=name, steps=len(ref) - 1, last=repr(ref[-1])[:300])
            for kind, fn in (("dirty", dirty), ("interleaved", interleaved), ("replayed", replayed)):
                got = W.child_value(ctx, W.in_child(fn, name, cfg, seed, aseed, steps, int(rng.randint(1 << 30))))
                if got is not None:
                    compare(ctx, kind, ref, got)


def after_intersection(name, cfg, seed, aseed, steps, kind, restore):
    before = {(c, k): getattr(c, k) for c in CLASSES for k in INTERSECTION}
    W.make("intersection", {"initial_vehicle_count": 2, "other_vehicles_type": kind})
    if restore:
        for (c, k), v in before.items():
            setattr(c, k, v)
    return baseline(name, cfg, seed, aseed, steps)


def after_crossings(name, cfg, seed, aseed, steps, hseed):
    """a history of intersections of other lengths and frequencies, none a multiple of the others'"""
    rng = np.random.RandomState(hseed)
    for _ in range(int(rng.randint(1, 3))):
        other = W.make(["intersection", "multi-intersection"][rng.randint(2)], {"simulation_frequency": int(rng.choice([4, 7, 11, 13])), "policy_frequency": int(rng.choice([2, 3])),
                                                                                "initial_vehicle_count": 2, "duration": 20}, seed=int(rng.randint(1 << 30)))
        for _ in range(int(rng.randint(1, 5))):
            _, _, done, _ = other.step(W.sample_action(other.action_space, rng))
            if np.all(done):
                break
    return baseline(name, cfg, seed, aseed, steps)


def crossings(ctx, count, steps):
    """Crowded intersections, whose traffic yields at regular instants, after a history of others."""
    rng = ctx.rng
    prelude()
    for e in range(count):
        if ctx.out_of_time():
            break
        name = ["intersection", "multi-intersection"][e % 2]
        cfg = {"initial_vehicle_count": int(rng.randint(6, 12)), "spawn_probability": 1., "duration": 20}
        seed, aseed, hseed = int(rng.randint(1 << 30)), int(rng.randint(1 << 28)) * 3 + 1, int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, config=cfg, seed=seed, actions=aseed, history=hseed, steps=steps)):
            ref = W.child_value(ctx, W.in_child(baseline, name, cfg, seed, aseed, steps))
            got = W.child_value(ctx, W.in_child(after_crossings, name, cfg, seed, aseed, steps, hseed))
            if ref is not None and got is not None:
                compare(ctx, "crossings", ref, got)


def leak(ctx, count, steps):
    rng = ctx.rng
    for e in range(count):
        name = ["highway", "merge", "roundabout", "two-way"][e % 4]
        kind = W.TRAFFIC[rng.randint(4)]
        cfg = {"other_vehicles_type": kind}
        seed, aseed = int(rng.randint(1 << 30)), int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, config=cfg, seed=seed, actions=aseed, steps=steps)):
            ref = W.child_value(ctx, W.in_child(baseline, name, cfg, seed, aseed, steps))
            got = W.child_value(ctx, W.in_child(after_intersection, name, cfg, seed, aseed, steps, kind, False))
            again = W.child_value(ctx, W.in_child(after_intersection, name, cfg, seed, aseed, steps, kind, True))
            compare(ctx, "dirty", ref, again)
            ctx.seen("leak", repr(ref)[:100000])
            ctx.ok(ref == got, "intersection-parameters-leak", "%s traffic of %s behaves differently once an intersection was created in the process" % (kind, name))


def hashseed(ctx, name, count, steps):
    """the same episodes in processes whose string hashing differs"""
    rng = ctx.rng
    jobs = [dict(name=name, cfg=W.random_env_config(rng, name) if e else {}, seed=int(rng.randint(1 << 30)), aseed=int(rng.randint(1 << 30)), steps=steps)
            for e in range(count)]
    res = []
    for hs in [0, 1] + [int(rng.randint(2, 1 << 31)) for _ in range(1 + 2 * ctx.thorough)]:
        e = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=core.VERIF, HM_REPO=core.REPO)
        p = subprocess.run([sys.executable, "-m", "hm.c01_child"], input=json.dumps(jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, env=e, timeout=600, cwd=core.VERIF)
        if p.returncode:
            ctx.harness_errors.append("hash-seed child failed: %s" % p.stderr[-2000:])
            return
        res.append((hs, json.loads(p.stdout.splitlines()[-1])))
    hs0, ref = res[0]
    for hs, got in res[1:]:
        for j, a, b in zip(jobs, ref, got):
            with ctx.guard(dict(j, hash_seeds=[hs0, hs])):
                if "error" in a or "error" in b:
                    ctx.count("child_errors")
                    continue
                ctx.count("pairs_hashseed")
                ctx.count("steps_compared", len(a["digests"]) - 1)
                ctx.seen(name, "hash", a["digests"])
                k = next((i for i, (x, y) in enumerate(zip(a["digests"], b["digests"])) if x != y), None)
                ctx.ok(k is None and len(a["digests"]) == len(b["digests"]), "trace-hashseed",
                       "the episode depends on the string-hash seed of the process, from record %s on (routes %s / %s)" % (k, a["routes"], b["routes"]))


def units(tier):
    k = 6 if tier == "thorough" else 1
    per = {"highway": (8, 4), "merge": (8, 10), "roundabout": (8, 8), "intersection": (7, 6), "multi-intersection": (6, 6), "parking": (8, 15),
           "summon": (8, 10), "two-way": (8, 10), "lane-keeping": (8, 30)}
    out = []
    for name, (n, steps) in per.items():
        for i in range(2 * k):
            out.append(("%s-%d" % (name, i), run, dict(name=name, count=n, steps=steps)))
    for i in range(2 * k):
        out.append(("crossings-%d" % i, crossings, dict(count=5, steps=5)))
    for i in range(k):
        out.append(("leak-%d" % i, leak, dict(count=5, steps=4)))
    for name in ("roundabout", "intersection", "multi-intersection", "merge", "highway", "summon"):
        for i in range(k):
            out.append(("hash-%s-%d" % (name, i), hashseed, dict(name=name, count=6, steps=4)))
    return out
