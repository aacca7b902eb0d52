"""Occupancy grids recomputed cell by cell from the raw state of the vehicles."""
import copy
import math

import numpy as np

from hm import world as W
from hm.checks.C05 import raw, scramble

RULE = ("environments with random grid configurations (features, sizes, steps, centred or not, square or not, ranges), observed after resets, steps and random scrambling of the traffic; a case is "
        "one grid; distinct by content; a vehicle within 1e-6 of a cell border may be in either cell")
REQUIRED = {"grids": 1500, "occupied": 2800, "shared": 100, "empty_cells": 50000, "outside": 3000, "just_outside": 60, "rectangular": 500, "clipped": 300, "default_step": 100, "default_size": 100,
            "ranged": 500, "unranged": 300, "multi_agent": 100, "returned": 200, "one_row": 20, "crowd": 4, "wrecks": 300, "fine": 20}
FEATURES = ["presence", "x", "y", "vx", "vy", "heading", "cos_h", "sin_h", "cos_d", "sin_d"]


def compare(ctx, env, ot, cfg, obs):
    road, ego = env.road, ot.observer_vehicle
    features = cfg.get("features") or ["presence", "vx", "vy"]
    size = cfg.get("grid_size") or [[-27.5, 27.5], [-27.5, 27.5]]
    step = cfg.get("grid_step") or [5, 5]
    ranges = cfg.get("features_range") or {"vx": [-60., 60.], "vy": [-60., 60.]}
    n = [int(math.floor((size[k][1] - size[k][0]) / step[k] + 1e-9)) for k in (0, 1)]
    obs = np.asarray(obs, dtype=float)
    ctx.count("grids")
    ctx.count("rectangular", int(n[0] != n[1]))
    ctx.count("default_step", int(not cfg.get("grid_step")))
    ctx.count("default_size", int(not cfg.get("grid_size")))
    ctx.count("ranged", int("x" in ranges or "y" in ranges))
    ctx.count("unranged", int("x" not in ranges))
    ctx.count("fine", int(min(step) < 1))
    ctx.count("one_row", int(min(n) == 1))
    ctx.seen(obs)
    if not ctx.ok(obs.shape == (len(features), n[1], n[0]), "shape", "grid of shape %s instead of %s" % (obs.shape, (len(features), n[1], n[0])), config=cfg):
        return
    e = raw(ego, road)
    certain, possible = {}, {}
    for v in road.vehicles:
        r = raw(v, road)
        for k in ("x", "y", "vx", "vy"):
            r[k] -= e[k]
        cells = []
        for k, name in ((0, "x"), (1, "y")):
            q = (r[name] - size[k][0]) / step[k]
            near = round(q)
            cells.append([near - 1, near] if abs(q - near) < 1e-6 else [int(math.floor(q))])
        for k, (lo, hi) in ranges.items():
            if k in r:
                r[k] = -1 + 2 * (r[k] - lo) / (hi - lo)
        vals = np.array([r[f] for f in features])
        ctx.count("wrecks", int(v.crashed and v.speed == 0))
        ctx.count("clipped", int(np.any(np.abs(vals) > 1)))
        vals = np.clip(vals, -1, 1)
        inside = [(y, x) for x in cells[0] for y in cells[1] if 0 <= x < n[0] and 0 <= y < n[1]]
        if not inside:
            ctx.count("outside")
            ctx.count("just_outside", int(all(min(c) >= -1 and max(c) <= m for c, m in zip(cells, n))))
        sure = len(cells[0]) == len(cells[1]) == 1
        for c in inside:
            (certain if sure else possible).setdefault(c, []).append(vals)
    for y in range(n[1]):
        for x in range(n[0]):
            got = obs[:, y, x]
            sure, maybe = certain.get((y, x), []), possible.get((y, x), [])
            good = any(np.allclose(got, v, atol=1e-6) for v in sure + maybe)
            if sure:
                ctx.count("occupied")
                ctx.count("shared", int(len(sure) > 1))
                if not good:
                    ctx.fail("cell", "cell (%d, %d) holds %s but its vehicles have %s" % (y, x, got, sure[:3]), config=cfg)
                    return
            else:
                ctx.count("empty_cells")
                if not good and np.any(got != 0):
                    ctx.fail("empty", "empty cell (%d, %d) holds %s" % (y, x, got), config=cfg)
                    return


def random_config(rng):
    c = {"type": "OccupancyGrid"}
    if rng.rand() < .8:
        c["features"] = [str(f) for f in rng.permutation(FEATURES)[:rng.randint(1, 7)]]
    if rng.rand() < .85:
        s = []
        for k in range(2):
            a, b = float(rng.choice([5., 12.5, 20., 33., 60., 120.])), float(rng.choice([5., 12.5, 20., 33., 60.]))
            s.append([-a, b] if rng.rand() < .4 else [-a, a])
        c["grid_size"] = s
    if rng.rand() < .85:
        c["grid_step"] = [float(x) for x in rng.choice([.5, 2., 2.5, 3., 4., 5., 8., 10.], size=2)] if rng.rand() < .6 else [5, 5]
    if min(c.get("grid_step", [5])) < 1:
        c["grid_size"] = [[-10., 10.], [-6., 8.]]
    elif rng.rand() < .1:
        c["grid_size"], c["grid_step"] = [[-10., 10.], [-2., 2.]], [5., 4.]
        if rng.rand() < .5:
            c["grid_size"].reverse(), c["grid_step"].reverse()
    if rng.rand() < .6:
        r = {}
        for f in ("x", "y", "vx", "vy", "heading"):
            if rng.rand() < .6 and (f != "heading" or "heading" in c.get("features", [])):
                lo = float(rng.uniform(-120, 5))
                r[f] = [lo, lo + float(rng.uniform(5, 200))]
        if r:
            c["features_range"] = r
    return c


def drive(ctx, name, count, steps, multi=False, extra=None):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        oc = random_config(rng)
        cfg = dict(extra or {})
        cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": copy.deepcopy(oc)} if multi else copy.deepcopy(oc)
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed, reset=False)
            first = env.reset()
            last = {}
            inner = env.observation_type.observe

            def check(obs):
                if multi:
                    ctx.count("multi_agent")
                    for o, t, v in zip(obs, env.observation_type.agents_observation_types, env.controlled_vehicles):
                        ctx.ok(t.observer_vehicle is v, "observer", "an agent's observer is not its vehicle")
                        compare(ctx, env, t, oc, o)
                else:
                    compare(ctx, env, env.observation_type, oc, obs)

            def observe():
                obs = inner()
                check(obs)
                last["obs"] = W.norm(obs)
                return obs

            env.observation_type.observe = observe
            check(first)
            kept, kept_norm = first, W.norm(first)
            if e == 0:
                ctx.sample(config=oc, shape=np.shape(first[0] if multi else first))
            pol = W.Policy(rng)
            for t in range(steps):
                obs, _, done, _ = env.step(pol(env.action_space))
                ctx.count("returned")
                ctx.ok(W.norm(obs) == last["obs"], "returned", "step returned another observation than the one made")
                ctx.ok(W.norm(kept) == kept_norm, "aliased", "an observation already returned was modified")
                kept, kept_norm = obs, W.norm(obs)
                if np.all(done):
                    break
            ctx.count("crowd", int(len(env.road.vehicles) > 50))
            for t in range(5):
                scramble(rng, env)
                if t == 0:  # vehicles around the borders of the grid
                    for v in env.road.vehicles:
                        if v is not env.vehicle:
                            size = np.array(oc.get("grid_size") or [[-27.5, 27.5], [-27.5, 27.5]])
                            k = rng.randint(2)
                            off = np.array([rng.uniform(*size[0]), rng.uniform(*size[1])])
                            off[k] = size[k][rng.randint(2)] + rng.uniform(-2, 2)
                            v.position = np.asarray(env.vehicle.position, dtype=float) + off
                            v.on_state_update()
                env.observation_type.observe()


def units(tier):
    k = 10 if tier == "thorough" else 1
    out = []
    act = {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}}
    for i in range(k):
        for j in range(3):
            out.append(("highway-%d-%d" % (i, j), drive, dict(name="highway", count=30, steps=2)))
        out.append(("highway-continuous-%d" % i, drive, dict(name="highway", count=20, steps=2, extra={"action": {"type": "ContinuousAction"}})))
        out.append(("highway-multi-%d" % i, drive, dict(name="highway", count=15, steps=2, multi=True, extra={"controlled_vehicles": 3, "action": act, "vehicles_count": 5})))
        out.append(("merge-%d" % i, drive, dict(name="merge", count=30, steps=4)))
        out.append(("roundabout-%d" % i, drive, dict(name="roundabout", count=25, steps=4)))
        out.append(("intersection-%d" % i, drive, dict(name="intersection", count=15, steps=4)))
        out.append(("multi-intersection-%d" % i, drive, dict(name="multi-intersection", count=10, steps=4, multi=True)))
        out.append(("two-way-%d" % i, drive, dict(name="two-way", count=30, steps=4)))
        out.append(("crowd-%d" % i, drive, dict(name="highway", count=8, steps=0, extra={"vehicles_count": 70})))
    return out
