"""Kinematics observations recomputed from the raw state of the vehicles."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import Vehicle

RULE = ("environments with random kinematics configurations (feature lists, counts, ranges, orders, absolute/relative, normalisation, "
        "clipping, seeing behind, intentions, single and multi-agent), observed after resets, steps and random scrambling of the traffic; a "
        "case is one observation; distinct by content; scenes with ties or within 1e-6 of a threshold are skipped")
REQUIRED = {"observations": 1500, "rows": 4000, "zero_rows": 500, "truncated": 200, "behind_cut": 150, "shuffled": 150, "absolute": 300,
            "clipped": 200, "unnormalized": 200, "default_range": 200, "custom_range": 400, "intentions": 100, "multi_agent": 70, "count_one": 30,
            "returned": 300, "elsewhere": 110, "other_lane_count": 15, "default_range_kept": 15}
FEATURES = ["presence", "x", "y", "vx", "vy", "heading", "cos_h", "sin_h", "cos_d", "sin_d"]
DISTANCE = 180.0


def raw(v, road):
    h = float(np.squeeze(v.heading))
    s = float(np.squeeze(v.speed))
    dest = np.array(v.position, dtype=float)
    route = getattr(v, "route", None)
    if route:
        lane = W.lane_of(road.network, route[-1])
        dest = W.ref_position(lane, W.ref_length(lane), 0.)
    d = dest - np.asarray(v.position, dtype=float)
    n = float(np.hypot(*d))
    u = d / n if n > 0 else np.zeros(2)
    return {"presence": 1., "x": float(v.position[0]), "y": float(v.position[1]), "vx": s * math.cos(h), "vy": s * math.sin(h), "heading": h,
            "cos_h": math.cos(h), "sin_h": math.sin(h), "cos_d": float(u[0]), "sin_d": float(u[1])}


def reference(ctx, env, obs_type, cfg):
    """expected array (and whether rows after the first are shuffled), or None if the scene is marginal"""
    road, ego = env.road, obs_type.observer_vehicle
    features = cfg.get("features") or ["presence", "x", "y", "vx", "vy"]
    n = cfg.get("vehicles_count", 5)
    lane = W.lane_of(road.network, ego.lane_index)
    s0 = W.ref_local(lane, ego.position)[0]
    cand = []
    for v in road.vehicles:
        if v is ego:
            continue
        d = float(np.hypot(*(np.asarray(v.position) - ego.position)))
        gap = W.ref_local(lane, v.position)[0] - s0
        if abs(d - DISTANCE) < 1e-6 or abs(gap + 2 * ego.LENGTH) < 1e-6:
            return None
        if W.lane_kind(lane) == "circular" and abs(abs(W.ref_local(lane, v.position)[0] / lane.radius) - math.pi) < 1e-3:
            return None
        if d < DISTANCE:
            if cfg.get("see_behind", False) or gap > -2 * ego.LENGTH:
                cand.append((abs(gap), v))
            else:
                ctx.count("behind_cut")
    cand.sort(key=lambda c: c[0])
    if any(abs(a[0] - b[0]) < 1e-7 for a, b in zip(cand, cand[1:])):
        return None
    if len(cand) > n - 1:
        ctx.count("truncated")
    rows = [raw(ego, road)]
    for _, v in cand[:n - 1]:
        r = raw(v, road)
        if not cfg.get("observe_intentions", False):
            r["cos_d"] = r["sin_d"] = 0.
        else:
            ctx.count("intentions")
        if not cfg.get("absolute", False):
            for k in ("x", "y", "vx", "vy"):
                r[k] -= rows[0][k]
        rows.append(r)
    if cfg.get("absolute", False):
        ctx.count("absolute")
    if cfg.get("normalize", True):
        ranges = cfg.get("features_range")
        if ranges:
            ctx.count("custom_range")
        else:
            ctx.count("default_range")
            now = len(env.road.network.graph[ego.lane_index[0]][ego.lane_index[1]])
            lanes = obs_type.__dict__.setdefault("hm_lanes", now)  # the default range is the one of the first observation
            ctx.count("default_range_kept", int(lanes != now))
            ranges = {"x": [-150., 150.], "y": [-4. * lanes, 4. * lanes], "vx": [-60., 60.], "vy": [-60., 60.]}
        for r in rows:
            for k, (lo, hi) in ranges.items():
                r[k] = -1 + 2 * (r[k] - lo) / (hi - lo)
                if cfg.get("clip", True):
                    if k in features and abs(r[k]) > 1:
                        ctx.count("clipped")
                    r[k] = min(max(r[k], -1.), 1.)
    else:
        ctx.count("unnormalized")
    out = np.zeros((n, len(features)))
    for i, r in enumerate(rows):
        out[i] = [r[f] for f in features]
    ctx.count("rows", len(rows) - 1)
    ctx.count("zero_rows", n - len(rows))
    return out


def compare(ctx, env, obs_type, cfg, obs):
    exp = reference(ctx, env, obs_type, cfg)
    obs = np.asarray(obs, dtype=float)
    if exp is None:
        ctx.count("marginal")
        return
    ctx.count("observations")
    ctx.count("count_one", int(cfg.get("vehicles_count", 5) == 1))
    ctx.seen(obs)
    if obs.shape != exp.shape:
        ctx.fail("shape", "observation of shape %s instead of %s" % (obs.shape, exp.shape), config=cfg)
        return
    # a destination reached exactly has no stable direction
    if cfg.get("order", "sorted") == "shuffled":
        ctx.count("shuffled")
        ctx.ok(np.allclose(obs[0], exp[0], atol=1e-6), "ego-row", "ego row %s instead of %s" % (obs[0], exp[0]), config=cfg)
        left = [r for r in exp[1:]]
        for r in obs[1:]:
            k = next((i for i, q in enumerate(left) if np.allclose(r, q, atol=1e-6)), None)
            if k is None:
                ctx.fail("shuffled-rows", "row %s is not the row of a close vehicle" % r, config=cfg, expected=exp)
                return
            left.pop(k)
    else:
        ctx.ok(np.allclose(obs[0], exp[0], atol=1e-6), "ego-row", "ego row %s instead of %s" % (obs[0], exp[0]), config=cfg)
        bad = [i for i in range(1, len(exp)) if not np.allclose(obs[i], exp[i], atol=1e-6)]
        ctx.ok(not bad, "rows", "row %s is %s instead of %s" % (bad[:1], obs[bad[0]] if bad else "", exp[bad[0]] if bad else ""), config=cfg)


def random_config(rng, name):
    c = {"type": "Kinematics"}
    if rng.rand() < .7:
        k = rng.randint(1, len(FEATURES) + 1)
        c["features"] = [str(f) for f in rng.permutation(FEATURES)[:k]]
    if rng.rand() < .8:
        c["vehicles_count"] = int(rng.choice([1, 2, 3, 5, 8, 15]))
    if rng.rand() < .6:
        r = {}
        for f in ("x", "y", "vx", "vy", "heading"):
            if rng.rand() < .7 and (f != "heading" or "heading" in c.get("features", [])):
                lo = float(rng.uniform(-120, 5))
                r[f] = [lo, lo + float(rng.uniform(5, 200))]
        if not r:
            r = {"x": [-100., 100.]}
        c["features_range"] = r
    for k, p in (("absolute", .4), ("see_behind", .5), ("observe_intentions", .4)):
        if rng.rand() < p:
            c[k] = True
    if rng.rand() < .3:
        c["normalize"] = False
    if rng.rand() < .3:
        c["clip"] = False
    if rng.rand() < .3:
        c["order"] = "shuffled"
    elif rng.rand() < .5:
        c["order"] = "sorted"
    return c


def scramble(rng, env):
    """random traffic around the ego vehicle"""
    ego = env.vehicle
    for v in env.road.vehicles:
        if v is ego and rng.rand() < .7:
            continue
        r = rng.choice([10., 40., 150., 250.])
        base = np.asarray(ego.position)
        v.position = base + rng.uniform(-r, r, size=2) * np.array([1., rng.choice([.05, .3, 1.])])
        if rng.rand() < .15 and getattr(v, "route", None):
            v.position = np.asarray(v.destination, dtype=float) + rng.uniform(-1, 1, size=2) * rng.choice([.05, .7, 3.])
        v.heading = float(rng.uniform(-7, 7)) if rng.rand() < .8 else float(rng.choice([0., math.pi, -math.pi / 2]))
        v.speed = float(rng.uniform(-20, 45)) if rng.rand() < .75 else 0.
        v.crashed = bool(rng.rand() < .2)
        v.on_state_update()


def watch(ctx, env, cfg, multi):
    last = {}
    tops = env.observation_type.agents_observation_types if multi else [env.observation_type]
    ego_ok = [o.observer_vehicle for o in tops]
    if multi:
        ctx.ok(len(tops) == len(env.controlled_vehicles) and all(a is b for a, b in zip(ego_ok, env.controlled_vehicles)), "observers",
               "agents' observers are not the controlled vehicles")
    else:
        ctx.ok(ego_ok[0] is env.vehicle, "observers", "the observer is not the first controlled vehicle")
    inner = env.observation_type.observe

    def observe():
        obs = inner()
        if not multi:
            compare(ctx, env, env.observation_type, cfg, obs)
        else:
            ctx.count("multi_agent")
            ctx.ok(len(obs) == len(tops), "entries", "%d entries" % len(obs))
            for o, t in zip(obs, tops):
                compare(ctx, env, t, cfg, o)
        last["obs"] = W.norm(obs)
        return obs

    env.observation_type.observe = observe
    return last


def run(ctx, name, count, steps, multi=False, extra=None):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        oc = random_config(rng, name)
        cfg = dict(extra or {})
        cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": copy.deepcopy(oc)} if multi else copy.deepcopy(oc)
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed, reset=False)
            obs = env.reset()
            last = watch(ctx, env, oc, multi)
            for o, t in zip(obs if multi else [obs], env.observation_type.agents_observation_types if multi else [env.observation_type]):
                compare(ctx, env, t, oc, o)
            if e < 1:
                ctx.sample(config=oc, obs=obs[0] if multi else obs)
            pol = W.Policy(rng)
            for t in range(steps):
                obs, _, done, _ = env.step(pol(env.action_space))
                ctx.count("returned")
                ctx.ok(W.norm(obs) == last["obs"], "returned", "step returned another observation than the one made")
                if done:
                    break
            if name in ("intersection", "multi-intersection") or not hasattr(env.vehicle, "lane"):
                continue
            for t in range(6):
                scramble(rng, env)
                env.observation_type.observe()


def elsewhere(ctx, name, count):
    """observation types made for other vehicles than the first, on roads of other lane counts; default ranges included"""
    from highway_env.envs.common.observation import observation_factory
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        oc = random_config(rng, "highway")
        if rng.rand() < .6:
            oc.pop("features_range", None)
            oc.pop("normalize", None)
        seed = int(rng.randint(1 << 30))
        cfg = {"vehicles_count": 60, "controlled_vehicles": 1, "lanes_count": int(rng.randint(1, 6))} if name == "highway" else {}
        with ctx.guard(dict(env=name, seed=seed, config=oc)):
            env = W.make(name, cfg, seed)
            for v in [env.road.vehicles[i] for i in rng.permutation(len(env.road.vehicles))[:4]]:
                ot = observation_factory(env, copy.deepcopy(oc))
                ot.observer_vehicle = v
                ctx.count("elsewhere")
                ctx.count("other_lane_count", int(len(env.road.network.graph[v.lane_index[0]][v.lane_index[1]]) !=
                                                  len(env.road.network.graph[env.vehicle.lane_index[0]][env.vehicle.lane_index[1]])))
                compare(ctx, env, ot, oc, ot.observe())
                fixed = {k: list(x) for k, x in (getattr(ot, "features_range", None) or {}).items()}
                for _ in range(2):
                    for w in env.road.vehicles:
                        if w is not v:
                            w.position = np.asarray(v.position) + rng.uniform(-150, 150, size=2)
                            w.speed = float(rng.uniform(-20, 40))
                            w.on_state_update()
                    compare(ctx, env, ot, oc, ot.observe())
                ctx.ok(fixed == {k: list(x) for k, x in (getattr(ot, "features_range", None) or {}).items()}, "range-drift", "the ranges changed after the first observation")


def units(tier):
    k = 10 if tier == "thorough" else 1
    out = []
    multi_action = {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}}
    for i in range(k):
        for j in range(3):
            out.append(("highway-%d-%d" % (i, j), run, dict(name="highway", count=25, steps=2)))
        out.append(("highway-continuous-%d" % i, run, dict(name="highway", count=15, steps=2, extra={"action": {"type": "ContinuousAction"}})))
        out.append(("highway-multi-%d" % i, run, dict(name="highway", count=12, steps=2, multi=True, extra={"controlled_vehicles": 3, "action": multi_action, "vehicles_count": 5})))
        out.append(("merge-%d" % i, run, dict(name="merge", count=20, steps=5)))
        out.append(("roundabout-%d" % i, run, dict(name="roundabout", count=15, steps=5)))
        out.append(("intersection-%d" % i, run, dict(name="intersection", count=8, steps=6)))
        out.append(("multi-intersection-%d" % i, run, dict(name="multi-intersection", count=6, steps=5, multi=True)))
        out.append(("two-way-%d" % i, run, dict(name="two-way", count=15, steps=4)))
        out.append(("elsewhere-highway-%d" % i, elsewhere, dict(name="highway", count=8)))
        for name in ("merge", "two-way", "roundabout", "intersection"):
            out.append(("elsewhere-%s-%d" % (name, i), elsewhere, dict(name=name, count=10)))
    return out
