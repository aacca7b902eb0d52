"""Rewards: every reward returned by step recomputed from the state the environment is left in."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import ControlledVehicle, MDPVehicle

RULE = ("every step of episodes of all environments under random configurations (weights, speed ranges, action types, numbers of agents, "
        "normalisation) with vehicles regularly relocated to rarely visited places (ramps, exits, goals, opposite lanes, off the road, at extreme "
        "speeds, into others), plus a counterfactual crash of the ego at sampled steps; a case is one step; distinct by reward terms")
REQUIRED = {"rewards": 2500, "crashed": 120, "highway": 250, "merge": 250, "roundabout": 200, "intersection": 100, "multi-intersection": 60, "parking": 200,
            "summon": 150, "two-way": 250, "lane-keeping": 250, "offroad_zero": 25, "courtesy": 60, "arrived": 12, "lane_change_actions": 150,
            "continuous": 400, "normalised_range": 800, "counterfactual": 600, "near_goal": 60, "lane_switches": 5, "agents": 150, "crashed_at_rest": 40, "crashed_arrived": 3, "reweighed": 20}

ALL = {0: "LANE_LEFT", 1: "IDLE", 2: "LANE_RIGHT", 3: "FASTER", 4: "SLOWER"}
LONGI = {0: "SLOWER", 1: "IDLE", 2: "FASTER"}
LAT = {0: "LANE_LEFT", 1: "IDLE", 2: "LANE_RIGHT"}


class Marginal(BaseException):
    pass


def action_names(cfg):
    c = cfg["action"]
    c = c.get("action_config", c)
    if c["type"] != "DiscreteMetaAction":
        return None
    lo, la = c.get("longitudinal", True), c.get("lateral", True)
    return ALL if lo and la else LONGI if lo else LAT


def wt(env, name, published):
    """A weight: the published one, or the one this environment was given instead."""
    return getattr(env, "_hm_weights", {}).get(name, published)


WEIGHTS = {"highway": ("RIGHT_LANE_REWARD", "HIGH_SPEED_REWARD"), "merge": ("COLLISION_REWARD", "RIGHT_LANE_REWARD", "HIGH_SPEED_REWARD", "MERGING_SPEED_REWARD", "LANE_CHANGE_REWARD"),
           "intersection": ("HIGH_SPEED_REWARD", "ARRIVED_REWARD"), "multi-intersection": ("HIGH_SPEED_REWARD", "ARRIVED_REWARD"), "summon": ("COLLISION_REWARD",),
           "roundabout": ("COLLISION_REWARD", "HIGH_SPEED_REWARD", "LANE_CHANGE_REWARD"), "two-way": ("LEFT_LANE_REWARD", "HIGH_SPEED_REWARD")}


def reweigh(ctx, rng, env, name):
    """Other weights than the published ones, as a subclass would define them."""
    names = WEIGHTS.get(name, ())
    w = {k: float(rng.uniform(.05, 2)) * (-1 if k in ("COLLISION_REWARD", "MERGING_SPEED_REWARD", "LANE_CHANGE_REWARD") else 1) for k in names if rng.rand() < .7}
    if w:
        ctx.count("reweighed")
        env.__class__ = type(type(env).__name__, (type(env),), w)
        env._hm_weights = w


def lmap(v, a, b):
    return (v - a) / (b - a)


def speed_idx(v, lo, hi, n):
    if hasattr(v, "speed_index"):
        return v.speed_index
    x = (float(v.speed) - lo) / (hi - lo) * (n - 1)
    if abs(x - math.floor(x) - .5) < 1e-6:
        raise Marginal()
    return min(max(math.floor(x + .5), 0), n - 1)


def road_lanes(env, idx):
    return len(env.road.network.graph[idx[0]][idx[1]])


def on_road(env, v):
    lane = W.lane_of(env.road.network, v.lane_index)
    on, m = W.ref_on_lane(lane, v.position)
    if m < 1e-6:
        raise Marginal()
    return on


def arrived(env, v):
    a, b, _ = v.lane_index
    if not (a.startswith("il") and b.startswith("o")):
        return False
    s, _ = W.ref_local(W.lane_of(env.road.network, v.lane_index), v.position)
    if abs(s - 25) < 1e-6:
        raise Marginal()
    return s >= 25


def highway(ctx, env, action):
    v, c = env.vehicle, env.config
    lane = v.target_lane_index[2] if isinstance(v, ControlledVehicle) else v.lane_index[2]
    n = road_lanes(env, v.lane_index)
    lo, hi = c["reward_speed_range"]
    r = c["collision_reward"] * bool(v.crashed) + wt(env, "RIGHT_LANE_REWARD", .1) * lane / max(n - 1, 1) + wt(env, "HIGH_SPEED_REWARD", .4) * min(max(lmap(float(v.speed), lo, hi), 0), 1)
    if not on_road(env, v):
        ctx.count("offroad_zero")
        return 0., (0, 1)
    return lmap(r, c["collision_reward"], wt(env, "HIGH_SPEED_REWARD", .4) + wt(env, "RIGHT_LANE_REWARD", .1)), (0, 1)


def merge(ctx, env, action):
    v = env.vehicle
    crash, right, fast, slow = wt(env, "COLLISION_REWARD", -1.), wt(env, "RIGHT_LANE_REWARD", .1), wt(env, "HIGH_SPEED_REWARD", .2), wt(env, "MERGING_SPEED_REWARD", -.5)
    r = crash * bool(v.crashed) + right * v.lane_index[2] + fast * speed_idx(v, 20, 30, 3) / 2
    for w in env.road.vehicles:
        if tuple(w.lane_index) == ("b", "c", 2) and isinstance(w, ControlledVehicle):
            ctx.count("courtesy")
            r += slow * (w.target_speed - w.speed) / w.target_speed
    names = action_names(env.config)
    if names and names[action].startswith("LANE"):
        ctx.count("lane_change_actions")
        r += wt(env, "LANE_CHANGE_REWARD", -.05)
    return lmap(r, crash + slow, fast + right), (0, 1)


def roundabout(ctx, env, action):
    v = env.vehicle
    names = action_names(env.config)
    change = bool(names) and names[action].startswith("LANE")
    ctx.count("lane_change_actions", change)
    crash, fast, switch = wt(env, "COLLISION_REWARD", -1.), wt(env, "HIGH_SPEED_REWARD", .2), wt(env, "LANE_CHANGE_REWARD", -.05)
    r = crash * bool(v.crashed) + fast * speed_idx(v, 0, 16, 3) / 2 + switch * change
    return lmap(r, crash + switch, fast), (0, 1)


def intersection_agent(ctx, env, v):
    c = env.config
    r = c["collision_reward"] * bool(v.crashed) + wt(env, "HIGH_SPEED_REWARD", 1.) * (v.speed_index == 2)
    if arrived(env, v):
        ctx.count("arrived")
        r = wt(env, "ARRIVED_REWARD", 1.)
    return lmap(r, c["collision_reward"], wt(env, "ARRIVED_REWARD", 1.)) if c["normalize_reward"] else r


def intersection(ctx, env, action):
    rs = [intersection_agent(ctx, env, v) for v in env.controlled_vehicles]
    return sum(rs) / len(rs), (0, 1) if env.config["normalize_reward"] else None


def two_way(ctx, env, action):
    v = env.vehicle
    n = road_lanes(env, v.lane_index)
    lane = v.target_lane_index[2] if isinstance(v, ControlledVehicle) else v.lane_index[2]
    rng = (0, 1) if tuple(v.lane_index[:2]) == ("a", "b") else None
    return wt(env, "HIGH_SPEED_REWARD", .8) * speed_idx(v, 20, 30, 3) / 2 + wt(env, "LEFT_LANE_REWARD", .2) * (n - 1 - lane) / max(n - 1, 1), rng


def goal_term(env, v):
    g = env.goal
    a = np.array([v.position[0] / 100, v.position[1] / 100, 0, 0, math.cos(v.heading), math.sin(v.heading)])
    b = np.array([g.position[0] / 100, g.position[1] / 100, 0, 0, math.cos(g.heading), math.sin(g.heading)])
    return -math.sqrt(float(np.abs(a - b) @ np.array([1, .3, 0, 0, .02, .02])))


def parking(ctx, env, action):
    t = [goal_term(env, v) for v in env.controlled_vehicles]
    ctx.count("near_goal", any(x > -.3 for x in t))
    return sum(t), None


def summon(ctx, env, action):
    t = goal_term(env, env.vehicle)
    ctx.count("near_goal", t > -.3)
    return t + wt(env, "COLLISION_REWARD", -5.) * bool(env.vehicle.crashed), None


def lane_keeping(ctx, env, action):
    _, r = W.ref_local(env._hm_lane, env.vehicle.position)
    return 1 - (r / 10.) ** 2, None


FORMULA = {"highway": highway, "merge": merge, "roundabout": roundabout, "intersection": intersection, "multi-intersection": intersection,
           "parking": parking, "summon": summon, "two-way": two_way, "lane-keeping": lane_keeping}


def config(rng, name):
    c = W.random_env_config(rng, name)
    if name in ("merge", "two-way") and rng.rand() < .35:
        c["action"] = {"type": "ContinuousAction"}
        c["observation"] = {"type": "Kinematics"}
    if name == "merge" and c["action"]["type"] == "DiscreteMetaAction" and rng.rand() < .3:
        c["action"]["lateral" if rng.rand() < .5 else "longitudinal"] = False
    if name == "highway":
        c["collision_reward"] = float(rng.choice([-1, -1, -.2, -3., 0.]))
        if rng.rand() < .5:
            lo = float(rng.uniform(0, 25))
            c["reward_speed_range"] = [lo, lo + float(rng.uniform(2, 20))]
        c["duration"] = 40
    if name in ("intersection", "multi-intersection"):
        if rng.rand() < .5:
            c["collision_reward"] = float(rng.uniform(-8, -.5))
        c["duration"] = 13
    if name == "roundabout":
        c["duration"] = 20
    return c


def place(v, lane, idx, s, r, speed, dh=0.):
    v.position = np.array(W.ref_position(lane, s, r), dtype=float)
    v.heading = W.ref_heading(lane, s) + dh
    v.speed = speed
    v.on_state_update()
    if isinstance(v, ControlledVehicle):
        v.target_lane_index = v.lane_index


def relocate(rng, env, name):
    """Move vehicles to rarely visited places."""
    net = env.road.network
    v = env.controlled_vehicles[rng.randint(len(env.controlled_vehicles))]
    if name in ("parking", "summon"):
        g = env.goal
        d = float(rng.choice([0., .05, .5, 3.]))
        v.position = np.array(g.position, dtype=float) + rng.uniform(-d, d, 2)
        v.heading = float(g.heading) + float(rng.choice([0, 0, .1, math.pi, rng.uniform(-3, 3)]))
        v.speed = float(rng.choice([0., .1, 1., -1.]))
        v.on_state_update()
        return
    if name == "lane-keeping":
        lane = getattr(env, "_hm_lane", None) or env.lane
        v.position = np.array(W.ref_position(lane, rng.uniform(0, W.ref_length(lane)), rng.uniform(-6, 6)), dtype=float)
        v.on_state_update()
        return
    idxs = W.all_indexes(net)
    if name in ("intersection", "multi-intersection"):
        idxs = [i for i in idxs if i[1].startswith("o")] if rng.rand() < .7 else idxs
    idx = idxs[rng.randint(len(idxs))]
    lane = W.lane_of(net, idx)
    L = W.ref_length(lane)
    hi = min(L, 365.) if name == "merge" else L
    s = rng.uniform(0, hi)
    if name in ("intersection", "multi-intersection") and rng.rand() < .4:
        s = min(L, 25 + rng.uniform(-8, 2))
    off = float(rng.choice([0, 0, 1.5, -1.5, 3.5, -3.5, 8.]))
    top = 30 if name in ("highway", "merge", "two-way") else 9
    place(v, lane, idx, s, off, float(rng.choice([0., top / 2, top, 1.4 * top, rng.uniform(0, 1.5 * top)])), float(rng.choice([0, 0, .2, -.3])))
    if name == "merge" and rng.rand() < .7:
        w = env.road.vehicles[-1]
        i2 = ("b", "c", 2)
        place(w, W.lane_of(net, i2), i2, rng.uniform(0, 60), 0, float(rng.choice([0., 10., 20., 30., 35.])))
    if rng.rand() < .25 and len(env.road.vehicles) > 1:
        w = env.road.vehicles[rng.randint(len(env.road.vehicles))]
        if w is not v and not any(w is x for x in env.controlled_vehicles):
            w.position = v.position + rng.uniform(-3, 3, 2)
            w.on_state_update()


def episode(ctx, name, seed):
    rng = np.random.RandomState(seed)
    c = config(rng, name)
    env = W.make(name, c, seed=int(rng.randint(1 << 30)))
    pol = W.Policy(rng)
    if rng.rand() < .25:
        reweigh(ctx, rng, env, name)
    if name == "lane-keeping":
        lanes = [W.lane_of(env.road.network, ("c", "d", 0)), W.lane_of(env.road.network, ("a", "b", 0))]
        env._hm_lane = lanes.pop(0)
    base = {0: "episode", 1: "relocated"}
    for t in range(ctx.n(14, 30)):
        case = dict(env=name, config=c, seed=seed, step=t)
        with ctx.guard(case):
            if rng.rand() < .5:
                relocate(rng, env, name)
            if name == "merge" and t < 2:       # always meet the ramp: the ego alone on it, then a crash among stopped vehicles
                i2 = ("b", "c", 2)
                place(env.vehicle, W.lane_of(env.road.network, i2), i2, 20., 0, 30.)
                for k, w in enumerate(env.road.vehicles[1:]):
                    w.on_state_update()
                    if t == 1:
                        place(w, W.lane_of(env.road.network, i2), i2, 22. + 8 * k, 0, 0.)
            if name == "lane-keeping":
                p = env.vehicle.position
                on, m = W.ref_on_lane(env._hm_lane, p)
                if m < 1e-6:
                    return
                if lanes and not on:
                    env._hm_lane = lanes.pop(0)
                    ctx.count("lane_switches")
            if rng.rand() < .12:     # crashed earlier, often at rest by now
                for w in env.controlled_vehicles:
                    if rng.rand() < .7:
                        w.crashed = True
                        w.speed = float(rng.choice([0., 0., w.speed]))
            action = pol(env.action_space)
            _, rew, done, info = env.step(action)
            try:
                want, rng01 = FORMULA[name](ctx, env, action)
            except Marginal:
                ctx.count("marginal")
                break
            ctx.count("rewards")
            ctx.count(name)
            ctx.count("continuous", action_names(env.config) is None)
            ctx.count("crashed", bool(env.vehicle.crashed))
            ctx.count("crashed_at_rest", bool(env.vehicle.crashed and env.vehicle.speed == 0))
            if name in ("intersection", "multi-intersection"):
                ctx.count("crashed_arrived", int(any(v.crashed and arrived(env, v) for v in env.controlled_vehicles)))
            ctx.seen(name, round(float(rew), 6), t, seed)
            ctx.ok(np.isscalar(rew) or np.ndim(rew) == 0, "reward-shape:" + name, "the reward is not a number")
            ctx.close(float(rew), float(want), "reward:" + name, "reward differs from the documented function", tol=1e-6)
            if rng01 and not getattr(env, "_hm_weights", None):
                ctx.count("normalised_range")
                out = "above" if rew > 1 + 1e-9 else "below" if rew < -1e-9 else None
                where = ""
                if out and name == "merge":
                    where = ":ramp" if tuple(env.vehicle.lane_index) == ("b", "c", 2) or any(
                        tuple(w.lane_index) == ("b", "c", 2) for w in env.road.vehicles) else ""
                ctx.ok(out is None, "reward-range:%s:%s%s" % (name, out, where), "normalised reward %r outside [0, 1]" % float(rew))
            if "agents_rewards" in info:
                ar = info["agents_rewards"]
                ctx.ok(len(ar) == len(env.controlled_vehicles), "agents-rewards-length", "one reward per agent expected")
                for v, x in zip(env.controlled_vehicles, ar):
                    ctx.count("agents")
                    try:
                        ctx.close(float(x), float(intersection_agent(ctx, env, v)), "agent-reward:" + name, "per-agent reward", tol=1e-6)
                    except Marginal:
                        pass
            # what the same state is worth with / without a crash of the ego
            v = env.controlled_vehicles[rng.randint(len(env.controlled_vehicles))]
            real = v.crashed
            v.crashed = False
            free = env._reward(action)
            v.crashed = True
            crash = env._reward(action)
            v.crashed = real
            ctx.count("counterfactual")
            ctx.ok(float(crash) <= float(free) + 1e-9, "crash-profits:" + name, "the state is worth %r with a crash and %r without" % (crash, free))
            bad = env.controlled_vehicles
            for w in bad:
                w.crashed = False      # go on exploring after a crash
            if name in ("roundabout", "merge", "two-way", "highway") and not -1000 < env.vehicle.position[0] < 20000:
                return


def unit(ctx, name, quick):
    n = ctx.n(quick, quick * 8)
    for i in range(n):
        if ctx.out_of_time():
            break
        episode(ctx, name, ctx.rng.randint(1 << 30))


def units(tier):
    quick = {"highway": 26, "merge": 26, "roundabout": 20, "intersection": 12, "multi-intersection": 8, "parking": 22, "summon": 16, "two-way": 26,
             "lane-keeping": 30}
    return [("%s-%d" % (n, k), unit, dict(name=n, quick=q)) for n, q in quick.items() for k in range(2)]
