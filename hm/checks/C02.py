"""Deep copies of environments: lock-step comparison, isolation snapshots, and ownership of the reachable objects."""
import copy

import numpy as np

from hm import world as W
from highway_env.envs.common.abstract import AbstractEnv
from highway_env.envs.common.action import ActionType
from highway_env.envs.common.observation import ObservationType

RULE = ("environments with random supported configurations copied at random points of an episode (after reset, between steps, after a terminal step, copies of "
        "copies); a case is one copy, compared with its original over the following steps and under edits of either; distinct by the state copied")
REQUIRED = {"copies": 120, "lockstep_steps": 600, "isolation_checks": 600, "edits": 300, "owned_objects": 2000, "multi_agent": 15, "resets": 60, "generations": 60}


def state(env):
    d = W.snap(env)
    d["config"] = repr(sorted(env.config.items(), key=str))
    d["done"] = env.done
    d["goal"] = W.vstate(env.goal) if hasattr(env, "goal") else None
    d["network"] = [(f, t, i, tuple(np.ravel(getattr(l, "start", 0))), float(l.length), float(l.speed_limit or 0), bool(l.forbidden), float(l.width_at(0)))
                    for f, to in env.road.network.graph.items() for t, ls in to.items() for i, l in enumerate(ls)]
    d["extra"] = [(getattr(v, "COMFORT_ACC_MAX", None), getattr(v, "DISTANCE_WANTED", None), getattr(v, "SPEED_MAX", None), repr(getattr(v, "ACCELERATION_PARAMETERS", None)),
                   len(getattr(v, "data", None) or {})) for v in env.road.vehicles]
    return W.flat(d)


KEY = (W.Vehicle, W.Road, W.RoadNetwork, W.Obstacle, W.Landmark, AbstractEnv, ActionType, ObservationType, np.random.RandomState)


def reach(root):
    """live objects of the simulation reachable from an environment (attributes and containers)"""
    seen, out, todo = set(), {}, [root]
    keep = []
    while todo:
        o = todo.pop()
        if id(o) in seen or o is None or isinstance(o, (str, bytes, int, float, bool, type, np.generic)):
            continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, KEY):
            out[id(o)] = o
        if isinstance(o, dict):
            todo += list(o.values())
        elif isinstance(o, (list, tuple, set)) or type(o).__name__ == "deque":
            todo += list(o)
        elif hasattr(o, "__dict__") and not callable(o) and type(o).__module__.startswith("highway_env"):
            todo += list(vars(o).values())
    return out


def owned(ctx, env, other, what):
    a, b = reach(env), reach(other)
    ctx.count("owned_objects", len(a))
    shared = [a[i] for i in a if i in b]
    ctx.ok(not shared, "shared-object", "%s shares %s with the other environment" % (what, shared[:3]))
    for v in env.road.vehicles:
        ctx.ok(v.road is env.road, "vehicle-road", "%s: a vehicle refers to another road" % what)
    for v in env.controlled_vehicles:
        ctx.ok(v.road is env.road, "vehicle-road", "%s: a controlled vehicle refers to another road" % what)
    same = [any(w is v for w in env.road.vehicles) for v in env.controlled_vehicles]
    ref = [any(w is v for w in other.road.vehicles) for v in other.controlled_vehicles]
    ctx.ok(same == ref, "controlled", "%s: controlled vehicles on the road %s, in the other %s" % (what, same, ref))
    ctx.ok(env.observation_type.env is env and env.action_type.env is env, "types-env", "%s: observation or action type refers to another environment" % what)
    for kind, attr, who in ((env.observation_type, "agents_observation_types", "observer_vehicle"), (env.action_type, "agents_action_types", "controlled_vehicle")):
        if hasattr(kind, attr):
            ctx.count("multi_agent")
            got = [getattr(k, who) for k in getattr(kind, attr)]
            ctx.ok(len(got) == len(env.controlled_vehicles) and all(x is y for x, y in zip(got, env.controlled_vehicles)), "agents",
                   "%s: agents do not refer to its own controlled vehicles" % what)
        elif hasattr(kind, who):
            ctx.ok(getattr(kind, who) is env.vehicle, "agents", "%s: %s is not its own ego vehicle" % (what, who))
    ctx.ok(env.road.np_random is env.np_random, "generator", "%s: road and environment use different generators" % what)


def step(env, a):
    obs, r, done, info = env.step(copy.deepcopy(a))
    return (W.norm(obs), W.norm(r), W.norm(done), W.norm({k: v for k, v in info.items() if k != "action"}), state(env))


NAMES = ["observation", "reward", "done", "info", "state"]


def same_step(ctx, x, y, mech, msg):
    if x != y:
        k = next(i for i, (p, q) in enumerate(zip(x, y)) if p != q)
        ctx.fail(mech, "%s: %s" % (msg, W.first_diff(x[k], y[k], NAMES[k])))
        return False
    ctx.count("asserts")
    return True


def edit(rng, env):
    """a random edit of an environment, through its public objects"""
    k = rng.randint(9)
    vs = env.road.vehicles
    v = vs[rng.randint(len(vs))]
    if k == 0:
        v.position += rng.uniform(-3, 3, size=2)
    elif k == 1:
        v.speed = float(rng.uniform(0, 30))
    elif k == 2:
        env.road.vehicles.pop()
    elif k == 3:
        lane = env.road.network.lanes_list()[0]
        lane.forbidden = not lane.forbidden
    elif k == 4:
        env.config["duration"] = 1234
        env.config["observation"]["edited"] = True
    elif k == 5:
        env.np_random.rand(7)
    elif k == 6 and hasattr(v, "route") and v.route:
        v.route.pop(0)
    elif k == 7:
        v.action["steering"] = 0.123
        v.action["acceleration"] = -0.5
        v.crashed = True
    elif k == 8:
        env.road.network.add_lane("edited", "lane", W.StraightLane([0, 500], [10, 500]))
        env.time += 3
    return k


def run(ctx, name, count, before, after):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg = W.random_env_config(rng, name) if e else {}
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, config=cfg, seed=seed)):
            env = W.make(name, cfg, seed)
            pol = W.Policy(rng)
            done = False
            for t in range(int(rng.randint(0, before + 1))):
                _, _, done, _ = env.step(pol(env.action_space))
                if np.all(done):
                    break
            s0 = state(env)
            cp = copy.deepcopy(env)
            ctx.count("copies")
            ctx.seen(name, str(s0))
            d = W.first_diff(s0, state(cp), "copy")
            ctx.ok(d is None, "copy-differs", d)
            ctx.ok(W.first_diff(s0, state(env)) is None, "copying-changes", "copying changed the original: %s" % W.first_diff(s0, state(env)))
            owned(ctx, cp, env, "copy")
            owned(ctx, env, cp, "original")
            if e == 0:
                ctx.sample(env=name, vehicles=len(env.road.vehicles), reachable=len(reach(cp)))
            # the same actions, one environment after the other (each alone while the other is watched)
            first, second = (env, cp) if rng.rand() < .5 else (cp, env)
            acts, recs = [], []
            for t in range(after):
                a = pol(env.action_space)
                acts.append(a)
                recs.append(step(first, a))
                ctx.count("isolation_checks")
                d = W.first_diff(s0, state(second), "other")
                if not ctx.ok(d is None, "step-isolation", "stepping one environment changed the other: %s" % d):
                    break
                if np.all(first._is_terminal()):
                    break
            end = state(first)
            cp2 = copy.deepcopy(second)
            for a, r in zip(acts, recs):
                ctx.count("lockstep_steps")
                if not same_step(ctx, r, step(second, a), "lockstep", "the copy and the original evolve differently under the same actions"):
                    break
            ctx.ok(W.first_diff(end, state(first)) is None, "step-isolation", "stepping one environment changed the other: %s" % W.first_diff(end, state(first)))
            # copy of a copy: still the same future
            ctx.count("generations")
            owned(ctx, cp2, second, "copy of a copy")
            if acts:
                same_step(ctx, recs[0], step(cp2, acts[0]), "lockstep", "a copy of a copy evolves differently")
            # edits and resets of one never show in the other
            for t in range(4):
                x, y = (env, cp) if rng.rand() < .5 else (cp, env)
                s = state(y)
                if len(x.road.vehicles) < 2:
                    break
                k = edit(rng, x)
                ctx.count("edits")
                d = W.first_diff(s, state(y), "other")
                ctx.ok(d is None, "edit-isolation", "edit %d of one environment shows in the other: %s" % (k, d))
            x, y = (env, cp2) if rng.rand() < .5 else (cp2, env)
            s = state(y)
            x.seed(int(rng.randint(1 << 30)))
            x.reset()
            ctx.count("resets")
            d = W.first_diff(s, state(y), "other")
            ctx.ok(d is None, "reset-isolation", "resetting one environment changed the other: %s" % d)


def units(tier):
    k = 8 if tier == "thorough" else 1
    per = {"highway": (10, 3, 3), "merge": (12, 6, 5), "roundabout": (12, 5, 4), "intersection": (8, 4, 3), "multi-intersection": (8, 4, 3),
           "parking": (14, 10, 6), "summon": (10, 8, 5), "two-way": (14, 6, 5), "lane-keeping": (14, 20, 8)}
    return [("%s-%d" % (name, i), run, dict(name=name, count=n, before=b, after=a)) for name, (n, b, a) in per.items() for i in range(2 * k)]
