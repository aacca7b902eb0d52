"""Scenario transformations: before/after monitors of the original, and of every vehicle of the result."""
import copy
import math

import numpy as np

from hm import world as W
from hm.checks.C02 import state, owned
from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
from hm.world import ControlledVehicle, IDMVehicle, LinearVehicle, MDPVehicle, Vehicle

RULE = ("environments with traffic, at random points of an episode, transformed by every transformation with random arguments; a case is one application, with the original compared before and "
        "after and every vehicle of the result compared with its source; distinct by transformation, arguments and state")
REQUIRED = {"simplify": 60, "removed": 40, "change_vehicles": 60, "set_preferred_lane": 60, "set_route_at_intersection": 60, "rerouted": 40, "set_vehicle_field": 60,
            "call_vehicle_method": 60, "randomize_behaviour": 60, "randomized": 30, "stepped": 300, "vehicles_compared": 2000, "zero_target": 5, "zero_timer": 5, "plain_converted": 5, "replaced": 20, "several_agents": 10, "crowds": 8}
PERCEPTION = 180.
CONSTANTS = ("ACCELERATION_PARAMETERS", "STEERING_PARAMETERS", "LANE_CHANGE_MAX_BRAKING_IMPOSED", "COMFORT_ACC_MAX", "COMFORT_ACC_MIN", "DISTANCE_WANTED", "POLITENESS", "TIME_WANTED",
             "LANE_CHANGE_DELAY", "LANE_CHANGE_MIN_ACC_GAIN", "SPEED_MAX", "SPEED_MIN", "MAX_SPEED", "COLLISIONS_ENABLED", "LENGTH", "WIDTH")
CLASSES = (Vehicle, ControlledVehicle, MDPVehicle, IDMVehicle, LinearVehicle, W.AggressiveVehicle, W.DefensiveVehicle)


def vfull(v, skip=()):
    d = W.vstate(v)
    d["params"] = {k: repr(getattr(v, k, None)) for k in ("ACCELERATION_PARAMETERS", "STEERING_PARAMETERS", "LANE_CHANGE_MAX_BRAKING_IMPOSED", "COMFORT_ACC_MAX",
                                                        "DISTANCE_WANTED", "POLITENESS", "TIME_WANTED", "SPEED_MAX", "SPEED_MIN", "MAX_SPEED", "COLLISIONS_ENABLED")}
    d["data"] = repr(getattr(v, "data", None))
    for k in skip:
        d.pop(k, None)
        d["params"].pop(k, None)
    return d


def drivers(env):
    """Parameters of every vehicle of the environment, and those that vehicles created from now on will get."""
    return [vfull(v) for v in env.road.vehicles], [{k: repr(getattr(c, k, None)) for k in CONSTANTS} for c in CLASSES]


def ego_same(ctx, env, res, skip=()):
    i = [k for k, v in enumerate(res.road.vehicles) if v is res.vehicle]
    ctx.ok(len(i) == 1, "ego-lost", "the ego vehicle appears %d times on the road of the result" % len(i))
    d = W.first_diff(vfull(env.vehicle, skip), vfull(res.vehicle, skip), "ego")
    ctx.ok(d is None, "ego-changed", d)


def others(env):
    return [v for v in env.road.vehicles if v is not env.vehicle]


def pairs(ctx, env, res):
    a, b = env.road.vehicles, res.road.vehicles
    if not ctx.ok(len(a) == len(b), "vehicle-count", "%d vehicles became %d" % (len(a), len(b))):
        return []
    return [(x, y) for x, y in zip(a, b) if x is not env.vehicle]


def unchanged(ctx, env, res, skip=(), objects=True):
    for x, y in pairs(ctx, env, res):
        ctx.count("vehicles_compared")
        d = W.first_diff(vfull(x, skip), vfull(y, skip), "vehicle")
        ctx.ok(d is None, "unrelated-edit", d)


def simplify(ctx, env, rng):
    res = env.simplify()
    exp, marginal = [], False
    for v in others(env):
        d = math.hypot(v.position[0] - env.vehicle.position[0], v.position[1] - env.vehicle.position[1])
        marginal |= abs(d - PERCEPTION) < 1e-6
        if d < PERCEPTION:
            exp.append(v)
        else:
            ctx.count("removed")
    if not marginal:
        key = lambda v: repr(sorted(vfull(v).items(), key=str))  # noqa
        got = sorted(key(v) for v in others(res))
        ctx.ok(got == sorted(key(v) for v in exp), "simplify", "%d vehicles kept instead of the %d within perception distance" % (len(got), len(exp)))
        ctx.ok([W.vstate(o) for o in res.road.objects] == [W.vstate(o) for o in env.road.objects], "simplify-objects", "objects changed")
    return res, ()


def change_vehicles(ctx, env, rng):
    path = str(rng.choice(W.TRAFFIC + ["highway_env.vehicle.controller.ControlledVehicle", "highway_env.vehicle.controller.MDPVehicle"]))
    cls = {p.rsplit(".", 1)[1]: c for p, c in ((W.IDM, IDMVehicle), (W.LINEAR, LinearVehicle), (W.AGGRESSIVE, W.AggressiveVehicle), (W.DEFENSIVE, W.DefensiveVehicle),
                                              ("x.ControlledVehicle", ControlledVehicle), ("x.MDPVehicle", MDPVehicle))}[path.rsplit(".", 1)[1]]
    ctx.case["type"] = path
    res = env.change_vehicles(path)
    for x, y in pairs(ctx, env, res):
        ctx.count("vehicles_compared")
        ctx.ok(type(y) is cls, "change-type", "%s became %s instead of %s" % (type(x).__name__, type(y).__name__, cls.__name__))
        a, b = W.vstate(x), W.vstate(y)
        keys = ["x", "y", "heading", "speed"]
        if isinstance(x, ControlledVehicle):
            keys += ["target_lane_index", "route"] + ([] if cls is MDPVehicle else ["target_speed"])
            ctx.count("zero_target", int(a["target_speed"] == 0 and a["speed"] != 0))
            if isinstance(x, IDMVehicle) and issubclass(cls, IDMVehicle):
                keys.append("timer")
                ctx.count("zero_timer", int(x.timer == 0))
        else:
            ctx.count("plain_converted")
        for k in keys:
            ctx.ok(W.first_diff(a.get(k), b.get(k)) is None, "change-" + k, "%s of a converted vehicle: %s became %s" % (k, a.get(k), b.get(k)))
        ctx.ok(y.road is res.road, "change-road", "a converted vehicle refers to another road")
    return res, ()


def set_preferred_lane(ctx, env, rng):
    k = int(rng.randint(0, 3))
    ctx.case["lane"] = k
    res = env.set_preferred_lane(k)
    for x, y in pairs(ctx, env, res):
        ctx.count("vehicles_compared")
        if isinstance(x, IDMVehicle):
            ctx.ok(bool(y.route) and all(r[2] == k for r in y.route), "preferred-lane", "route %s of a vehicle that should prefer lane %d" % (y.route, k))
            if x.route:
                ctx.ok([r[:2] for r in x.route] == [r[:2] for r in y.route], "preferred-roads", "the roads of the route changed: %s -> %s" % (x.route, y.route))
            ctx.ok(y.LANE_CHANGE_MAX_BRAKING_IMPOSED == 1000, "preferred-cautious", "braking limit %s" % y.LANE_CHANGE_MAX_BRAKING_IMPOSED)
        d = W.first_diff(vfull(x, ("route", "LANE_CHANGE_MAX_BRAKING_IMPOSED")), vfull(y, ("route", "LANE_CHANGE_MAX_BRAKING_IMPOSED")))
        ctx.ok(d is None, "unrelated-edit", d)
    return res, ("no-step",) if any(len(to) <= k for f in env.road.network.graph.values() for to in f.values()) else ()


def ref_routes(net, route):
    """the routes through the next junction (first of the next three roads that ends in several roads)"""
    if not route:
        return None
    for i in range(min(len(route), 3)):
        nxt = list(net.graph.get(route[i][1], {}))
        if len(nxt) >= 2:
            return [[tuple(r[:2]) for r in route[:i + 1]] + [(route[i][1], d)] for d in nxt]
    return [[tuple(r[:2]) for r in route]]


def set_route_at_intersection(ctx, env, rng):
    k = "random" if rng.rand() < .3 else int(rng.randint(0, 7))
    ctx.case["to"] = k
    res = env.set_route_at_intersection(k)
    for x, y in pairs(ctx, env, res):
        ctx.count("vehicles_compared")
        exp = ref_routes(env.road.network, x.route) if isinstance(x, IDMVehicle) else None
        if exp:
            got = [tuple(r[:2]) for r in y.route]
            ctx.count("rerouted", int(len(exp) > 1))
            if k == "random":
                ctx.ok(got in exp, "route-random", "route %s is none of those possible at the next intersection %s" % (got, exp))
            else:
                ctx.ok(got == exp[k % len(exp)], "route", "route %s instead of %s" % (got, exp[k % len(exp)]))
        else:
            ctx.ok(W.first_diff(getattr(x, "route", None), getattr(y, "route", None)) is None, "route-kept", "route %s became %s" % (getattr(x, "route", None), getattr(y, "route", None)))
        d = W.first_diff(vfull(x, ("route",)), vfull(y, ("route",)))
        ctx.ok(d is None, "unrelated-edit", d)
    return res, ()


def set_vehicle_field(ctx, env, rng):
    field, value = [("target_speed", 7.25), ("crashed", True), ("POLITENESS", 0.625), ("COLLISIONS_ENABLED", False), ("speed", 3.5), ("MAX_SPEED", 11.), ("hm_new_field", "x"),
                    ("enable_lane_change", False)][rng.randint(8)]
    ctx.case["field"] = field
    res = env.set_vehicle_field((field, value))
    for x, y in pairs(ctx, env, res):
        ctx.count("vehicles_compared")
        got = getattr(y, field, "nothing")
        ctx.ok(got == value, "field-missing", "%s = %s on a %s instead of %s" % (field, got, type(y).__name__, value))
        ctx.ok(W.first_diff(vfull(x, (field,)), vfull(y, (field,))) is None, "unrelated-edit", str(W.first_diff(vfull(x, (field,)), vfull(y, (field,)))))
    return res, ()


def call_vehicle_method(ctx, env, rng):
    nodes = sorted(set(env.road.network.graph) | {t for f in env.road.network.graph.values() for t in f})
    method, args = [("plan_route_to", (str(rng.choice(nodes)),)), ("randomize_behavior", ()), ("set_route_at_intersection", (1,))][rng.randint(3)]
    notes = ("ego-changed",)
    if rng.rand() < .5:
        # a method that returns a vehicle, which takes the place of the one it was called on
        env, method, args, notes = multi_model(env), "assume_model_is_valid", (int(rng.randint(2)),), ("source-changed",)
        ctx.count("replaced", sum(hasattr(v, method) for v in env.road.vehicles))
    ctx.case["method"] = [method, args]
    ref = copy.deepcopy(env)
    for i, v in enumerate(ref.road.vehicles):
        if hasattr(v, method):
            r = getattr(v, method)(*args)
            if isinstance(r, Vehicle):
                ref.road.vehicles[i] = r
    before = state(env)
    res = env.call_vehicle_method((method, args))
    ctx.ok(W.first_diff(before, state(env)) is None, "original-changed", "calling %s on the vehicles changed the original: %s" % (method, W.first_diff(before, state(env))))
    for x, y in zip(ref.road.vehicles, res.road.vehicles):
        ctx.count("vehicles_compared")
        d = W.first_diff(vfull(x), vfull(y)) if isinstance(y, Vehicle) else "a vehicle became %r" % (y,)
        d = d or (None if type(x) is type(y) else "a %s instead of a %s" % (type(y).__name__, type(x).__name__))
        ctx.ok(d is None, "method", "calling %s on the vehicles of a copy: %s" % (method, d))
    ctx.ok(len(ref.road.vehicles) == len(res.road.vehicles), "vehicle-count", "vehicles lost")
    ctx.ok(all(v.road is res.road for v in res.road.vehicles), "method-road", "a vehicle refers to another road")
    return res, notes


def multi_model(env):
    res = copy.deepcopy(env)
    vs = res.road.vehicles
    for i, v in enumerate(vs):
        if v is not res.vehicle:
            vs[i] = MultipleModelVehicle.create_from(v)
            vs[i].data = [([tuple(v.lane_index)] + [tuple(r) for r in (getattr(v, "route", None) or [])[1:]], {}) for _ in range(2)]
    return res


def randomize_behaviour(ctx, env, rng):
    res = env.randomize_behaviour()
    for x, y in pairs(ctx, env, res):
        ctx.count("vehicles_compared")
        if isinstance(x, LinearVehicle):
            ctx.count("randomized")
            for p, r in (("ACCELERATION_PARAMETERS", "ACCELERATION_RANGE"), ("STEERING_PARAMETERS", "STEERING_RANGE")):
                lo, hi = np.array(getattr(LinearVehicle, r))
                got = np.array(getattr(y, p))
                ctx.ok(np.all(got >= lo - 1e-9) and np.all(got <= hi + 1e-9), "random-range", "%s = %s outside %s" % (p, got, [lo, hi]))
                ctx.ok(np.any(got != np.array(getattr(x, p))), "random-same", "%s was not randomised" % p)
        skip = ("ACCELERATION_PARAMETERS", "STEERING_PARAMETERS")
        ctx.ok(W.first_diff(vfull(x, skip), vfull(y, skip)) is None, "unrelated-edit", str(W.first_diff(vfull(x, skip), vfull(y, skip))))
    return res, ()


ALL = dict(simplify=simplify, change_vehicles=change_vehicles, set_preferred_lane=set_preferred_lane, set_route_at_intersection=set_route_at_intersection,
           set_vehicle_field=set_vehicle_field, call_vehicle_method=call_vehicle_method, randomize_behaviour=randomize_behaviour)


def crowd(ctx, env, rng):
    """Many vehicles near the ego vehicle, or far away, some of them stopped or crashed."""
    for v in others(env):
        v.crashed = bool(rng.rand() < .2)
        if rng.rand() < .2:
            v.speed = 0.
    if isinstance(env.vehicle, MDPVehicle) and env.road.network.lanes_list():
        n = int(rng.choice([5, 45]))
        for k in range(n):
            cls = [IDMVehicle, LinearVehicle, ControlledVehicle if hasattr(env.road, "enforce_road_rules") else Vehicle][rng.randint(3)]
            env.road.vehicles.append(cls(env.road, env.vehicle.position + rng.uniform(-1, 1, size=2) * [rng.choice([60., 250.]), 10.], float(env.vehicle.heading), float(rng.uniform(0, 30))))
        ctx.count("crowds", n > 30)


def run(ctx, name, count, before):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg = W.random_env_config(rng, name)
        if name == "highway" and rng.rand() < .6:
            cfg.update(vehicles_count=[8, 8, 8, 1, 0][rng.randint(5)], vehicles_density=.4)
        if "controlled_vehicles" in cfg and name != "multi-intersection":
            continue
        seed = int(rng.randint(1 << 30))
        env = None
        with ctx.guard(dict(env=name, config=cfg, seed=seed)):
            env = W.make(name, cfg, seed)
            for t in range(int(rng.randint(0, before + 1))):
                _, _, done, _ = env.step(W.sample_action(env.action_space, rng))
                if np.all(done):
                    break
        if env is None:
            continue
        if rng.rand() < .35:
            crowd(ctx, env, rng)
        for v in others(env):
            if name != "merge" and rng.rand() < .2 and isinstance(v, ControlledVehicle) and not isinstance(v, MDPVehicle):
                v.target_speed = 0
            if rng.rand() < .2 and isinstance(v, IDMVehicle):
                v.timer = 0                                            # it has just decided
        if e == 0:
            ctx.sample(env=name, vehicles=len(env.road.vehicles))
        for tr, fn in ALL.items():
            if name in ("summon",) and tr in ("set_preferred_lane",):
                continue
            with ctx.guard(dict(env=name, config=cfg, seed=seed, transformation=tr)):
                s, par = state(env), drivers(env)
                res, notes = fn(ctx, env, rng)
                ctx.count(tr)
                ctx.seen(tr, str(ctx.case), str(s))
                d = W.first_diff(s, state(env))
                ctx.ok(d is None, "original-changed", "%s changed the original: %s" % (tr, d))
                d = W.first_diff(par, drivers(env), "drivers")
                ctx.ok(d is None, "original-drivers", "%s changed the parameters of the original's drivers or of their classes: %s" % (tr, d))
                ctx.ok(res is not env, "not-a-copy", "%s returned the environment itself" % tr)
                if name != "multi-intersection":
                    owned(ctx, res, env, "result of " + tr)
                elif tr in ("change_vehicles", "call_vehicle_method"):
                    notes += ("no-step",)  # the other agents' vehicles may have been replaced
                ctx.count("several_agents", int(len(env.controlled_vehicles) > 1))
                if "source-changed" in notes:
                    continue
                if "ego-changed" not in notes:
                    ego_same(ctx, env, res)
                ctx.ok(res.time == env.time and res.steps == env.steps, "clock", "time or steps changed")
                if "no-step" not in notes:
                    for _ in range(2):
                        res.step(W.sample_action(res.action_space, rng))
                        ctx.count("stepped")
                    d = W.first_diff(s, state(env))
                    ctx.ok(d is None, "original-changed", "stepping the result of %s changed the original: %s" % (tr, d))


def units(tier):
    k = 8 if tier == "thorough" else 1
    per = {"highway": (10, 3), "merge": (8, 6), "roundabout": (8, 6), "intersection": (8, 6), "summon": (5, 6), "two-way": (8, 5), "multi-intersection": (6, 4)}
    return [("%s-%d" % (name, i), run, dict(name=name, count=n, before=b)) for name, (n, b) in per.items() for i in range(2 * k)]
