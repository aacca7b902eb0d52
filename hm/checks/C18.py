"""Continuous actions: the command each agent holds at every simulation frame against the linear map of its action."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import Vehicle, BicycleVehicle

RULE = ("episodes of every environment that takes continuous actions (highway, merge, roundabout, two-way, parking, summon, lane-keeping, "
        "multi-agent parking, highway, merge), with default and random asymmetric ranges, each axis disabled in turn, clipping on and off, the "
        "dynamical option, actions inside, at the bounds of, outside the unit box and in several array types; plus direct calls of the action "
        "type; a case is one (configuration, action, agent); distinct by configuration and action")
REQUIRED = {"residual": 300, "commands": 3000, "frames_held": 6000, "throttle_only": 300, "steering_only": 300, "both": 800, "outside_clipped": 120,
            "outside_extrapolated": 100, "dynamical": 300, "multi": 300, "zeros": 200, "custom_ranges": 500, "default_ranges": 300, "motion": 500, "beside_crashed": 200}
A0, S0 = (-5., 5.), (-math.pi / 4, math.pi / 4)


def lmap(x, r):
    return r[0] + (x + 1.) * (r[1] - r[0]) / 2.


def expected(cfg, a):
    lon, lat, clip = cfg.get("longitudinal", True), cfg.get("lateral", True), cfg.get("clip", True)
    ar = cfg.get("acceleration_range") or A0
    sr = cfg.get("steering_range") or S0
    a = [float(x) for x in np.ravel(a)]
    if clip:
        a = [min(max(x, -1.), 1.) for x in a]
    if lon and lat:
        return lmap(a[0], ar), lmap(a[1], sr)
    return (lmap(a[0], ar), 0.) if lon else (0., lmap(a[0], sr))


def random_cfg(rng, dynamical_ok=True):
    c = {"type": "ContinuousAction"}
    if rng.rand() < .6:
        c["acceleration_range"] = [float(rng.uniform(-8, 0)), float(rng.uniform(.5, 8))]
    if rng.rand() < .6:
        c["steering_range"] = [float(rng.uniform(-1, 0)), float(rng.uniform(.1, 1))]
    r = rng.rand()
    if r < .25:
        c["lateral"] = False
    elif r < .5:
        c["longitudinal"] = False
    elif r < .6:
        c["lateral"] = c["longitudinal"] = True
    if rng.rand() < .5:
        c["clip"] = bool(rng.rand() < .4)
    if dynamical_ok and rng.rand() < .25:
        c["dynamical"] = True
    return c


def random_a(rng, n, far=1.):
    k = rng.randint(6)
    a = rng.uniform(-1, 1, size=n)
    if k == 0:
        a = np.sign(a)
    elif k == 1:
        a = rng.uniform(-3, 3, size=n) * (far if rng.rand() < .5 else 1.)
    elif k == 2:
        a = a * .05
    elif k == 3:
        a = a * 0
    t = rng.randint(3)
    return a.astype(np.float32) if t == 0 else a.astype(float) if t == 1 else a


def note(ctx, cfg, a, multi):
    ctx.count("commands")
    lon, lat = cfg.get("longitudinal", True), cfg.get("lateral", True)
    ctx.count("both" if lon and lat else "throttle_only" if lon else "steering_only")
    out = bool(np.max(np.abs(a)) > 1)
    ctx.count("outside_clipped" if cfg.get("clip", True) else "outside_extrapolated", int(out))
    ctx.count("zeros", int(not np.any(a)))
    ctx.count("dynamical", int(cfg.get("dynamical", False)))
    ctx.count("multi", int(multi))
    ctx.count("custom_ranges" if cfg.get("acceleration_range") or cfg.get("steering_range") else "default_ranges")
    ctx.seen(sorted(cfg.items(), key=str), np.asarray(a, dtype=float))


def command(v):
    return float(np.squeeze(v.action["acceleration"])), float(np.squeeze(v.action["steering"]))


def episodes(ctx, name, runs, steps):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        # the dynamical vehicle offers no velocity to interpret; observed only by attributes in this package
        cfg = random_cfg(rng, dynamical_ok=name in ("highway", "lane-keeping", "merge", "two-way"))
        agents = int(rng.randint(2, 4)) if name in ("highway", "parking") and rng.rand() < .5 else 1
        c = {"action": cfg}
        if name == "lane-keeping":
            c["action"] = cfg = dict(cfg, dynamical=True)
        if name == "highway":
            c.update(vehicles_count=int(rng.randint(0, 4)), lanes_count=4, initial_spacing=4)
        if name == "summon":
            c.update(vehicles_count=int(rng.randint(0, 6)))
        if agents > 1:
            c["controlled_vehicles"] = agents
            c["action"] = {"type": "MultiAgentAction", "action_config": cfg}
            if name == "parking":
                c["observation"] = {"type": "MultiAgentObservation", "observation_config": {
                    "type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'], "scales": [100, 100, 5, 5, 1, 1],
                    "normalize": False}}
            else:
                c["observation"] = {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}}
        elif name not in ("parking", "summon", "lane-keeping"):
            c["observation"] = {"type": "Kinematics"}
        f = int(rng.choice([5, 10, 15]))
        c.update(simulation_frequency=f, policy_frequency=int(rng.choice([1, 2, 5])))
        with ctx.guard(dict(env=name, config=c, run=k)):
            env = W.make(name, c, seed=int(rng.randint(1 << 30)))
            want_cls = BicycleVehicle if cfg.get("dynamical") else Vehicle
            n = 2 if cfg.get("longitudinal", True) and cfg.get("lateral", True) else 1
            for v in env.controlled_vehicles:
                ctx.ok(type(v) is want_cls, "vehicle-class", "the agent's vehicle is not of the configured kind", got=type(v).__name__)
            ctx.ok(len(env.controlled_vehicles) == agents, "agents", "number of agents")
            for sp in (env.action_space.spaces if agents > 1 else [env.action_space]):
                ctx.ok(sp.shape == (n,) and np.all(sp.low == -1) and np.all(sp.high == 1), "space", "action space %s for %d enabled axes" % (sp, n))
            state = {}

            def after_act():
                state["frame"] += 1
                for i, v in enumerate(env.controlled_vehicles):
                    if v.crashed or abs(float(v.speed)) > v.MAX_SPEED or not state["ok"][i]:
                        state["ok"][i] = False  # the limiter takes over until the next decision
                        continue
                    acc, steer = command(v)
                    ctx.count("frames_held")
                    e = state["want"][i]
                    if cfg.get("dynamical") and state["frame"] > 1:  # that model limits the wheel angle when it steps
                        e = (e[0], min(max(e[1], -math.pi / 2), math.pi / 2))
                    ctx.close([acc, steer], e, "command", "agent %d at frame %d does not execute the mapped action" % (i, state["frame"]),
                              tol=1e-5, action=state["a"][i])

            def before_step(dt):
                state["speeds"] = [float(np.squeeze(v.speed)) for v in env.controlled_vehicles]

            def after_step(dt):
                for i, v in enumerate(env.controlled_vehicles):
                    if state["ok"][i] and not v.crashed and type(v) is Vehicle:
                        ctx.count("motion")
                        ctx.close(float(v.speed), state["speeds"][i] + dt * state["want"][i][0], "motion",
                                  "the agent's speed does not change by its commanded acceleration", tol=1e-5)

            W.tap(env.road, after_act=after_act, before_step=before_step, after_step=after_step)
            for t in range(steps):
                acts = [random_a(rng, n, 15. if cfg.get('clip', True) else 1.) for _ in range(agents)]
                keep = [np.array(a) for a in acts]
                state.update(frame=0, a=acts, want=[expected(cfg, a) for a in acts], ok=[True] * agents)
                for a in acts:
                    note(ctx, cfg, a, agents > 1)
                for v in env.controlled_vehicles:  # whatever it was doing before
                    if rng.rand() < .2 and not v.crashed:
                        v.action = {"steering": float(rng.uniform(-.5, .5)), "acceleration": float(rng.uniform(-4, 4))}
                        ctx.count("residual")
                for v in env.controlled_vehicles:  # keep inside the speed limits, whose limiter is not the point
                    if abs(float(np.squeeze(v.speed))) > 28 and not cfg.get("dynamical"):
                        v.speed = 20. * np.sign(v.speed)
                r = env.step(tuple(acts) if agents > 1 else acts[0])
                ctx.ok(state["frame"] >= 1, "not-simulated", "a step simulated no frame")
                for a, b in zip(acts, keep):
                    ctx.ok(np.array_equal(a, b), "action-mutated", "the caller's action array was modified")
                if np.all(r[2]):
                    break


class StubEnv:
    def __init__(self, vehicle):
        self.vehicle = vehicle
        self.controlled_vehicles = [vehicle]


def direct(ctx, count):
    from highway_env.envs.common.action import action_factory
    from highway_env import utils
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            return
        cfg = random_cfg(rng)
        agents = int(rng.randint(1, 4))
        from hm.world import Road
        net = W.straight_net()
        road = Road(net, np_random=np.random.RandomState(0))
        vs = [Vehicle(road, [20. * i, 0.], 0., 10.) for i in range(agents)]
        env = StubEnv(vs[0])
        env.controlled_vehicles = vs
        multi = agents > 1
        at = action_factory(env, {"type": "MultiAgentAction", "action_config": cfg} if multi else cfg)
        n = 2 if cfg.get("longitudinal", True) and cfg.get("lateral", True) else 1
        with ctx.guard(dict(cfg=cfg, agents=agents, k=k)):
            ctx.ok(at.vehicle_class is (BicycleVehicle if cfg.get("dynamical") else Vehicle), "vehicle-class", "vehicle class of the action type")
            for k2 in range(6):
                if k2 == 3:  # an agent that crashed does not take part in the others' commands
                    for v in vs:
                        v.crashed = bool(rng.rand() < .4)
                acts = [random_a(rng, n, 10 ** rng.uniform(0, 6)) for _ in range(agents)]
                at.act(tuple(acts) if multi else acts[0])
                for v, a in zip(vs, acts):
                    note(ctx, cfg, a, multi)
                    if v.crashed:
                        continue
                    ctx.count("beside_crashed", int(any(w.crashed for w in vs)))
                    ctx.close(command(v), expected(cfg, a), "command", "the agent does not execute the mapped action", tol=1e-5, action=a)
                # held: act() without an action keeps the command
                for v, a in zip(vs, acts):
                    if v.crashed:
                        continue
                    v.act()
                    v.act(None)
                    ctx.close(command(v), expected(cfg, a), "command-held", "acting without an action changes the command", tol=1e-5)
            x, r1, r2 = float(rng.uniform(-10, 10)), np.sort(rng.uniform(-10, 10, size=2)), rng.uniform(-10, 10, size=2)
            if r1[1] - r1[0] > 1e-3:
                u = (x - r1[0]) / (r1[1] - r1[0])
                ctx.close(utils.lmap(x, r1, r2), (1 - u) * r2[0] + u * r2[1], "lmap", "linear map", tol=1e-6)
    with ctx.guard(dict(both_axes="off")):
        try:
            action_factory(StubEnv(None), {"type": "ContinuousAction", "lateral": False, "longitudinal": False})
            ctx.fail("no-axis", "an action type without any axis was accepted")
        except ValueError:
            pass


def units(tier):
    q = tier == "quick"
    u = []
    for name, k, steps in (("highway", 10, 6), ("merge", 7, 8), ("roundabout", 4, 6), ("two-way", 7, 8), ("parking", 9, 12), ("summon", 6, 10), ("lane-keeping", 12, 20)):
        for j in range(1 if q else 5):
            u.append(("episodes-%s-%d" % (name, j), episodes, dict(name=name, runs=3 * k if q else 10 * k, steps=steps if q else 2 * steps)))
    for j in range(1 if q else 6):
        u.append(("direct-%d" % j, direct, dict(count=300 if q else 3000)))
    return u
