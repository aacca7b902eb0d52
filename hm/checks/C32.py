"""Predicted trajectories compared with the executed ones, and constant-speed predictions with a walk along the route."""
import copy
import math
from fractions import Fraction

import numpy as np

from hm import world as W
from hm.world import ControlledVehicle, MDPVehicle, IDMVehicle, Vehicle
from highway_env.road.road import Road

RULE = ("predictions of random meta-action sequences (0 to 8 actions, every simulation and policy frequency, sampling periods from one frame to more than the horizon) in every meta-action environment and on "
        "straight, chained and environment road networks, at random moments of drives, executed afterwards on a copy; constant-speed predictions of every driver met, over up to 20 s; distinct by scene and sequence")
REQUIRED = {"predictions": 250, "executed_frames": 3000, "states": 1500, "env_executions": 40, "lane_changes": 40, "speed_changes": 80, "road_changes": 5, "subsampled": 60, "unchanged": 250,
            "constant_speed": 1500, "poses": 10000, "next_road": 1500, "pending_switch": 10, "lane_unspecified": 100, "no_route": 200, "stopped_or_backwards": 20, "fractional": 4}
META = ["FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT", "IDLE"]


def floor_ratio(a, b):
    """frames of b in a, for durations given as fractions"""
    return int(Fraction(a) / Fraction(b))


def random_actions(rng):
    n = int(rng.choice([0, 1, 2, 3, 5, 8], p=[.05, .15, .25, .25, .2, .1]))
    return [META[int(rng.randint(5))] for _ in range(n)]


def comparable(v):
    d = W.vstate(v)
    return d


def predict(ctx, env_or_road, v, actions, duration, period, dt, exact):
    """Take a prediction and check that nothing moved. exact: the same three as fractions. -> expected (frames per action, sampling)."""
    road = v.road
    before = scene(road)
    rng0 = W.rng_state(road.np_random)
    states = v.predict_trajectory(actions, duration, period, dt)
    ctx.count("predictions")
    d = W.first_diff(before, scene(road))
    ctx.ok(d is None, "alters", "predicting changed the scene: %s" % d)
    ctx.ok(W.rng_state(road.np_random) == rng0, "alters", "predicting drew random numbers from the road")
    ctx.count("unchanged")
    frames, every = floor_ratio(exact[0], exact[2]), max(floor_ratio(exact[1], exact[2]), 1)
    ctx.ok(len(states) == frames * len(actions) // every, "count", "%d states instead of %d (%s actions of %s s, every %s s, time step %s s)" % (
        len(states), frames * len(actions) // every, len(actions), duration, period, dt))
    ctx.ok(all(s is not v and s.road is not road for s in states) and len({id(s) for s in states}) == len(states), "alias", "predicted states are not separate copies")
    return states, frames, every


def scene(road):
    return W.norm(dict(vehicles=[W.vstate(v) for v in road.vehicles], objects=[W.vstate(o) for o in road.objects], lists=[len(road.vehicles), len(road.objects)]))


def compare(ctx, states, executed, every, label):
    for k, s in enumerate(states):
        i = (k + 1) * every - 1
        if i >= len(executed) or executed[i] is None:
            break
        ctx.count("states")
        a, b = comparable(s), executed[i]
        d = difference(a, b)
        if not ctx.ok(d is None, "differs", "%s: predicted state %d differs from the executed one: %s" % (label, k, d)):
            break


def difference(a, b, tol=1e-7):
    da, db = dict_of(a), dict_of(b)
    for k in sorted(set(da) | set(db)):
        x, y = da.get(k), db.get(k)
        if k in ("crashed", "hit"):
            continue
        if isinstance(x, dict) or isinstance(y, dict):
            for q in sorted(set(x or {}) | set(y or {})):
                if abs(float(x[q]) - float(y[q])) > tol:
                    return "%s.%s %s != %s" % (k, q, x[q], y[q])
        elif isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if abs(float(x) - float(y)) > tol * (1 + abs(float(y))):
                return "%s %s != %s" % (k, x, y)
        elif x != y and repr(x) != repr(y):
            return "%s %s != %s" % (k, x, y)
    return None


def dict_of(state):
    return state


def timing(rng):
    sf = int(rng.choice([5, 6, 10, 15, 20, 30, 33, 45]))
    pf = int(rng.choice([1, 1, 2, 3, 5]))
    pf = min(pf, sf)
    third = Fraction(1, 3 * pf)
    period = [third, Fraction(1, sf), Fraction(1, pf), Fraction(2, sf), Fraction(1, 2), Fraction(5, 1), Fraction(1, 7 * sf)][int(rng.choice(7, p=[.4, .15, .15, .1, .1, .05, .05]))]
    fp = 1 / 3 / pf if period == third else float(period)
    return sf, pf, 1 / pf, fp, 1 / sf, (Fraction(1, pf), period, Fraction(1, sf))


# ------------------------------------------------------------------ on networks
def networks(ctx, n):
    rng = ctx.rng
    for i in range(n):
        env = None
        kind = int(rng.randint(3))
        if kind == 0:
            net = W.straight_net(int(rng.randint(1, 5)), 1000., angle=rng.uniform(-3, 3))
        elif kind == 1:
            net = W.chain_net(rng, lanes=int(rng.randint(1, 4)), pieces=3)
        else:
            name, env = W.random_env_roads(rng)
            net = env.road.network
        road = Road(net, np_random=np.random.RandomState(int(rng.randint(1 << 30))))
        idxs = W.all_indexes(net)
        idx = idxs[rng.randint(len(idxs))]
        lane = net.get_lane(idx)
        s = rng.uniform(.1, .9) * W.ref_length(lane)
        v = MDPVehicle(road, lane.position(s, rng.uniform(-1, 1)), lane.heading_at(s) + rng.uniform(-.1, .1), rng.uniform(5, 30), target_lane_index=idx,
                       target_speed=rng.choice([20, 25, 30]))
        road.vehicles = [v]
        if rng.rand() < .6:
            v.plan_route_to(sorted(net.graph)[rng.randint(len(net.graph))])
        for _ in range(int(rng.randint(0, 20))):
            v.act(META[int(rng.randint(5))] if rng.rand() < .2 else None)
            v.step(1 / 15)
        sf, pf, duration, period, dt, exact = timing(rng)
        actions = random_actions(rng)
        case = dict(vehicle=W.vstate(v), actions=actions, duration=duration, period=period, dt=dt)
        with ctx.guard(case):
            run = road_copy(road)
            states, frames, every = predict(ctx, road, v, actions, duration, period, dt, exact)
            if every > 1:
                ctx.count("subsampled")
            executed = execute(ctx, run, run.vehicles[0], actions, frames, dt)
            compare(ctx, states, executed, every, "%s on a network, %s" % (actions, timing_label(duration, period, dt)))
            if states:      # changing what was returned leaves everything alone
                before = scene(road)
                route = None if v.route is None else list(v.route)
                states[-1].position[:] = 0
                if states[-1].route:
                    states[-1].route.pop()
                states[0].road.vehicles.clear()
                ctx.ok(W.first_diff(before, scene(road)) is None and (v.route is None or list(v.route) == route), "alias", "changing a predicted state changed the scene")
            ctx.seen(case)
            if i < 2:
                ctx.sample(**case)
        if env is not None:
            env.close()


def road_copy(road):
    return copy.deepcopy(road)


def timing_label(duration, period, dt):
    return "%.4g s each, every %.4g s, time step %.4g s" % (duration, period, dt)


def execute(ctx, road, v, actions, frames, dt):
    out = []
    crashed = False
    for a in actions:
        before = W.vstate(v)
        v.act(a)
        mid = W.vstate(v)
        ctx.count("lane_changes", int(mid["target_lane_index"] != before["target_lane_index"]))
        ctx.count("speed_changes", int(mid["target_speed"] != before["target_speed"]))
        for _ in range(frames):
            lane = v.lane_index
            road.act()
            road.step(dt)
            ctx.count("executed_frames")
            ctx.count("road_changes", int(v.lane_index[:2] != lane[:2]))
            crashed = crashed or v.crashed
            out.append(None if crashed else W.vstate(v))
    return out


# ------------------------------------------------------------------ in the environments
def environments(ctx, names, n):
    rng = ctx.rng
    for i in range(n):
        name = names[i % len(names)]
        sf, pf, duration, period, dt, exact = timing(rng)
        cfg = {"simulation_frequency": sf, "policy_frequency": pf, "duration": 100}
        if name == "intersection":
            cfg["initial_vehicle_count"] = 1
        if name == "highway":
            cfg["vehicles_count"] = 3
        cfg["action"] = {"type": "DiscreteMetaAction"}
        cfg["observation"] = {"type": "Kinematics"}
        case = dict(env=name, config=cfg)
        with ctx.guard(case):
            env = W.make(name, cfg, int(rng.randint(1 << 30)))
            for _ in range(int(rng.randint(0, 6))):
                _, _, done, _ = env.step(int(rng.randint(5)))
                if done:
                    env.reset()
            v = env.vehicle
            actions = random_actions(rng)
            run = copy.deepcopy(env)
            states, frames, every = predict(ctx, env, v, actions, duration, period, dt, exact)
            executed = []
            stop = []

            def after_step(_):
                if run.vehicle.crashed or stop:
                    stop.append(1)
                executed.append(None if stop else W.vstate(run.vehicle))
            W.tap(run.road, after_step=after_step)
            for a in actions:
                k = {x: j for j, x in run.action_type.actions.items()}[a]
                before = W.vstate(run.vehicle)
                n0 = len(executed)
                _, _, done, _ = run.step(k)
                after = W.vstate(run.vehicle)
                ctx.count("executed_frames", len(executed) - n0)
                ctx.count("lane_changes", int(after["target_lane_index"] != before["target_lane_index"]))
                ctx.count("speed_changes", int(after["target_speed"] != before["target_speed"]))
                if done or stop:
                    break
            ctx.count("env_executions")
            ctx.count("fractional", int(sf % pf != 0))
            compare(ctx, states, executed, every, "%s: %s, %s" % (name, actions, timing_label(duration, period, dt)))
            ctx.seen(case, W.vstate(v), actions)
            env.close()


# ------------------------------------------------------------------ constant speed
def walk(road, v, dist):
    """All the admissible (lane, longitudinal) after this distance along the route. None: the vehicle is not on its route."""
    net = road.network
    idx = tuple(v.lane_index)
    lane = net.get_lane(idx)
    s0 = W.ref_local(lane, v.position)[0]
    route = [tuple(r) for r in v.route] if v.route else [idx]

    def lanes(entry):
        a, b, k = entry
        return [net.graph[a][b][k]] if k is not None else list(net.graph[a][b])
    if route[0][:2] == idx[:2]:
        firsts = lanes(route[0]) + [lane]
        rest = route[1:]
    elif route[0][0] == idx[1]:
        firsts = [lane]
        rest = route
    else:
        return None
    out = []

    def go(lane, s, rest):
        L = W.ref_length(lane)
        if abs(s - L) < 1e-6 and rest:
            out.append((lane, s))
        if rest and s > L - (1e-6 if abs(s - L) < 1e-6 else 0):
            for nxt in lanes(rest[0]):
                go(nxt, s - L, rest[1:])
            return
        out.append((lane, s))
    for f in firsts:
        go(f, s0 + dist, rest)
    return out, len(rest)


def constant_speed(ctx, road, v):
    rng = ctx.rng
    times = np.sort(rng.uniform(0, rng.choice([1., 4., 20.]), size=int(rng.randint(1, 9))))
    if rng.rand() < .2:
        times = np.arange(0, 3, .5)
    if W.circular_seam(v.lane, v.position):
        return
    first = walk(road, v, 0.)
    if first is None:
        ctx.count("off_route")
        return
    before = scene(road)
    positions, headings = v.predict_trajectory_constant_speed(times)
    ctx.count("constant_speed")
    ctx.ok(W.first_diff(before, scene(road)) is None, "alters", "predicting changed the scene: %s" % W.first_diff(before, scene(road)))
    ctx.ok(len(positions) == len(times) == len(headings), "constant:count", "%d positions, %d headings for %d times" % (len(positions), len(headings), len(times)))
    ctx.count("no_route" if not v.route else "with_route")
    ctx.count("pending_switch", int(bool(v.route) and v.route[0][:2] != v.lane_index[:2]))
    ctx.count("lane_unspecified", int(bool(v.route) and any(r[2] is None for r in v.route)))
    ctx.count("stopped_or_backwards", int(v.speed <= 0))
    base = v.lane
    for t, p, h in zip(times, positions, headings):
        options, _ = walk(road, v, v.speed * t)
        ctx.count("poses")
        ctx.count("next_road", int(all(l is not base for l, _ in options)))
        good = any(np.hypot(*(W.ref_position(l, s, 0.) - p)) < 1e-5 * (1 + abs(s)) and abs(W.wrap(W.ref_heading(l, s) - h)) < 1e-5 for l, s in options)
        if not ctx.ok(good, "constant:pose", "route %s from lane %s: pose %s, %s after %.3f s at %.3f m/s instead of %s" % (
                v.route, v.lane_index, p, h, t, v.speed, [(np.round(W.ref_position(l, s, 0.), 3).tolist(), W.ref_heading(l, s)) for l, s in options])):
            return


def traffic(ctx, names, episodes, steps):
    rng = ctx.rng
    for i in range(episodes):
        name = names[i % len(names)]
        cfg = {"policy_frequency": 5} if name in ("intersection", "roundabout", "merge") else {}
        with ctx.guard(dict(env=name)):
            env = W.make(name, cfg, int(rng.randint(1 << 30)))
            for s in range(steps):
                _, _, done, _ = env.step(W.sample_action(env.action_space, rng))
                for v in env.road.vehicles:
                    if isinstance(v, ControlledVehicle):
                        constant_speed(ctx, env.road, v)
                ctx.seen(name, [W.vstate(v) for v in env.road.vehicles])
                if done:
                    break
            env.close()


def routes(ctx, n, steps):
    """Controlled vehicles driven along planned routes of every network, lane changes included."""
    rng = ctx.rng
    for i in range(n):
        env = None
        if rng.rand() < .5:
            net = W.chain_net(rng, lanes=int(rng.randint(1, 4)), pieces=4)
        else:
            name, env = W.random_env_roads(rng)
            net = env.road.network
        road = Road(net, np_random=np.random.RandomState(int(rng.randint(1 << 30))))
        idxs = W.all_indexes(net)
        idx = idxs[rng.randint(len(idxs))]
        lane = net.get_lane(idx)
        s = rng.uniform(.05, .95) * W.ref_length(lane)
        cls = [ControlledVehicle, MDPVehicle, IDMVehicle][rng.randint(3)]
        speed = rng.uniform(4, 14)
        v = cls(road, lane.position(s, rng.uniform(-1, 1)), lane.heading_at(s), speed, target_lane_index=idx, target_speed=speed)
        road.vehicles = [v]
        if rng.rand() < .85:
            v.plan_route_to(sorted(net.graph)[rng.randint(len(net.graph))])
        with ctx.guard(dict(vehicle=W.vstate(v))):
            for k in range(steps):
                constant_speed(ctx, road, v)
                if rng.rand() < .03:
                    v.set_route_at_intersection("random") if rng.rand() < .5 else v.set_route_at_intersection(int(rng.randint(3)))
                if rng.rand() < .04:
                    v.speed = float(rng.choice([0., -2.]))
                v.act(META[int(rng.randint(5))] if cls is not IDMVehicle and rng.rand() < .05 else None) if cls is not IDMVehicle else v.act()
                v.step(1 / 15)
            ctx.seen(W.vstate(v), i)
        if env is not None:
            env.close()


def units(tier):
    k = 30 if tier == "thorough" else 3
    us = [("networks-%d" % i, networks, dict(n=45 * k)) for i in range(4)]
    us += [("env-%d" % i, environments, dict(names=names, n=8 * k)) for i, names in enumerate((["merge", "two-way"], ["roundabout", "merge"], ["highway"], ["intersection"], ["two-way", "roundabout"], ["intersection"]))]
    us += [("routes-%d" % i, routes, dict(n=12 * k, steps=70)) for i in range(4)]
    return us + [("traffic-%d" % i, traffic, dict(names=names, episodes=2 * k, steps=12)) for i, names in enumerate((["intersection"], ["roundabout", "merge"], ["two-way", "highway"]))]
