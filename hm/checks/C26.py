"""Scenes: what every reset builds compared with the configuration, and the set of vehicles and their lanes watched through every step."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import (Vehicle, ControlledVehicle, MDPVehicle, BicycleVehicle, IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle, Obstacle, Landmark,
                      Road, RoadNetwork)
from hm.checks.C23 import relocate

RULE = ("every reset of all environments under random configurations (numbers, types, lanes, spacing, density, destinations, spawn probability, seeds), every vehicle and "
        "lane compared with the request; then every simulation and policy step of an episode: identity of the vehicles, their lanes, spawning and clearing; pairs of "
        "environments built and stepped together; constructors called with random arguments; a case is one scene or one step; distinct by content")
REQUIRED = {"scrambled": 15, "scenes": 260, "vehicles": 1400, "highway": 30, "merge": 30, "roundabout": 30, "intersection": 18, "multi-intersection": 12, "parking": 30, "summon": 30,
            "two-way": 30, "lane-keeping": 10, "steps": 1500, "lanes_tracked": 20000, "spawned": 100, "cleared": 40, "agents_leaving": 60, "blocked_spawn": 10, "destinations": 300, "random_destination": 5,
            "leaving_kept": 60, "pairs": 25, "pair_steps": 100, "made": 400, "continuity": 300, "spacing": 150, "near_ego": 20, "no_spawn": 30, "all_spawn": 30, "challenger_resets": 160, "kept_near_resets": 60, "drawn": 15}
TYPES = {W.IDM: IDMVehicle, W.LINEAR: LinearVehicle, W.AGGRESSIVE: AggressiveVehicle, W.DEFENSIVE: DefensiveVehicle}


# ------------------------------------------------------------------ generic
def closest(net, p, heading):
    ds = sorted((W.ref_lane_distance(W.lane_of(net, i), p, heading), i) for i in W.all_indexes(net))
    return ds


def seam(net, idx, p, heading):
    lane = W.lane_of(net, idx)
    s, _ = W.ref_local(lane, p)
    return abs(abs(W.wrap(heading - W.ref_heading(lane, s))) - math.pi) < 1e-6 or W.circular_seam(lane, p)


def tracked(ctx, road, v, where):
    net = road.network
    ctx.count("lanes_tracked")
    ds = closest(net, v.position, float(np.squeeze(v.heading)))
    mine = tuple(v.lane_index)
    if not ctx.ok(mine in [i for _, i in ds], "lane-unknown", "lane %r is not on the network %s" % (mine, where)):
        return
    ctx.ok(v.lane is W.lane_of(net, mine), "lane-object", "the vehicle's lane is not the lane of its index")
    if any(seam(net, i, v.position, float(np.squeeze(v.heading))) for _, i in ds[:6]):
        return
    d = dict((i, x) for x, i in ds)[mine]
    ctx.ok(d <= ds[0][0] + 1e-6, "lane-tracking", "the vehicle is at %.4f from its lane %r and %.4f from %r %s" % (d, mine, ds[0][0], ds[0][1], where))


def ego_class(cfg):
    c = cfg["action"]
    c = c.get("action_config", c)
    return MDPVehicle if c["type"] == "DiscreteMetaAction" else BicycleVehicle if c.get("dynamical") else Vehicle


def on_lane_centre(ctx, net, v, idx, s, mech, ds=1e-6, heading=True):
    lane = W.lane_of(net, idx)
    s_, r = W.ref_local(lane, v.position)
    ctx.ok(abs(r) < 1e-6 and abs(s_ - s) <= ds, mech, "a vehicle is at (%.2f, %.2f) of lane %r instead of (%.2f, 0)" % (s_, r, idx, s))
    if heading:
        ctx.ok(abs(W.wrap(float(v.heading) - W.ref_heading(lane, s_))) < .2, mech + "-heading", "a vehicle does not face along its lane %r" % (idx,))


def common(ctx, env, name):
    road, cfg = env.road, env.config
    egos = env.controlled_vehicles
    want = cfg.get("controlled_vehicles", 1) if name != "summon" else 1
    ctx.ok(len(egos) == want, "controlled-count", "%d controlled vehicles instead of %d" % (len(egos), want))
    ctx.ok(env.vehicle is egos[0], "ego", "the ego is not the first controlled vehicle")
    ids = [id(v) for v in road.vehicles]
    ctx.ok(len(set(ids)) == len(ids), "duplicate", "a vehicle is twice on the road")
    for v in egos:
        ctx.ok(id(v) in ids, "ego-missing", "a controlled vehicle is not on the road")
        ctx.ok(type(v) is ego_class(cfg), "ego-class", "the controlled vehicle is a %s" % type(v).__name__)
    for v in road.vehicles:
        ctx.count("vehicles")
        ctx.ok(v.road is road, "foreign-road", "a vehicle refers to another road")
        ctx.ok(not v.crashed, "born-crashed", "a vehicle is crashed after a reset") if "intersection" not in name else None
        if any(v is e for e in egos):
            continue
        if name == "summon" and type(v) is Vehicle:
            ctx.ok(float(v.speed) == 0, "parked-speed", "a parked vehicle drives")
            continue
        ctx.ok(type(v) is TYPES[cfg["other_vehicles_type"]], "traffic-class", "%s instead of %s" % (type(v).__name__, cfg["other_vehicles_type"]))
    for o in road.objects:
        ctx.ok(o.road is road, "foreign-road", "an object refers to another road")
    ctx.ok(road.np_random is env.np_random, "foreign-random", "the road draws from another random source than the environment's")
    if "intersection" not in name:
        for v in road.vehicles:
            tracked(ctx, road, v, "after a reset")
    for i, a in enumerate(road.vehicles):
        for b in road.vehicles[:i]:
            if name == "summon" and ("d" in a.lane_index[0] or "d" in b.lane_index[0]) or "intersection" in name:
                continue
            ctx.ok(W.rect_gap(W.body(a, 1.), W.body(b, 1.)) > -1e-9, "overlap", "two vehicles overlap after a reset: %r, %r" % (W.vstate(a), W.vstate(b)))


# ------------------------------------------------------------------ environments
def highway(ctx, env):
    cfg, road = env.config, env.road
    g = road.network.graph
    n = cfg["lanes_count"]
    ctx.ok(list(g) == ["0"] and list(g["0"]) == ["1"] and len(g["0"]["1"]) == n, "lanes-count", "%r instead of %d lanes" % (g, n))
    for k, lane in enumerate(g["0"]["1"]):
        ctx.ok(np.allclose(W.ref_position(lane, 0, 0), [0, 4 * k]) and abs(W.ref_heading(lane, 0)) < 1e-9 and abs(lane.width - 4) < 1e-9 and W.ref_length(lane) >= 1000,
               "highway-lane", "lane %d is not the parallel lane at y = %d" % (k, 4 * k))
    vs = road.vehicles
    egos = env.controlled_vehicles
    ctx.ok(len(vs) == len(egos) + cfg["vehicles_count"], "vehicles-count", "%d vehicles for %d + %d" % (len(vs), len(egos), cfg["vehicles_count"]))
    factor = 1.5 * math.exp(-5 / 30 * n)
    front = None
    for v in vs:
        ego = any(v is e for e in egos)
        s, r = float(v.position[0]), float(v.position[1]) - 4 * v.lane_index[2]
        ctx.ok(abs(r) < 1e-9 and abs(float(v.heading)) < 1e-9, "off-centre", "a vehicle is not centred on a lane")
        if ego:
            ctx.ok(float(v.speed) == 25, "ego-speed", "ego speed %r" % v.speed)
            if cfg["initial_lane_id"] is not None:
                ctx.ok(v.lane_index[2] == cfg["initial_lane_id"], "initial-lane", "the ego starts on lane %d instead of %d" % (v.lane_index[2], cfg["initial_lane_id"]))
        else:
            ctx.ok(23 <= float(v.speed) <= 25, "traffic-speed", "initial speed %r" % v.speed)
        spacing = cfg["ego_spacing"] if ego else 1 / cfg["vehicles_density"]
        offset = spacing * factor * float(v.speed)
        gap = s - (3 * offset if front is None else front)
        ctx.count("spacing")
        ctx.ok(.9 * offset - 1e-6 <= gap <= 1.1 * offset + 1e-6, "spacing", "a vehicle is placed %.2f m ahead, %.2f m expected" % (gap, offset))
        front = s if front is None else max(front, s)


def merge(ctx, env):
    net, vs = env.road.network, env.road.vehicles
    ctx.ok(len(vs) == 5 and vs[0] is env.vehicle, "vehicles-count", "%d vehicles" % len(vs))
    on_lane_centre(ctx, net, vs[0], ("a", "b", 1), 30, "ego-place")
    ctx.ok(float(vs[0].speed) == 30, "ego-speed", "ego speed %r" % vs[0].speed)
    ramp = [v for v in vs if v.lane_index[0] == "j"]
    ctx.ok(len(ramp) == 1 and all(v.lane_index[0] in ("a", "j") for v in vs), "merging-vehicle", "%d vehicles on the ramp" % len(ramp))
    ctx.ok(bool(ramp) and ramp[0].target_speed == 30, "merging-speed", "target speed of the merging vehicle")
    end = W.ref_position(W.lane_of(net, ("b", "c", 2)), W.ref_length(W.lane_of(net, ("b", "c", 2))), 0)
    ctx.ok(sum(isinstance(o, Obstacle) and np.allclose(o.position, end) for o in env.road.objects) == 1, "ramp-end", "no obstacle at the end of the merging lane")
    ctx.ok(W.lane_of(net, ("b", "c", 2)).forbidden, "ramp-forbidden", "the merging lane may be entered")


def destination(v):
    return v.route[-1][1] if v.route else None


def connected(ctx, net, v, mech="route-broken"):
    r = v.route
    ok = bool(r) and tuple(r[0]) == tuple(v.lane_index) or bool(r) and tuple(r[0][:2]) == tuple(v.lane_index[:2])
    ok = ok and all(a[1] == b[0] for a, b in zip(r, r[1:])) and all(b[1] in net.graph.get(b[0], {}) for b in r)
    ctx.ok(ok, mech, "route %r from lane %r is not a path of the network" % (r, v.lane_index))
    ctx.count("destinations")


def roundabout(ctx, env):
    net, vs, cfg = env.road.network, env.road.vehicles, env.config
    ctx.ok(len(vs) == 5 and vs[0] is env.vehicle, "vehicles-count", "%d vehicles" % len(vs))
    on_lane_centre(ctx, net, vs[0], ("ser", "ses", 0), 125, "ego-place")
    if isinstance(vs[0], ControlledVehicle):
        ctx.ok(destination(vs[0]) == "nxs", "ego-destination", "ego route %r" % (vs[0].route,))
        ctx.ok(vs[0].target_speed == 8 and [vs[0].index_to_speed(k) for k in range(3)] == [0, 8, 16], "ego-speeds", "ego speeds")
    for v in vs[1:]:
        connected(ctx, net, v)
        ctx.ok(destination(v) in ("exr", "sxr", "nxr"), "destination", "destination %r" % destination(v))
        s, r = W.ref_local(W.lane_of(net, v.lane_index), v.position)
        ctx.ok(abs(r) < 1e-6 and abs(W.wrap(float(v.heading) - W.ref_heading(W.lane_of(net, v.lane_index), s))) < 1e-6, "off-centre", "a vehicle is not on its lane")
    k = cfg["incoming_vehicle_destination"]
    if k is not None:
        ctx.ok(destination(vs[1]) == ["exr", "sxr", "nxr"][k], "incoming-destination", "the incoming vehicle goes to %r instead of %r" % (destination(vs[1]), k))
    ctx.ok(sum(v.lane_index[0] == "eer" for v in vs) == 1, "entering-vehicle", "entering vehicles")


def two_way(ctx, env):
    net, vs = env.road.network, env.road.vehicles
    ctx.ok(len(vs) == 6 and vs[0] is env.vehicle, "vehicles-count", "%d vehicles" % len(vs))
    on_lane_centre(ctx, net, vs[0], ("a", "b", 1), 30, "ego-place")
    fwd = [v for v in vs[1:] if tuple(v.lane_index) == ("a", "b", 1)]
    opp = [v for v in vs[1:] if tuple(v.lane_index) == ("b", "a", 0)]
    ctx.ok(len(fwd) == 3 and len(opp) == 2, "two-way-traffic", "%d vehicles ahead and %d oncoming" % (len(fwd), len(opp)))
    for v in vs[1:]:
        lane = W.lane_of(net, v.lane_index)
        s, r = W.ref_local(lane, v.position)
        ctx.ok(abs(r) < 1e-6 and abs(W.wrap(float(v.heading) - W.ref_heading(lane, s))) < 1e-6, "off-centre", "a vehicle is not on its lane")
        ctx.ok(tuple(v.target_lane_index) == tuple(v.lane_index), "two-way-target", "target lane %r on lane %r" % (v.target_lane_index, v.lane_index))
        ctx.ok(not v.enable_lane_change, "two-way-overtake", "a vehicle of the two-way traffic may change lanes")
    ctx.ok(all(v.position[0] > vs[0].position[0] for v in fwd), "two-way-traffic", "a vehicle starts behind the ego")


def parking(ctx, env):
    net, vs = env.road.network, env.road.vehicles
    ctx.ok(len(vs) == len(env.controlled_vehicles), "vehicles-count", "%d vehicles" % len(vs))
    for k, v in enumerate(vs):
        ctx.ok(np.allclose(v.position, [20 * k, 0]) and float(v.speed) == 0, "ego-place", "agent %d at %r, speed %r" % (k, v.position, v.speed))
    spots(ctx, net, 10)


def spots(ctx, net, y):
    for road, sgn in ((("a", "b"), 1), (("b", "c"), -1)):
        lanes = net.graph[road[0]][road[1]]
        ctx.ok(len(lanes) == 15, "spots", "%d spots in a row" % len(lanes))
        for k, lane in enumerate(lanes):
            x = (k - 7) * 4 - 2
            ctx.ok(np.allclose(W.ref_position(lane, 0, 0), [x, sgn * y]) and abs(W.ref_length(lane) - 8) < 1e-9 and abs(W.wrap(W.ref_heading(lane, 0) - sgn * math.pi / 2)) < 1e-9,
                   "spot-place", "spot %d of row %r" % (k, road))


def summon(ctx, env):
    net, vs, cfg = env.road.network, env.road.vehicles, env.config
    spots(ctx, net, 12)
    ctx.ok(vs[0] is env.vehicle and np.allclose(vs[0].position, [26, 16]) and float(vs[0].speed) == 0, "ego-place", "the ego is at %r" % vs[0].position)
    ctx.ok(len(vs) - 1 <= cfg["vehicles_count"], "vehicles-count", "%d vehicles" % len(vs))
    taken = set()
    for v in vs[1:]:
        d = math.hypot(*(v.position - env.vehicle.position))
        ctx.count("near_ego", d < 40)
        ctx.ok(d >= 20 - 1e-9, "near-ego", "a vehicle starts %.2f m from the ego, all within 20 m should be removed" % d)
        if type(v) is Vehicle:
            key = tuple(v.lane_index)
            ctx.ok(key[0] in ("a", "b") and key not in taken, "parked-place", "parked on %r" % (key,))
            taken.add(key)
            on_lane_centre(ctx, net, v, key, 4, "parked-place")
        else:
            ctx.ok(v.lane_index[0] == "d" and float(v.speed) == 2, "moving-place", "a moving vehicle on %r at %r" % (v.lane_index, v.speed))
            lane = W.lane_of(net, v.lane_index)
            s, r = W.ref_local(lane, v.position)
            ctx.ok(abs(r) < 1e-6 and -1e-6 <= s <= max(W.ref_length(lane), 5 * cfg["vehicles_count"] + 3) and abs(W.wrap(float(v.heading) - W.ref_heading(lane, s))) < 1e-6, "moving-place",
                   "a moving vehicle starts at (%.2f, %.2f) of its lane of %.1f m" % (s, r, W.ref_length(lane)))


def intersection(ctx, env):
    net, vs, cfg = env.road.network, env.road.vehicles, env.config
    egos = env.controlled_vehicles
    ctx.ok(len(vs) - len(egos) <= cfg["initial_vehicle_count"], "vehicles-count", "%d vehicles for %d" % (len(vs), cfg["initial_vehicle_count"]))
    for k, e in enumerate(egos):
        s, r = W.ref_local(W.lane_of(net, ("o%d" % (k % 4), "ir%d" % (k % 4), 0)), e.position)
        ctx.ok(tuple(e.lane_index) == ("o%d" % (k % 4), "ir%d" % (k % 4), 0) and abs(r) < 1e-6 and 30 < s < 90, "ego-place", "agent %d is at (%.1f, %.1f) of %r" % (k, s, r, e.lane_index))
        ctx.ok(float(e.speed) == 10, "ego-speed", "ego speed %r" % e.speed)
        ctx.ok([e.index_to_speed(j) for j in range(3)] == [0, 4.5, 9] and e.target_speed == 9, "ego-speeds", "ego speeds %r" % e.target_speed)
        d = cfg["destination"]
        dest = destination(e)
        if d is None:
            ctx.count("random_destination")
            ctx.ok(dest in ("o1", "o2", "o3") or k % 4 != 0, "ego-destination", "random destination %r" % dest)
        elif d != "o%d" % (k % 4):
            ctx.ok(dest == d, "ego-destination", "agent %d goes to %r instead of %r" % (k, dest, d))
        connected(ctx, net, e)
    for v in vs:
        if any(v is e for e in egos):
            continue
        for e in egos:
            d = math.hypot(*(v.position - e.position))
            ctx.count("near_ego", d < 40)
            ctx.ok(d >= 20 - 1e-9, "near-ego", "a vehicle starts %.2f m from a controlled vehicle, all within 20 m should be removed" % d)
    for a, b, i in W.all_indexes(net):
        lane = W.lane_of(net, (a, b, i))
        ctx.ok(lane.speed_limit == 10, "speed-limit", "speed limit %r" % lane.speed_limit)
        if a.startswith("o") or a.startswith("ir"):
            c = int(a[-1])
            turn = "in" if a.startswith("o") else {(c - 1) % 4: "right", (c + 1) % 4: "left", (c + 2) % 4: "straight"}[int(b[-1])]
            want = (3 if c % 2 else 1) - (turn == "left")
            ctx.ok(lane.priority == want, "priority", "lane %r has priority %r instead of %r" % ((a, b), lane.priority, want))
    for c in range(4):      # each branch is the first one rotated
        rot = np.array([[math.cos(c * math.pi / 2), -math.sin(c * math.pi / 2)], [math.sin(c * math.pi / 2), math.cos(c * math.pi / 2)]])
        for t in range(1, 4):
            l0, l1 = W.lane_of(net, ("ir0", "il%d" % t, 0)), W.lane_of(net, ("ir%d" % c, "il%d" % ((t + c) % 4), 0))
            for f in (0., .3, 1.):
                ctx.ok(np.allclose(rot @ np.array(W.ref_position(l0, f * W.ref_length(l0), 0)), W.ref_position(l1, f * W.ref_length(l1), 0), atol=1e-6), "symmetry",
                       "branch %d is not a rotation of branch 0" % c)


def lane_keeping(ctx, env):
    ctx.ok(len(env.road.vehicles) == 1 and env.road.vehicles[0] is env.vehicle, "vehicles-count", "vehicles")
    lane = W.lane_of(env.road.network, ("c", "d", 0))
    s, r = W.ref_local(lane, env.vehicle.position)
    ctx.ok(abs(s - 50) < 1e-6 and abs(r + 4) < 1e-6 and abs(float(np.squeeze(env.vehicle.speed)) - 8.3) < 1e-9, "ego-place", "ego at (%.2f, %.2f)" % (s, r))


SCENE = dict(highway=highway, merge=merge, roundabout=roundabout, intersection=intersection, summon=summon, parking=parking)
SCENE["multi-intersection"] = intersection
SCENE["two-way"] = two_way
SCENE["lane-keeping"] = lane_keeping
# (largest gap, largest turn) between a lane's end and the nearest lane of each following road
JOINTS = {"merge": (4.01, .01), "roundabout": (7.8, .82), "intersection": (1e-6, 1e-6), "multi-intersection": (1e-6, 1e-6)}


def continuity(ctx, env, name):
    """Roads that follow each other join."""
    net = env.road.network
    for a, b, i in W.all_indexes(net):
        lane = W.lane_of(net, (a, b, i))
        end, h = W.ref_position(lane, W.ref_length(lane), 0), W.ref_heading(lane, W.ref_length(lane))
        for c in net.graph.get(b, {}):
            if b.startswith("o") and "intersection" in name:
                continue
            opts = [(math.hypot(*(np.array(W.ref_position(m, 0, 0)) - end)), abs(W.wrap(W.ref_heading(m, 0) - h))) for m in net.graph[b][c]]
            gap, turn = min(opts)
            ctx.count("continuity")
            if name == "roundabout" and b.endswith("s"):     # an access road and its curved end
                ctx.ok(gap < 1e-6 and turn < 1e-6, "joint:access", "%r is followed by %r at %.3f m and %.3f rad" % ((a, b, i), (b, c), gap, turn))
            ctx.ok(gap <= JOINTS[name][0] and turn <= JOINTS[name][1] + 1e-9, "joint:" + name, "%r is followed by %r at %.3f m and %.3f rad" % ((a, b, i), (b, c), gap, turn))
    if name == "roundabout":
        ring = ["se", "ex", "ee", "nx", "ne", "wx", "we", "sx"]
        for k, a in enumerate(ring):
            for i in range(2):
                l0, l1 = W.lane_of(net, (a, ring[(k + 1) % 8], i)), W.lane_of(net, (ring[(k + 1) % 8], ring[(k + 2) % 8], i))
                ctx.ok(np.allclose(W.ref_position(l0, W.ref_length(l0), 0), W.ref_position(l1, 0, 0), atol=1e-6), "ring", "the circle is broken at %r" % ring[(k + 1) % 8])


# ------------------------------------------------------------------ episodes
def config(rng, name):
    c = W.random_env_config(rng, name)
    if name == "highway":
        c.update(duration=40, vehicles_density=float(rng.uniform(.5, 1.5)), ego_spacing=float(rng.uniform(1, 3)),
                 initial_lane_id=None if rng.rand() < .4 else int(rng.randint(c["lanes_count"])))
    elif name in ("intersection", "multi-intersection"):
        c.update(duration=30, initial_vehicle_count=int(rng.randint(1, 14)), spawn_probability=float(rng.choice([0., .6, 1., 1.])))
    elif name == "roundabout":
        c["duration"] = 30
    elif name == "summon":
        c["vehicles_count"] = int(rng.randint(0, 16))
    return c


class Watch:
    def __init__(self, ctx, env, name):
        self.ctx, self.env, self.name = ctx, env, name
        self.road = env.road
        W.tap(env.road, after_step=self.after)

    def after(self, dt):
        vs = self.road.vehicles
        for v in vs[:6]:
            tracked(self.ctx, self.road, v, "after a simulation step")
        self.last = list(vs)


def leaving(ctx, net, v):
    a, b, _ = v.lane_index
    if not (a.startswith("il") and b.startswith("o")):
        return False, 1.
    lane = W.lane_of(net, v.lane_index)
    s, _ = W.ref_local(lane, v.position)
    m = s - (W.ref_length(lane) - 20)
    return m >= 0, abs(m)


def population(ctx, env, name, before, last):
    """Who is on the road after a policy step."""
    now = env.road.vehicles
    egos = env.controlled_vehicles
    if "intersection" not in name:
        ctx.ok(len(now) == len(before) and all(a is b for a, b in zip(now, before)), "population:" + name, "the set of vehicles changed during an episode")
        return
    for v in last:
        kept = any(v is w for w in now)
        if any(v is e for e in egos):
            ctx.ok(kept, "cleared-ego", "a controlled vehicle was removed from the road")
            continue
        out, m = leaving(ctx, env.road.network, v)
        gone = out or v.route is None
        ctx.count("cleared", gone)
        ctx.count("leaving_kept", v.lane_index[0].startswith("il") and not gone)
        if m > 1e-6:
            ctx.ok(kept == (not gone), "clearing", "a vehicle on %r %s" % (v.lane_index, "was removed" if not kept else "stayed although it had left"))
    new = [v for v in now if not any(v is w for w in last)]
    ctx.ok(len(new) <= 1, "spawn-many", "%d vehicles appeared in one step" % len(new))
    p = env.config["spawn_probability"]
    ctx.count("no_spawn", p == 0)
    ctx.count("all_spawn", p == 1)
    if p == 0:
        ctx.ok(not new, "spawn-probability", "a vehicle appeared with spawn probability 0")
    for v in new:
        ctx.count("spawned")
        spawned(ctx, env, v, now)
    if p == 1 and not new:
        # it must have been blocked: some entry has a vehicle around
        ctx.count("blocked_spawn")
        near = [math.hypot(*(np.array(W.ref_position(W.lane_of(env.road.network, ("o%d" % c, "ir%d" % c, 0)), 5, 0)) - w.position)) for c in range(4) for w in now]
        ctx.ok(bool(near) and min(near) < 15 + 6, "spawn-missing", "nothing appeared with spawn probability 1 and free entries")


def spawned(ctx, env, v, now):
    net = env.road.network
    a, b, i = v.lane_index
    s, r = W.ref_local(W.lane_of(net, v.lane_index), v.position)
    ctx.ok(a.startswith("o") and b == "ir" + a[1:] and abs(r) < 1e-6 and s < 5 + 7, "spawn-place", "a vehicle appeared at (%.1f, %.1f) of %r" % (s, r, v.lane_index))
    ctx.ok(type(v) is TYPES[env.config["other_vehicles_type"]], "spawn-class", "a %s appeared" % type(v).__name__)
    for w in now:
        if w is not v:
            d = math.hypot(*(v.position - w.position))
            ctx.ok(d >= 15 - 1e-9, "spawn-distance", "a vehicle appeared %.2f m from another" % d)
    connected(ctx, net, v, "spawn-route")
    d = destination(v)
    ctx.ok(d.startswith("o") and d != a, "spawn-destination", "a vehicle entering at %s goes to %s" % (a, d))
    ctx.ok(2 < float(v.speed) < 14, "spawn-speed", "a vehicle appeared at %.2f m/s" % float(v.speed))
    ctx.ok(v.road is env.road, "foreign-road", "a spawned vehicle refers to another road")


def scene(ctx, env, name):
    ctx.count("scenes")
    ctx.count(name)
    ctx.seen(name, W.flat(W.snap(env)))
    common(ctx, env, name)
    SCENE[name](ctx, env)
    if name in JOINTS:
        continuity(ctx, env, name)


def episode(ctx, name, seed):
    rng = np.random.RandomState(seed)
    c = config(rng, name)
    with ctx.guard(dict(env=name, config=c, seed=seed)):
        env = W.make(name, c, seed=int(rng.randint(1 << 30)))
        scene(ctx, env, name)
        if rng.rand() < .4:
            env.reset()
            scene(ctx, env, name)
        pol = W.Policy(rng)
        watch = Watch(ctx, env, name)
        egos, road = list(env.controlled_vehicles), env.road
        for t in range(ctx.n(8, 25)):
            if rng.rand() < .15:
                relocate(rng, env, name)
            if "intersection" in name and rng.rand() < .3:
                hurry(rng, env)
            if "intersection" in name and rng.rand() < .35:
                ctx.count("agents_leaving", hurry_agent(rng, env))
            before = list(env.road.vehicles)
            watch.last = before
            env.step(pol(env.action_space))
            ctx.count("steps")
            ctx.seen(name, seed, t)
            ctx.ok(env.road is road and len(egos) == len(env.controlled_vehicles) and all(a is b for a, b in zip(egos, env.controlled_vehicles)), "identity",
                   "the road or the controlled vehicles were replaced during an episode")
            population(ctx, env, name, before, watch.last)
            for v in env.controlled_vehicles:
                v.crashed = False


def hurry(rng, env):
    """Move a vehicle near the point where it leaves."""
    vs = [v for v in env.road.vehicles if not any(v is e for e in env.controlled_vehicles)]
    if not vs:
        return
    send(rng, env, vs[rng.randint(len(vs))], rng.uniform(-32, -17))


def hurry_agent(rng, env):
    """Move agents near or past the end of an exit, beside the place where vehicles enter."""
    vs = env.controlled_vehicles
    out = 0
    for v in ([vs[rng.randint(len(vs))]] if rng.rand() < .7 else vs):
        send(rng, env, v, rng.uniform(-25, 2))
        out += 1
    return out


def send(rng, env, v, s):
    idx = ("il%d" % rng.randint(4),)
    idx = (idx[0], "o" + idx[0][2:], 0)
    lane = W.lane_of(env.road.network, idx)
    v.position = np.array(W.ref_position(lane, W.ref_length(lane) + s, 0))
    v.heading = W.ref_heading(lane, 0)
    v.on_state_update()
    v.target_lane_index, v.route = v.lane_index, [v.lane_index]


def unit(ctx, name, quick):
    for _ in range(ctx.n(quick, quick * 8)):
        if ctx.out_of_time():
            break
        episode(ctx, name, ctx.rng.randint(1 << 30))


# ------------------------------------------------------------------ independence
def owned(env):
    r = env.road
    out = {id(r): "road", id(r.network): "network", id(env.config): "config", id(r.vehicles): "vehicles", id(r.objects): "objects", id(env.np_random): "random",
           id(env.observation_type): "observation", id(env.action_type): "action"}
    for v in r.vehicles:
        out[id(v)] = "vehicle"
        out[id(v.position)] = "position"
        if getattr(v, "route", None) is not None:
            out[id(v.route)] = "route"
        if isinstance(getattr(v, "action", None), dict):
            out[id(v.action)] = "action"
    for o in r.objects:
        out[id(o)] = "object"
    for i in W.all_indexes(r.network):
        out[id(W.lane_of(r.network, i))] = "lane"
    return out


PARAMS = ("LENGTH", "WIDTH", "MAX_SPEED", "COLLISIONS_ENABLED", "DEFAULT_SPEEDS", "SPEED_MIN", "SPEED_MAX", "SPEED_COUNT", "ACC_MAX", "TIME_WANTED", "DELTA",
          "POLITENESS", "LANE_CHANGE_MIN_ACC_GAIN", "LANE_CHANGE_MAX_BRAKING_IMPOSED", "LANE_CHANGE_DELAY", "ACCELERATION_PARAMETERS", "STEERING_PARAMETERS",
          "ACCELERATION_RANGE", "STEERING_RANGE", "TAU_A", "TAU_DS", "KP_A", "KP_HEADING", "KP_LATERAL", "MAX_STEERING_ANGLE")
LEAKED = ("DISTANCE_WANTED", "COMFORT_ACC_MAX", "COMFORT_ACC_MIN")


def classes():
    cs = (Vehicle, ControlledVehicle, MDPVehicle, IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle, BicycleVehicle)
    return {(c.__name__, p): repr(getattr(c, p)) for c in cs for p in PARAMS + LEAKED if hasattr(c, p)}


def pairs(ctx):
    names = sorted(W.ENVS)
    for k in range(ctx.n(16, 120)):
        if ctx.out_of_time():
            break
        a, b = ("highway", "intersection") if k == 0 else (str(ctx.rng.choice(names)), str(ctx.rng.choice(names)))
        if k and ctx.rng.rand() < .3:
            b = a
        rng = np.random.RandomState(ctx.rng.randint(1 << 30))
        ca, cb = config(rng, a), config(rng, b)
        with ctx.guard(dict(envs=[a, b], configs=[ca, cb])):
            ea = W.make(a, ca, seed=int(rng.randint(1 << 30)))
            before, params = W.flat(W.snap(ea)), classes()
            eb = W.make(b, cb, seed=int(rng.randint(1 << 30)))
            ctx.count("pairs")
            d = W.first_diff(before, W.flat(W.snap(ea)))
            ctx.ok(d is None, "pair-construction", "building another environment changed this one: %s" % d)
            shared = set(owned(ea)) & set(owned(eb))
            ctx.ok(not shared, "shared", "two environments share %s" % sorted({owned(ea)[i] for i in shared}))
            pa, pb = W.Policy(rng), W.Policy(rng)
            for t in range(5):
                other = W.flat(W.snap(ea))
                eb.step(pb(eb.action_space))
                d = W.first_diff(other, W.flat(W.snap(ea)))
                ctx.ok(d is None, "pair-step", "stepping another environment changed this one: %s" % d)
                other = W.flat(W.snap(eb))
                ea.step(pa(ea.action_space))
                d = W.first_diff(other, W.flat(W.snap(eb)))
                ctx.ok(d is None, "pair-step", "stepping another environment changed this one: %s" % d)
                ctx.count("pair_steps")
                ctx.seen(a, b, other)
            eb.reset()
            for k, v in classes().items():
                if params[k] != v:
                    if k[1] in LEAKED and "intersection" in b:
                        ctx.fail("intersection-parameters-leak", "%s.%s changed from %s to %s by an intersection environment" % (k + (params[k], v)))
                    else:
                        ctx.fail("parameters-leak", "%s.%s changed from %s to %s by another environment" % (k + (params[k], v)))


def scramble(c):
    """alter everything in a nested configuration, in place"""
    for k in list(c) if isinstance(c, dict) else range(len(c)):
        if isinstance(c[k], (dict, list)):
            scramble(c[k])
        elif isinstance(c[k], (int, float)) and not isinstance(c[k], bool):
            c[k] = c[k] + 17
        elif isinstance(c[k], str):
            c[k] = c[k] + "?"


def defaults(ctx):
    """Whatever is done in place to the configuration of one environment, others of any class start from their own."""
    names = sorted(W.ENVS)
    fresh = {}
    for n in names:
        e = W.make(n, {}, seed=0)
        fresh[n] = (W.norm(e.config), W.norm(type(e).default_config()))
        e.close()
    for k in range(ctx.n(2, 8)):
        for n in names:
            with ctx.guard(dict(env=n, round=k)):
                e = W.make(n, {}, seed=k)
                other = W.make(n, {}, seed=k)
                scramble(e.config)
                ctx.count("scrambled")
                ctx.ok(W.norm(other.config) == fresh[n][0], "config-shared", "altering the configuration of an environment altered another's")
                c = type(e).default_config()
                scramble(c)
                for m in ([n] if k else names):
                    f = W.make(m, {}, seed=k)
                    ctx.ok(W.norm(f.config) == fresh[m][0] and W.norm(type(f).default_config()) == fresh[m][1], "config-shared", "the default configuration of %s was altered through another environment's (%s)" % (m, n))
                    f.close()
                ctx.seen(n, k)


# ------------------------------------------------------------------ constructors
def made(ctx):
    """make_on_lane, create_random and create_from with random arguments on random roads."""
    rng = ctx.rng
    for _ in range(ctx.n(500, 5000)):
        if ctx.out_of_time():
            break
        k = rng.randint(3)
        net = W.straight_net(int(rng.randint(1, 5)), 2000., angle=float(rng.uniform(-3, 3))) if k == 0 else W.chain_net(rng) if k == 1 else ctx_nets(ctx)[rng.randint(4)]
        road = Road(net, np_random=rng)
        idxs = W.all_indexes(net)
        idx = idxs[rng.randint(len(idxs))]
        lane = W.lane_of(net, idx)
        s = float(rng.uniform(0, W.ref_length(lane)))
        p, h = np.array(W.ref_position(lane, s, 0)), W.ref_heading(lane, s)
        with ctx.guard(dict(lane=idx, s=s)):
            ctx.count("made")
            ctx.seen(idx, s)
            for cls in (Obstacle, Landmark):
                o = cls.make_on_lane(road, idx, s)
                ctx.ok(np.allclose(o.position, p, atol=1e-6) and abs(W.wrap(o.heading - h)) < 1e-6 and o.speed == 0 and not o.hit and o.road is road, "object-on-lane",
                       "a %s made on lane %r at %.2f is at %r, heading %r, speed %r" % (cls.__name__, idx, s, o.position, o.heading, o.speed))
            cls = [Vehicle, ControlledVehicle, MDPVehicle, IDMVehicle, LinearVehicle, BicycleVehicle][rng.randint(6)]
            speed = None if rng.rand() < .3 else float(rng.uniform(0, 30))
            v = cls.make_on_lane(road, idx, s, speed)
            want = lane.speed_limit if speed is None else speed
            ctx.ok(np.allclose(v.position, p, atol=1e-6) and abs(W.wrap(float(np.squeeze(v.heading)) - h)) < 1e-6 and abs(float(np.squeeze(v.speed)) - want) < 1e-9, "vehicle-on-lane",
                   "a %s made on lane %r at %.2f, speed %r is at %r, %r, %r" % (cls.__name__, idx, s, speed, v.position, v.heading, v.speed))
            tracked(ctx, road, v, "when made on a lane")
            if isinstance(v, ControlledVehicle):
                ctx.ok(tuple(v.target_lane_index) == tuple(v.lane_index), "initial-target", "the initial target lane is not the current lane")
                if not isinstance(v, MDPVehicle):
                    ctx.close(v.target_speed, v.speed, "initial-target-speed", "initial target speed")
            road.vehicles.append(v)
            # a random vehicle ahead of it
            cls2 = [Vehicle, MDPVehicle, IDMVehicle][rng.randint(3)]
            if k == 0:
                sp, lid, gap = (None if rng.rand() < .5 else float(rng.uniform(5, 30))), (None if rng.rand() < .5 else int(rng.randint(len(idxs)))), float(rng.uniform(.2, 3))
                w = cls2.create_random(road, speed=sp, lane_id=lid, spacing=gap)
                if lid is not None:
                    ctx.ok(w.lane_index[2] == lid, "random-lane", "created on lane %r instead of %d" % (w.lane_index, lid))
                if sp is not None:
                    ctx.ok(float(w.speed) == sp, "random-speed", "created at %r instead of %r" % (w.speed, sp))
                s2, r2 = W.ref_local(W.lane_of(net, w.lane_index), w.position)
                s1, _ = W.ref_local(W.lane_of(net, w.lane_index), v.position)
                off = gap * 1.5 * float(w.speed) * math.exp(-5 / 30 * len(idxs))
                ctx.ok(abs(r2) < 1e-6 and .9 * off - 1e-6 <= s2 - s1 <= 1.1 * off + 1e-6, "random-place", "created (%.2f, %.2f) ahead, %.2f expected" % (s2 - s1, r2, off))
                ctx.ok(len(road.vehicles) == 1, "random-appended", "creating a vehicle also added it to the road")
            c = cls2.create_from(v)
            ctx.ok(np.array_equal(c.position, v.position) and c.position is not v.position and float(np.squeeze(c.heading)) == float(np.squeeze(v.heading)) and
                   float(np.squeeze(c.speed)) == float(np.squeeze(v.speed)) and type(c) is cls2 and c.road is road, "create-from", "a vehicle created from another differs from it")


NETS = []


def ctx_nets(ctx):
    if not NETS:
        for n in ("merge", "roundabout", "intersection", "two-way"):
            NETS.append(W.make(n, {}, seed=1).road.network)
    return NETS


def kept_near(ctx):
    """Making room for an agent removes the vehicles within 20 m of it, not those a little farther away."""
    env = W.make("multi-intersection", {"controlled_vehicles": 4, "initial_vehicle_count": 14}, seed=int(ctx.rng.randint(1 << 30)))
    far = [0] * 4
    n = 60
    for k in range(n):
        with ctx.guard(dict(reset=k)):
            env.reset()
            others = [v for v in env.road.vehicles if not any(v is c for c in env.controlled_vehicles)]
            for i, a in enumerate(env.controlled_vehicles):
                for v in others:
                    d = math.hypot(*(v.position - a.position))
                    ctx.ok(d >= 20 - 1e-9, "too-close", "a vehicle is %.2f m from agent %d after a reset" % (d, i))
                    far[i] += d < 26
            ctx.count("kept_near_resets")
    ctx.ok(min(far) > 0, "removed-too-far", "in %d crowded resets, %r vehicles were 20-26 m from each agent" % (n, far))


def challenger(ctx):
    """Without random traffic, one vehicle comes to cross straight, on any entry; next to the agent it is removed."""
    n, seen, entries = 160, 0, set()
    env = W.make("intersection", {"initial_vehicle_count": 1}, seed=int(ctx.rng.randint(1 << 30)))
    for k in range(n):
        with ctx.guard(dict(reset=k)):
            env.reset()
            ctx.count("challenger_resets")
            others = [v for v in env.road.vehicles if v is not env.vehicle]
            ctx.ok(len(others) <= 1, "vehicles-count", "%d vehicles besides the agent and the challenger" % (len(others) - 1))
            for v in others:
                a = v.lane_index[0]
                seen += 1
                entries.add(a)
                ctx.seen("challenger", float(v.position[0]), float(v.position[1]))
                s, r = W.ref_local(W.lane_of(env.road.network, v.lane_index), v.position)
                ctx.ok(v.lane_index[1] == "ir" + a[1:] and abs(r) < 1e-6 and 64 < s < 66 and abs(float(v.speed) - 8) < 1e-6, "challenger", "the challenger is at (%.2f, %.2f) of %r, speed %r" % (s, r, v.lane_index, v.speed))
                ctx.ok(destination(v) == "o%d" % ((int(a[1:]) + 2) % 4), "challenger-route", "the challenger goes from %s to %s" % (a, destination(v)))
    ctx.ok(seen >= .58 * n, "challenger-missing", "a challenger was present at %d of %d resets (three entries out of four are free)" % (seen, n))
    ctx.ok(len(entries) >= 3, "challenger-entries", "challengers only came from %s" % sorted(entries))


def variety(ctx):
    """What the configuration leaves open is drawn at random, over all its choices (each missed with a probability below 1e-6)."""
    rng = ctx.rng

    def drawn(name, got, want, why):
        ctx.count("drawn", len(got))
        ctx.seen(name, sorted(map(str, got)))
        ctx.ok(set(want) <= set(got), "variety:" + name, "%s: only %s of %s ever drawn" % (why, sorted(map(str, set(got))), sorted(map(str, want))))

    for lanes, imposed in ((2, False), (3, False), (2, True), (3, True)):
        with ctx.guard(dict(env="highway", lanes=lanes, imposed=imposed)):
            env = W.make("highway", {"lanes_count": lanes, "vehicles_count": 45, "initial_lane_id": int(rng.randint(lanes)) if imposed else None, "vehicles_density": 2.},
                         seed=int(rng.randint(1 << 30)))
            traffic = [v for v in env.road.vehicles if v is not env.vehicle]
            drawn("traffic-lane", {v.lane_index[2] for v in traffic}, range(lanes), "lanes of the traffic")
            ctx.ok(len({float(v.speed) for v in traffic}) > 20, "variety:speeds", "the traffic's initial speeds do not vary")
            quiet = W.make("highway", {"lanes_count": lanes, "vehicles_count": 0, "initial_lane_id": None}, seed=int(rng.randint(1 << 30)))
            ego = set()
            for _ in range(45):
                quiet.reset()
                ego.add(quiet.vehicle.lane_index[2])
            drawn("ego-lane", ego, range(lanes), "initial lanes of the ego vehicle")
    with ctx.guard(dict(env="intersection")):
        env = W.make("intersection", {"destination": None, "initial_vehicle_count": 10}, seed=int(rng.randint(1 << 30)))
        dest, pairs_, ego_s = set(), set(), set()
        for _ in range(50):
            env.reset()
            dest.add(destination(env.vehicle))
            ego_s.add(float(env.vehicle.position[1]))
            pairs_ |= {(v.route[0][0], destination(v)) for v in env.road.vehicles if v is not env.vehicle and v.route and v.route[0][0].startswith("o")}
        drawn("ego-destination", dest, ["o1", "o2", "o3"], "destinations of the agent")
        ctx.ok(len(ego_s) > 40, "variety:ego-position", "the agent's initial position does not vary")
        drawn("traffic-destination", {d for _, d in pairs_}, ["o0", "o1", "o2", "o3"], "destinations of the traffic")
        drawn("traffic-entry", {a for a, _ in pairs_}, ["o1", "o2", "o3"], "entries of the traffic")
    with ctx.guard(dict(env="roundabout")):
        env = W.make("roundabout", {"incoming_vehicle_destination": None}, seed=int(rng.randint(1 << 30)))
        dest, place = [set() for _ in range(4)], set()
        for _ in range(45):
            env.reset()
            for d, v in zip(dest, env.road.vehicles[1:]):
                d.add(destination(v))
                place.add(float(v.position[0]))
        for k, d in enumerate(dest):
            drawn("roundabout-destination", d, ["exr", "sxr", "nxr"], "destinations of vehicle %d" % (k + 1))
        ctx.ok(len(place) > 150, "variety:positions", "the initial positions do not vary")
    for name, moving in (("two-way", 5),):
        with ctx.guard(dict(env=name)):
            env = W.make(name, {}, seed=int(rng.randint(1 << 30)))
            place = set()
            for _ in range(20):
                env.reset()
                place |= {float(v.position[0]) for v in env.road.vehicles[1:]}
            ctx.ok(len(place) > 15 * moving, "variety:positions", "the initial positions of %s do not vary (%d distinct)" % (name, len(place)))


def crowded(ctx):
    """More agents than the intersection has entries."""
    for n in (5, 6, 8):
        for k in range(3):
            with ctx.guard(dict(env="multi-intersection", agents=n)):
                env = W.make("multi-intersection", {"controlled_vehicles": n}, seed=int(ctx.rng.randint(1 << 30)))
                ctx.seen("crowded", n, k)
                ctx.ok(len(env.controlled_vehicles) == n, "controlled-count", "%d agents instead of %d" % (len(env.controlled_vehicles), n))
                lost = [i for i, v in enumerate(env.controlled_vehicles) if not any(v is w for w in env.road.vehicles)]
                ctx.ok(not lost, "ego-missing", "agents %s of %d are not on the road" % (lost, n))


def units(tier):
    return units_(tier) + [("defaults", defaults, dict())]


def units_(tier):
    quick = {"highway": 20, "merge": 20, "roundabout": 18, "intersection": 14, "multi-intersection": 10, "parking": 20, "summon": 20, "two-way": 20, "lane-keeping": 10}
    return [("%s-%d" % (n, k), unit, dict(name=n, quick=q)) for n, q in quick.items() for k in range(2)] + \
        [("pairs-%d" % k, pairs, {}) for k in range(2)] + [("made", made, {}), ("challenger", challenger, {}), ("kept-near", kept_near, {}), ("variety", variety, {}), ("crowded", crowded, {})]
