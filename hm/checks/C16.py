"""Low-level control: the commands of every controlled vehicle recomputed at every act, and convergence along simulated runs."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import (Road, RoadNetwork, StraightLane, SineLane, CircularLane, ControlledVehicle, MDPVehicle, IDMVehicle,
                      LinearVehicle)

RULE = ("(a) every act of every controlled vehicle in episodes of all environments that have some, and of vehicles in random poses, speeds "
        "(negative, near zero, above limit) and target lanes: command recomputed from the documented cascade; (b) runs on straight, sine and "
        "circular lanes at 5-60 Hz from random offsets, with lane and speed changes; (c) drives along planned routes over the environments' "
        "networks and random chains; a case is one command or one run; distinct by pose, lane and targets")
REQUIRED = {"commands_steer": 8000, "commands_speed": 4000, "steer_saturated": 100, "slow_commands": 200, "runs_straight": 50, "runs_sine": 15,
            "runs_circular": 15, "lane_changes": 35, "switch_route": 150, "switch_free": 40, "switch_dead_end": 20, "route_drives": 30,
            "roads_visited": 90, "other_lengths": 500}

KP_A, KP_HEADING, KP_LATERAL, PURSUIT, MAX_STEER = 1 / .6, 5., 5. / 3, .1, math.pi / 3


def clip(x, lo, hi):
    return min(max(x, lo), hi)


def not_zero(x):
    return x if abs(x) > 1e-2 else (1e-2 if x > 0 else -1e-2)


def ref_steering(lane, p, heading, speed, length):
    """Documented cascade, with the marginality of its discontinuous points."""
    s, r = W.ref_local(lane, p)
    h_lane = W.ref_heading(lane, s + speed * PURSUIT)
    hc = clip(math.asin(clip(-KP_LATERAL * r / not_zero(speed), -1, 1)), -math.pi / 4, math.pi / 4)
    err = W.wrap(h_lane + hc - heading)
    x = length / 2 / not_zero(speed) * KP_HEADING * err
    return clip(math.asin(clip(x, -1, 1)), -MAX_STEER, MAX_STEER), abs(abs(err) - math.pi), abs(x) > math.sin(MAX_STEER)


def marginal(lane, p, speed):
    if abs(abs(speed) - 1e-2) < 1e-9 or abs(speed) < 1e-12:
        return True
    if W.lane_kind(lane) == "circular":
        phi = W.wrap(math.atan2(p[1] - lane.center[1], p[0] - lane.center[0]) - lane.start_phase)
        if abs(abs(phi) - math.pi) < 1e-4 or math.hypot(p[0] - lane.center[0], p[1] - lane.center[1]) < 1e-2:
            return True
    return False


class Monitor:
    """Checks the commands of the controlled vehicles of a road around one act of the road."""

    def __init__(self, ctx, road):
        self.ctx, self.road = ctx, road

    def before(self):
        self.pre = {}
        for v in self.road.vehicles:
            if isinstance(v, ControlledVehicle):
                self.pre[id(v)] = (tuple(v.target_lane_index), None if v.route is None else [tuple(r) for r in v.route], np.array(v.position),
                                   float(v.heading), float(v.speed), float(v.target_speed), bool(v.crashed), v)

    def after(self):
        ctx, net = self.ctx, self.road.network
        for t0, route, p, h, sp, ts, crashed, v in self.pre.values():
            if isinstance(v, IDMVehicle) and crashed:
                continue
            ctx.ok(np.array_equal(p, v.position) and h == v.heading and sp == v.speed, "deciding-moves", "act changed the pose of a vehicle")
            idm = isinstance(v, IDMVehicle)
            with ctx.guard(dict(v=W.vstate(v), before=t0, route=route)):
                self.succession(t0, route, p, v, idm)
                t1 = tuple(v.target_lane_index)
                if not isinstance(v, LinearVehicle):
                    lane = W.lane_of(net, t1)
                    if not marginal(lane, p, sp):
                        want, seam, sat = ref_steering(lane, p, h, sp, v.LENGTH)
                        if seam > 1e-6:
                            ctx.count("commands_steer")
                            ctx.count("steer_saturated", int(sat))
                            ctx.count("slow_commands", int(abs(sp) < 1))
                            ctx.close(float(v.action["steering"]), want, "steering-command", "steering is not the documented cascade", tol=1e-6)
                            ctx.seen(p, h, sp, t1)
                    ctx.ok(abs(float(v.action["steering"])) <= MAX_STEER + 1e-9, "steering-bound", "steering command beyond the maximum angle")
                if not idm:
                    ctx.count("commands_speed")
                    ctx.close(float(v.action["acceleration"]), KP_A * (float(v.target_speed) - sp), "speed-command",
                              "acceleration is not proportional to the speed error")
                    ctx.ok(float(v.target_speed) == ts, "target-speed-changed", "acting without a meta-action changed the target speed")

    def succession(self, t0, route, p, v, idm):
        ctx, net = self.ctx, self.road.network
        lane = W.lane_of(net, t0)
        if marginal(lane, p, 1.):
            return
        s, L = W.ref_local(lane, p)[0], W.ref_length(lane)
        if abs(s - (L - 2.5)) < 1e-6:
            return
        t1 = tuple(v.target_lane_index)
        if s < L - 2.5:
            if not idm:
                ctx.ok(t1 == t0, "target-lane-changed", "target lane changed before the end of the lane", before=t0, after=t1)
            else:
                ctx.ok(t1[:2] == t0[:2] or t1[:2] == tuple(v.lane_index)[:2], "target-road-changed",
                       "target road changed before the end of the lane", before=t0, after=t1)
            return
        r = list(route or [])
        if r and r[0][:2] == t0[:2]:
            r = r[1:]
        out = list(net.graph.get(t0[1], {}))
        if r and r[0][0] == t0[1]:
            ctx.count("switch_route")
            roads = [(t0[1], r[0][1])]
        elif out:
            ctx.count("switch_free")
            roads = [(t0[1], o) for o in out]
        else:
            ctx.count("switch_dead_end")
            roads = [t0[:2]]
        ctx.ok(t1[:2] in roads or (idm and t1[:2] == tuple(v.lane_index)[:2]), "succession-road",
               "vehicle at the end of its lane does not continue on the next road of its route", before=t0, after=t1, allowed=roads)
        if not idm and t1[:2] in roads and out:
            n0, n1 = len(net.graph[t0[0]][t0[1]]), len(net.graph[t1[0]][t1[1]])
            if n0 == n1:
                ctx.ok(t1[2] == t0[2], "succession-lane", "lane number changed between roads with the same number of lanes", before=t0, after=t1)
            else:
                d = sorted((W.ref_lane_distance(W.lane_of(net, (t1[0], t1[1], i)), p), i) for i in range(n1))
                if len(d) == 1 or d[1][0] - d[0][0] > 1e-6:
                    ctx.ok(t1[2] == d[0][1], "succession-lane", "next lane is not the closest of the next road", before=t0, after=t1)


def attach(ctx, road):
    m = Monitor(ctx, road)
    W.tap(road, before_act=m.before, after_act=m.after)
    return m


def episodes(ctx, name, runs, steps):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        cfg = W.random_env_config(rng, name)
        if name not in ("parking", "summon", "lane-keeping") and rng.rand() < .7:
            cfg["other_vehicles_type"] = W.TRAFFIC[[0, 2, 3][rng.randint(3)]]
        with ctx.guard(dict(env=name, config=cfg, run=k)):
            env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
            attach(ctx, env.road)
            pol = W.Policy(rng)
            for t in range(steps):
                if np.all(env.step(pol(env.action_space))[2]):
                    break


def random_poses(ctx, count):
    """Commands in arbitrary poses, also extreme ones."""
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            return
        r = rng.rand()
        net = (W.straight_net(lanes=rng.randint(1, 4), length=300., angle=float(rng.uniform(-3, 3))) if r < .3 else
               W.chain_net(rng) if r < .5 else W.random_env_roads(rng)[1].road.network)
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        idx = W.all_indexes(net)
        for _ in range(40):
            i = idx[rng.randint(len(idx))]
            lane = W.lane_of(net, i)
            L = lane.length
            p = np.asarray(lane.position(float(rng.uniform(-5, L + 4) if rng.rand() < .6 else rng.uniform(L - 3, L + 3)), float(rng.normal() * rng.choice([.3, 2, 8]))))
            h = lane.heading_at(0) + float(rng.normal() * rng.choice([.1, 1, 4]))
            sp = float(rng.choice([rng.uniform(0, 40), rng.uniform(-.5, .5), rng.uniform(-10, 0)]))
            target = tuple(i) if rng.rand() < .8 else tuple(idx[rng.randint(len(idx))])
            v = ControlledVehicle(road, p, h, sp, target_lane_index=target, target_speed=float(rng.uniform(-5, 40)))
            if rng.rand() < .3:
                v.LENGTH = float(rng.choice([2., 3.5, 9., 14.]))
                ctx.count("other_lengths")
            if rng.rand() < .6:
                v.plan_route_to(W.all_indexes(net)[rng.randint(len(idx))][1])
            road.vehicles = [v]
            m = Monitor(ctx, road)
            m.before()
            road.act()
            m.after()


def make_lane(rng, kind):
    a = float(rng.uniform(-3, 3))
    end = [2500 * math.cos(a), 2500 * math.sin(a)]
    if kind == "straight":
        return StraightLane([0, 0], end), 0., 40.
    if kind == "sine":
        A, wl = float(rng.uniform(.5, 3)), float(rng.uniform(80, 200))
        k = A * (2 * math.pi / wl) ** 2
        return SineLane([0, 0], end, A, 2 * math.pi / wl, float(rng.uniform(-3, 3))), k, min(40., math.sqrt(2.5 / k))
    R = float(rng.uniform(20, 300))
    cw = bool(rng.rand() < .5)
    return CircularLane([0, 0], R, a, a + (1 if cw else -1) * 2.9, clockwise=cw), 1 / R, math.sqrt(4 * R)


def settle(ctx, kind, runs):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        lane, curv, vmax = make_lane(rng, kind)
        f = int(rng.choice([5, 10, 15, 20, 30, 60] if kind == "straight" else [10, 15, 20, 30, 60]))
        dt = 1. / f
        v0, vt = [float(x) for x in rng.uniform(3, max(3.5, vmax), size=2)]
        net = RoadNetwork()
        net.add_lane("a", "b", lane)
        road = Road(net, np_random=np.random.RandomState(0))
        lat0, dh = float(rng.uniform(-1.8, 1.8)), float(rng.choice([0, rng.uniform(-.1, .1)]))
        cls = [ControlledVehicle, MDPVehicle][rng.randint(2)]
        v = cls(road, np.asarray(lane.position(5., lat0)), lane.heading_at(5.) + dh, v0, target_speed=vt)
        vt = float(v.target_speed)
        if vt > vmax and kind != "straight":
            v.target_speed = vt = vmax
        road.vehicles.append(v)
        with ctx.guard(dict(kind=kind, f=f, v0=v0, vt=vt, lat0=lat0, dh=dh, run=k, cls=cls.__name__)):
            lats, speeds = [], []
            for i in range(int(14 / dt)):
                road.act()
                road.step(dt)
                s, r = W.ref_local(lane, v.position)
                if s > W.ref_length(lane) - 10:
                    break
                lats.append(abs(r))
                speeds.append(float(v.speed))
            if len(lats) * dt < 8:
                continue
            ctx.count("runs_" + kind)
            ctx.seen(kind, f, v0, vt, lat0, dh)
            vm = max(v0, vt)
            steady = .02 + 1.15 * .6 * (curv * vm * vm * (.1 + dt) + curv * vm * 2.5) * (1.6 if kind == "sine" else 1)
            ctx.ok(max(lats[int(7 / dt):]) <= steady, "lateral-convergence", "does not settle on the centre of its lane and stay there",
                   worst=max(lats[int(7 / dt):]), allowed=steady)
            ctx.ok(max(lats) <= abs(lat0) + vm * abs(dh) * .5 + steady + (1. if lat0 and f >= 10 else 2.), "lateral-excursion", "leaves its lane while settling",
                   worst=max(lats))
            ctx.ok(max(lats[int(3.5 / dt):]) <= steady + .15 * abs(lat0) + .1 * vm * abs(dh) + .05, "lateral-rate", "settles too slowly",
                   worst=max(lats[int(3.5 / dt):]))
            n6 = int(6 / dt)
            ctx.ok(max(abs(x - vt) for x in speeds[n6:]) <= 2e-3 * abs(vt - v0) + 1e-3, "speed-convergence", "does not settle on its target speed",
                   worst=max(abs(x - vt) for x in speeds[n6:]))
            # proportional control: the error shrinks monotonically, without overshoot
            e = [(x - vt) * (1 if v0 >= vt else -1) for x in speeds]
            ctx.ok(min(e) >= -1e-6 and all(b <= a + 1e-9 for a, b in zip(e, e[1:])), "speed-overshoot", "speed error grows or changes sign")
            ctx.sample(kind=kind, f=f, final_lat=lats[-1], final_speed=speeds[-1], target=vt)


def lane_changes(ctx, runs):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        f = int(rng.choice([5, 10, 15, 20, 30, 60]))
        dt = 1. / f
        v0, vt = [float(x) for x in rng.uniform(5, 40, size=2)]
        net = W.straight_net(4, 3000., float(rng.uniform(-3, 3)))
        road = Road(net, np_random=np.random.RandomState(0))
        i0 = int(rng.randint(4))
        lane = net.get_lane(("0", "1", i0))
        v = ControlledVehicle(road, np.asarray(lane.position(10., 0.)), lane.heading_at(0.), v0, target_speed=vt)
        road.vehicles.append(v)
        m = attach(ctx, road)
        with ctx.guard(dict(f=f, v0=v0, vt=vt, lane=i0, run=k)):
            v.act(["LANE_LEFT", "LANE_RIGHT"][rng.randint(2)])
            t = tuple(v.target_lane_index)
            target = net.get_lane(t)
            d0 = W.ref_local(target, v.position)[1]
            sgn = 1 if d0 >= 0 else -1
            lats = []
            for i in range(int(8 / dt)):
                road.act()
                road.step(dt)
                lats.append(sgn * W.ref_local(target, v.position)[1])
            ctx.count("lane_changes", int(t[2] != i0))
            ctx.seen(f, v0, vt, i0, t)
            ctx.ok(tuple(v.target_lane_index) == t, "target-lane-changed", "target lane changed during the manoeuvre")
            ctx.ok(min(lats) >= -(1.25 if f >= 10 else 2.), "lane-change-overshoot", "overshoots out of its target lane", worst=min(lats))
            ctx.ok(max(lats) <= abs(d0) + 1e-6, "lane-change-wrong-way", "moves away from its target lane")
            ctx.ok(abs(lats[int(3 / dt)]) <= .35, "lane-change-slow", "has not reached its target lane after 3 s", lateral=lats[int(3 / dt)])
            ctx.ok(max(abs(x) for x in lats[int(6 / dt):]) <= .03, "lane-change-settle", "does not settle on its target lane",
                   worst=max(abs(x) for x in lats[int(6 / dt):]))
            ctx.ok(tuple(v.lane_index) == t, "lane-change-arrival", "the current lane does not become the target lane", lane=v.lane_index, target=t)


def route_drives(ctx, runs):
    """Drives along planned routes over the environments' networks: the roads of the route are visited in order, near the centre of the lane."""
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        if rng.rand() < .75:
            name = ["merge", "roundabout", "intersection"][rng.randint(3)]
            net = W.make(name, {}, seed=int(rng.randint(1 << 30))).road.network
        else:
            name, net = "chain", W.chain_net(rng, pieces=4)
            n = len(net.graph["0"]["1"])
            if any(len(ls) != n for to in net.graph.values() for ls in to.values()):
                continue
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        entries = [i for i in W.all_indexes(net) if W.lane_kind(W.lane_of(net, i)) == "straight" and W.ref_length(W.lane_of(net, i)) > 30]
        start = entries[rng.randint(len(entries))]
        dests = sorted({t for to in net.graph.values() for t in to})
        lane = W.lane_of(net, start)
        speed = float({"merge": rng.uniform(10, 30), "chain": rng.uniform(5, 40), "roundabout": rng.uniform(5, 11), "intersection": rng.uniform(4, 8)}[name])
        s0 = float(rng.uniform(5, min(40, lane.length * .5)))
        v = ControlledVehicle(road, np.asarray(lane.position(s0, 0.)), lane.heading_at(s0), speed, target_lane_index=start, target_speed=speed)
        v.plan_route_to(dests[rng.randint(len(dests))])
        route = [tuple(r) for r in v.route]
        if len(route) < 2:
            continue
        road.vehicles.append(v)
        attach(ctx, road)
        f = int(rng.choice([10, 15, 20, 30]))
        with ctx.guard(dict(network=name, route=route, speed=speed, f=f, run=k, start=start)):
            ctx.count("route_drives")
            ctx.seen(name, route, speed, f, s0)
            visited, worst, base = [tuple(v.target_lane_index)[:2]], 0., 0.
            length = sum(W.ref_length(W.lane_of(net, (r[0], r[1], 0))) for r in route)
            for i in range(int(f * (length + 20) / speed) + 10):
                road.act()
                t = tuple(v.target_lane_index)
                if t[:2] != visited[-1]:
                    visited.append(t[:2])
                    # successive lanes need not be aligned (lane choice, exits): the jump itself is not a control error
                    base = abs(W.ref_local(W.lane_of(net, t), v.position)[1])
                road.step(1. / f)
                s, r = W.ref_local(W.lane_of(net, t), v.position)
                worst = max(worst, abs(r) - base)
                if t[:2] == route[-1][:2] and s > W.ref_length(W.lane_of(net, t)) - 4:
                    break
            ctx.count("roads_visited", len(visited))
            ctx.ok(visited == [r[:2] for r in route], "route-not-followed", "roads visited differ from the planned route", visited=visited)
            ctx.ok(worst < 1.2, "route-off-lane", "leaves its lane while following its route", worst=worst)
            ctx.sample(network=name, visited=visited, worst_lateral=worst)


def units(tier):
    q = tier == "quick"
    u = []
    for name, k, steps in (("highway", 4, 6), ("merge", 6, 12), ("roundabout", 5, 11), ("intersection", 4, 9), ("multi-intersection", 3, 8), ("two-way", 5, 10)):
        for j in range(1 if q else 6):
            u.append(("episodes-%s-%d" % (name, j), episodes, dict(name=name, runs=k if q else 4 * k, steps=steps if q else 20)))
    for j in range(2 if q else 8):
        u.append(("poses-%d" % j, random_poses, dict(count=60 if q else 500)))
        for kind, n in (("straight", 40), ("sine", 14), ("circular", 20)):
            u.append(("settle-%s-%d" % (kind, j), settle, dict(kind=kind, runs=n if q else 6 * n)))
        u.append(("lane-changes-%d" % j, lane_changes, dict(runs=45 if q else 300)))
        u.append(("routes-%d" % j, route_drives, dict(runs=70 if q else 300)))
    return u
