"""Intelligent driver model: every command of every simulated driver recomputed, and the behaviour of free vehicles and platoons."""
import math

import numpy as np

from hm import world as W
from hm.world import Road, ControlledVehicle, IDMVehicle, LinearVehicle, Vehicle, Obstacle, Landmark

RULE = ("(a) every decision of every intelligent driver in episodes of all environments with traffic and in random scenes (other vehicles "
        "ahead, behind, beside and oncoming, obstacles, landmarks, null and negative target speeds); (b) single vehicles on free straight and "
        "curved roads; (c) platoons of 1-6 followers starting at safe gaps behind a leader that brakes at up to 5 m/s2 at random, at 5-30 Hz; a "
        "case is one command or one run; distinct by poses, speeds and neighbours")
REQUIRED = {"commands": 5000, "with_front": 2000, "free": 500, "saturated": 200, "front_obstacle": 100, "runs_free": 45, "runs_platoon": 30,
            "platoon_steps": 5000, "leader_stops": 6, "crashed_skipped": 1, "closing_front": 500}
# documented default parameters of the model
DEFAULTS = dict(ACC_MAX=6., COMFORT_ACC_MAX=3., COMFORT_ACC_MIN=-5., DISTANCE_WANTED=10., TIME_WANTED=1.5, DELTA=4.)


class Monitor:
    def __init__(self, ctx, road):
        self.ctx, self.road = ctx, road

    def before(self):
        self.pre = []
        for v in self.road.vehicles:
            if isinstance(v, IDMVehicle) and not isinstance(v, LinearVehicle):
                self.pre.append((v, bool(v.crashed), {k: float(x) for k, x in v.action.items()} if v.action else None))

    def after(self):
        ctx = self.ctx
        for v, crashed, old in self.pre:
            if crashed:
                ctx.count("crashed_skipped")
                continue
            if v.lane_index is None:
                continue
            front, _, marginal = W.ref_neighbours(self.road, v, v.lane_index)
            if marginal:
                continue
            got = float(v.action["acceleration"])
            want = W.ref_idm(v, v, front)
            ctx.count("commands")
            ctx.count("with_front" if front is not None else "free")
            ctx.count("front_obstacle", int(isinstance(front, Obstacle)))
            ctx.count("saturated", int(abs(want) > v.ACC_MAX))
            if front is not None:
                ctx.count("closing_front", int(float(v.speed) > float(front.speed) + .5))
            ctx.seen(v.position, v.speed, v.target_speed, None if front is None else (front.position, front.speed))
            with ctx.guard(dict(v=W.vstate(v), front=None if front is None else W.vstate(front))):
                ctx.close(got, min(max(want, -v.ACC_MAX), v.ACC_MAX), "idm-acceleration", "acceleration is not the intelligent-driver one",
                          tol=1e-5, rtol=1e-5)


def attach(ctx, road):
    m = Monitor(ctx, road)
    W.tap(road, before_act=m.before, after_act=m.after)


def episodes(ctx, name, runs, steps):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        cfg = W.random_env_config(rng, name)
        cfg["other_vehicles_type"] = W.IDM
        if name == "highway":
            cfg["vehicles_count"] = int(rng.randint(3, 10))
        with ctx.guard(dict(env=name, config=cfg, run=k)):
            env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
            attach(ctx, env.road)
            pol = W.Policy(rng)
            for t in range(steps):
                if np.all(env.step(pol(env.action_space))[2]):
                    break


def scenes(ctx, count):
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            return
        r = rng.rand()
        net = (W.straight_net(lanes=rng.randint(1, 4), length=300., angle=float(rng.uniform(-3, 3))) if r < .5 else
               W.chain_net(rng) if r < .7 else W.random_env_roads(rng)[1].road.network)
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        idx = W.all_indexes(net)
        home = [idx[rng.randint(len(idx))] for _ in range(2)]
        for _ in range(rng.randint(1, 9)):
            lane = W.lane_of(net, home[rng.randint(2)])
            s = float(rng.uniform(0, min(lane.length, 120)))
            cls = [IDMVehicle, IDMVehicle, IDMVehicle, ControlledVehicle, Vehicle][rng.randint(5)]
            h = float(lane.heading_at(s)) + float(rng.normal() * .2) + (math.pi if rng.rand() < .1 else 0)
            kw = {}
            if cls is not Vehicle:
                kw["target_speed"] = float(rng.choice([0., rng.uniform(1, 35), rng.uniform(-3, 0)], p=[.1, .85, .05]))
            road.vehicles.append(cls(road, np.asarray(lane.position(s, float(rng.normal() * rng.choice([.2, 1.5])))), h,
                                     float(rng.choice([rng.uniform(0, 35), 0., rng.uniform(-3, 0)], p=[.85, .1, .05])), **kw))
        for _ in range(rng.randint(0, 3)):
            lane = W.lane_of(net, home[rng.randint(2)])
            road.objects.append([Obstacle, Landmark][rng.randint(2)](road, lane.position(float(rng.uniform(0, min(lane.length, 120))), 0.)))
        with ctx.guard(dict(scene=[W.vstate(v) for v in road.vehicles], objects=[W.vstate(o) for o in road.objects], k=k)):
            attach(ctx, road)
            for _ in range(4):
                road.act()
                road.step(1 / 15)


def free_road(ctx, runs):
    rng = ctx.rng
    for k, v in DEFAULTS.items():
        ctx.close(getattr(IDMVehicle, k), v, "documented-parameters", "published parameter %s of the driver model" % k)
    for k in range(runs):
        if ctx.out_of_time():
            return
        f = int(rng.choice([5, 10, 15, 20, 30]))
        net = W.straight_net(1, 20000., float(rng.uniform(-3, 3)))
        road = Road(net, np_random=np.random.RandomState(0))
        lane = net.get_lane(("0", "1", 0))
        v0, vt = float(rng.uniform(0, 38)), float(rng.uniform(4, 38))
        v = IDMVehicle(road, np.asarray(lane.position(10., 0.)), lane.heading_at(0), v0, target_speed=vt)
        road.vehicles.append(v)
        with ctx.guard(dict(f=f, v0=v0, vt=vt, run=k)):
            speeds = [v0]
            for _ in range(int(45 * f)):
                road.act()
                road.step(1. / f)
                speeds.append(float(v.speed))
            ctx.count("runs_free")
            ctx.seen(f, v0, vt)
            e = [vt - x for x in speeds]
            sgn = 1 if e[0] >= 0 else -1
            ctx.ok(all(sgn * x >= -1e-6 for x in e), "free-overshoot", "overshoots its target speed on a free road", worst=min(sgn * x for x in e))
            ctx.ok(all(abs(b) <= abs(a) + 1e-9 for a, b in zip(e, e[1:])), "free-monotone", "speed error grows on a free road")
            ctx.ok(abs(e[-1]) <= .05 * vt * .2, "free-convergence", "does not tend to its target speed", final=speeds[-1])


class Leader(ControlledVehicle):
    cmd = 0.

    def act(self, action=None):
        self.action = {"steering": 0., "acceleration": self.cmd}


def platoons(ctx, runs, seconds):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        f = int(rng.choice([5, 10, 15, 20, 30]))
        dt = 1. / f
        net = W.straight_net(1, 30000., float(rng.uniform(-3, 3)))
        road = Road(net, np_random=np.random.RandomState(0))
        lane = net.get_lane(("0", "1", 0))
        brake = float(rng.uniform(1, 5))
        v, s = float(rng.uniform(0, 30)), 800.
        lead = Leader(road, np.asarray(lane.position(s, 0.)), lane.heading_at(0), v)
        road.vehicles.append(lead)
        gaps = []
        for _ in range(rng.randint(1, 7)):
            vf = float(np.clip(v + rng.uniform(-3, 3), 0, 30))
            # safe: the documented desired gap, and room to match the speed of the vehicle ahead at comfortable braking
            g = (10. + 1.5 * vf + max(0., vf * (vf - v) / (2 * math.sqrt(15))) + max(0., (vf ** 2 - v ** 2) / 10)) * float(rng.uniform(1, 1.5))
            s, v = s - g, vf
            gaps.append(g)
            road.vehicles.append(IDMVehicle(road, np.asarray(lane.position(s, 0.)), lane.heading_at(0), vf, target_speed=float(rng.uniform(10, 35))))
        order = list(road.vehicles)
        rng.shuffle(road.vehicles)
        attach(ctx, road)
        with ctx.guard(dict(f=f, brake=brake, gaps=gaps, speeds=[float(x.speed) for x in order], run=k)):
            hold, base, stopped = 0, 0., False
            ctx.count("runs_platoon")
            ctx.seen(f, brake, gaps)
            for i in range(int(seconds * f)):
                if hold <= 0:
                    hold, base = int(f * rng.uniform(.5, 4)), float(rng.choice([-brake, -brake / 2, 0, 2, 3]))
                hold -= 1
                c = base
                if lead.speed + c * dt < 0:
                    c = -lead.speed / dt
                if lead.speed > 30 and c > 0:
                    c = 0.
                lead.cmd = c
                stopped = stopped or lead.speed < .01
                road.act()
                road.step(dt)
                ctx.count("platoon_steps")
                ss = [W.ref_local(lane, x.position)[0] for x in order]
                gmin = min(a - b - 5. for a, b in zip(ss, ss[1:]))
                ctx.ok(not any(x.crashed for x in order) and gmin > .5, "platoon-collision", "vehicles of a platoon collide", gap=gmin, t=i * dt)
                ctx.ok(min(float(x.speed) for x in order[1:]) > -2., "platoon-reverse", "a follower reverses", t=i * dt,
                       speeds=[float(x.speed) for x in order])
                ctx.ok(all(abs(W.ref_local(lane, x.position)[1]) < 2. for x in order), "platoon-lateral", "a follower leaves its lane", lat=[(type(x).__name__, W.ref_local(lane, x.position)[1], float(x.heading), float(x.speed)) for x in order], h=lane.heading_at(0))
            ctx.count("leader_stops", int(stopped))


def units(tier):
    q = tier == "quick"
    u = []
    for name, k, steps in (("highway", 4, 6), ("merge", 6, 14), ("roundabout", 5, 11), ("intersection", 3, 8), ("multi-intersection", 2, 8), ("two-way", 5, 10), ("summon", 6, 10)):
        for j in range(1 if q else 6):
            u.append(("episodes-%s-%d" % (name, j), episodes, dict(name=name, runs=k if q else 4 * k, steps=steps if q else 20)))
    for j in range(2 if q else 8):
        u.append(("scenes-%d" % j, scenes, dict(count=200 if q else 2000)))
        u.append(("free-%d" % j, free_road, dict(runs=40 if q else 300)))
    for j in range(5 if q else 8):
        u.append(("platoons-%d" % j, platoons, dict(runs=11 if q else 150, seconds=30 if q else 60)))
    return u
