"""Interval vehicles against sampled drivers of the uncertain family they stand for."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import StraightLane, SineLane, CircularLane
from highway_env.road.objects import Obstacle
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
from highway_env.vehicle.controller import MDPVehicle
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle

RULE = ("an interval vehicle and 6 drivers of its family (nominal, extreme and random parameters) start from the same state of a lane-following scene and are "
        "simulated side by side: full observer (any straight road, certain, uncertain or no leader), partial observer (eastward road), predictor (any straight "
        "free road); other scenes (curves, standstill, other orientations) only check order and finiteness; collisions of directly controlled vehicles with the "
        "set of possible positions against a dense cover of that set; distinct by scene parameters")
REQUIRED = {"full_steps": 1500, "partial_steps": 800, "predictor_steps": 500, "full_leader": 20, "full_uncertain_leader": 10, "partial_leader": 15,
            "braking_members": 200, "rest": 10, "curved": 10, "members": 20000, "others": 1000, "collision_certain": 150, "collision_none": 150, "ordinary_collision": 60,
            "crashed_degenerate": 60, "env_steps": 30, "stored": 2000, "narrow_family": 20, "other_family": 10, "created": 100, "box_steps": 300, "box_leader": 150,
            "boundary_steps": 300, "lane_change_steps": 400, "followed": 300}


class Full(IntervalVehicle):
    """The observer over the whole set instead of its boundary."""

    def step(self, dt, mode="full"):
        self.store_trajectories()
        self.observer_step(dt)
        LinearVehicle.step(self, dt)


def road_of(kind, h, a, R, cw):
    net = RoadNetwork()
    if kind == "curved":
        net.add_lane("a", "b", CircularLane(a, R, h, h + (1 if cw else -1) * 2.9, clockwise=cw))
    elif kind == "sine":
        net.add_lane("a", "b", SineLane(a, a + 600 * np.array([math.cos(h), math.sin(h)]), 3., 2 * math.pi / 120, 0.))
    else:
        for k in range(2):
            n = a + np.array([-math.sin(h), math.cos(h)]) * 4 * k
            net.add_lane("a", "b", StraightLane(n, n + 900 * np.array([math.cos(h), math.sin(h)])))
    return Road(net, np_random=np.random.RandomState(0))


def place(cls, road, s, y, psi, v, ts, **kw):
    lane = road.network.get_lane(("a", "b", 0))
    return cls(road, lane.position(s, y), lane.heading_at(s) + psi, v, target_speed=ts, target_lane_index=("a", "b", 0), enable_lane_change=False, **kw)


def parametrise(rng, d, k, ranges):
    if k == 0 and ranges is None:
        return
    A, B = ranges or (LinearVehicle.ACCELERATION_RANGE, LinearVehicle.STEERING_RANGE)
    for name, box in (("ACCELERATION_PARAMETERS", np.asarray(A)), ("STEERING_PARAMETERS", np.asarray(B))):
        t = rng.rand(box.shape[1])
        setattr(d, name, box[0] + (np.round(t) if k < 4 else t) * (box[1] - box[0]))


def well_formed(ctx, I, what):
    ok = np.isfinite(I.position).all() and np.isfinite(I.speed).all() and np.isfinite(I.heading).all()
    ctx.ok(ok, "not-finite:" + what, "interval %s %s %s" % (I.position, I.speed, I.heading))
    if ok:
        for n, x in (("position", I.position), ("speed", I.speed), ("heading", I.heading)):
            ctx.ok((np.asarray(x)[0] <= np.asarray(x)[1] + 1e-9).all(), "order:%s:%s" % (what, n), "%s interval %s" % (n, x))
    return ok


def degenerate(ctx, v, mech):
    I = v.interval
    ctx.ok(np.allclose(I.position, [v.position, v.position]) and np.allclose(I.speed, v.speed) and np.allclose(I.heading, v.heading), mech,
           "interval %s %s %s of a vehicle at %s %s %s" % (I.position, I.speed, I.heading, v.position, v.speed, v.heading))


def scenes(ctx, mode, n, steps, leader="none", kind="straight", slow=False):
    rng = ctx.rng
    strict = kind == "straight" and not slow
    for i in range(n):
        east = mode == "partial" and strict
        h = 0. if east or rng.rand() < .2 else (float(rng.choice([math.pi / 2, -math.pi / 2, math.pi, -math.pi])) if rng.rand() < .4 else rng.uniform(-math.pi, math.pi))
        a = rng.uniform(-50, 50, size=2)
        R, cw = rng.uniform(40, 120), bool(rng.rand() < .5)
        f = .4 if kind == "curved" else 1.
        dy, dpsi = (.2, .01) if mode == "predictor" else (.4, .03)
        y, psi = rng.uniform(-dy, dy), rng.uniform(-dpsi, dpsi)
        v0, ts = rng.uniform(18, 28) * f, rng.uniform(15, 28) * f
        if slow:
            v0 = rng.uniform(0, 4) * (rng.rand() < .6)
            y, psi = y * (rng.rand() < .6), psi * (rng.rand() < .6)
        gap, lv = rng.uniform(12, 70), rng.uniform(15, 28) * f
        lts = float(np.clip(lv + rng.uniform(-8, 8), 8, 30)) if leader == "uncertain" else lv
        ranges = None
        if rng.rand() < (.6 if leader == "uncertain" else .3):      # a narrower family of drivers
            A, B = LinearVehicle.ACCELERATION_RANGE, LinearVehicle.STEERING_RANGE
            ca, cb = rng.uniform(.2, .8, size=3), rng.uniform(.2, .8, size=2)
            w = rng.uniform(0, .2)
            ranges = tuple(np.array([X[0] + np.clip(c - w, 0, 1) * (X[1] - X[0]), X[0] + np.clip(c + w, 0, 1) * (X[1] - X[0])]) for X, c in ((A, ca), (B, cb)))
            ctx.count("narrow_family")
            if mode != "predictor" and rng.rand() < .4:      # another one, partly outside the usual one
                ranges = tuple(np.array([r[0] - rng.uniform(0, .12, size=r.shape[1]) * X[0], r[1] + rng.uniform(0, .12, size=r.shape[1]) * X[1]])
                               for X, r in ((A, ranges[0]), (B, ranges[1])))
                ctx.count("other_family")
        dt = float(rng.choice([1 / 15, 1 / 15, 1 / 30, 1 / 10]))
        cls = Full if mode == "full" else IntervalVehicle
        kw = dict(theta_a_i=ranges[0], theta_b_i=ranges[1]) if ranges else {}
        pars = dict(mode=mode, kind=kind, h=h, a=a, R=R, cw=cw, y=y, psi=psi, v0=v0, ts=ts, gap=gap, lv=lv, leader=leader, lts=lts, dt=dt, ranges=ranges)
        with ctx.guard(pars):
            def world(c, k=None, **kw):
                r = road_of(kind, h, a, R, cw)
                v = place(c, r, 20, y, psi, v0, ts, **kw)
                vs = [v]
                if leader != "none":
                    lc = Full if (leader == "uncertain" and k is None) else LinearVehicle
                    l = place(lc, r, 20 + gap, 0, 0, lv, lts)
                    if leader == "uncertain" and k:
                        parametrise(rng, l, int(rng.randint(1, 6)), None)
                    vs.append(l)
                if leader == "none" and rng.rand() < .5:      # somebody else, out of the way
                    far = IDMVehicle(r, r.network.get_lane(("a", "b", len(r.network.graph["a"]["b"]) - 1)).position(20 - 15, 0), h, v0, enable_lane_change=False)
                    vs.append(far)
                r.vehicles = vs
                return r, v
            r, iv = world(cls, **kw)
            drivers = []
            for k in range(6):
                drivers.append(world(LinearVehicle, k))
                parametrise(rng, drivers[-1][1], k, ranges)
            degenerate(ctx, iv, "initial")
            if leader == "uncertain":
                ctx.count("full_uncertain_leader")
            elif leader == "certain":
                ctx.count(mode + "_leader")
            if kind != "straight":
                ctx.count("curved")
            if slow:
                ctx.count("rest")
            past = []
            horizon = 2. if mode != "partial" else 1.5
            for s in range(min(steps, int(horizon / dt))):
                r.act()
                past.append(([iv.position.copy(), float(iv.speed), float(iv.heading)], copy.deepcopy(iv.interval)))
                for v in r.vehicles:
                    if v is iv:
                        others = [W.vstate(o) for o in r.vehicles if o is not v]
                        order = list(r.vehicles)
                        v.step(dt) if mode == "full" else v.step(dt, mode)
                        ctx.count("others")
                        ctx.ok(others == [W.vstate(o) for o in r.vehicles if o is not v] and order == list(r.vehicles), "alters-others", "predicting changed another vehicle")
                    else:
                        v.step(dt)
                ctx.count(mode + "_steps")
                I = iv.interval
                if kind == "straight" or mode != "predictor":
                    if not well_formed(ctx, I, mode):
                        break
                for r2, d in drivers:
                    r2.act()
                    for v in r2.vehicles:
                        v.step(dt)
                    if d.action["acceleration"] < -1:
                        ctx.count("braking_members")
                    if d.crashed or d.speed < 5:
                        continue
                if strict and not contain(ctx, I, [d for _, d in drivers if d.speed >= 5], mode, leader, s):
                    break
                if strict and ranges is None and leader == "none" and not contain(ctx, I, [iv], mode, leader, s):
                    break
            stored(ctx, iv, past)
            ctx.seen(mode, kind, leader, h, y, psi, v0, ts, gap, lv)
            if i < 2:
                ctx.sample(mode=mode, kind=kind, leader=leader, heading=round(h, 2), position=np.round(I.position, 2), speed=np.round(I.speed, 2), heading_interval=np.round(I.heading, 3))


def boxes(ctx, n, steps):
    """Full observer started from a box of possible states (as it meets during its own predictions): members anywhere in it."""
    rng = ctx.rng
    for i in range(n):
        h = 0. if rng.rand() < .3 else rng.uniform(-math.pi, math.pi)
        a = rng.uniform(-50, 50, size=2)
        y, psi, v0, ts = rng.uniform(-.2, .2), rng.uniform(-.01, .01), rng.uniform(18, 26), rng.uniform(15, 28)
        # the sideways slip of the drivers is covered by the noise of the observer only near the lane centre
        wp = rng.uniform(0, 1, size=2) * ([2., .25] if h == 0 else [.15, .15])
        wv, wh = rng.uniform(0, 3), rng.uniform(0, .02)
        gap, lv = rng.uniform(10, 60), rng.uniform(12, 26)
        leader = rng.rand() < .75
        ca, cb = rng.rand(3), rng.rand(2)
        A, B = LinearVehicle.ACCELERATION_RANGE, LinearVehicle.STEERING_RANGE
        w = rng.choice([0., .05, .3])
        ranges = tuple(np.array([X[0] + np.clip(c - w, 0, 1) * (X[1] - X[0]), X[0] + np.clip(c + w, 0, 1) * (X[1] - X[0])]) for X, c in ((A, ca), (B, cb)))
        dt = float(rng.choice([1 / 30, 1 / 15, 1 / 10]))
        with ctx.guard(dict(h=h, a=a, y=y, psi=psi, v0=v0, ts=ts, wp=wp, wv=wv, wh=wh, gap=gap, lv=lv, leader=leader, ranges=ranges, dt=dt)):
            def world(c, **kw):
                r = road_of("straight", h, a, 0, True)
                v = place(c, r, 20, y, psi, v0, ts, **kw)
                r.vehicles = [v] + ([place(LinearVehicle, r, 20 + gap, 0, 0, lv, lv)] if leader else [])
                return r, v
            r, iv = world(Full, theta_a_i=ranges[0], theta_b_i=ranges[1])
            iv.interval.position = np.array([iv.position - wp, iv.position + wp])
            iv.interval.speed = np.array([v0 - wv, v0 + wv])
            iv.interval.heading = np.array([iv.heading - wh, iv.heading + wh])
            members = []
            for k in range(10):
                r2, d = world(LinearVehicle)
                u = rng.uniform(-1, 1, size=4)
                u = np.sign(u) if k < 6 else u
                d.position = d.position + u[:2] * wp
                d.speed, d.heading = d.speed + u[2] * wv, d.heading + u[3] * wh
                d.on_state_update()
                parametrise(rng, d, int(rng.randint(1, 6)), ranges)
                members.append((r2, d))
            for s in range(steps):
                for x in [r] + [m[0] for m in members]:
                    x.act()
                    for v in x.vehicles:
                        v.step(dt)
                ctx.count("box_steps")
                ctx.count("box_leader", int(leader))
                if not well_formed(ctx, iv.interval, "full") or not contain(ctx, iv.interval, [d for _, d in members if d.speed >= 5 and not d.crashed], "full", "box", s):
                    break
            ctx.seen("box", h, y, psi, v0, ts, gap, lv, w)


def boundary_parts(ctx, n):
    """The partial observer propagates two boundary parts of the set: the result is their hull, that of the whole set for full width."""
    rng = ctx.rng
    for i in range(n):
        kind = "straight" if rng.rand() < .7 else "curved"
        r = road_of(kind, rng.uniform(-math.pi, math.pi), rng.uniform(-50, 50, size=2), rng.uniform(40, 120), bool(rng.rand() < .5))
        v = place(IntervalVehicle, r, 20, rng.uniform(-1, 1), rng.uniform(-.1, .1), rng.uniform(3, 28), rng.uniform(10, 28))
        r.vehicles = [v]
        if rng.rand() < .6:
            r.vehicles.append(place(IntervalVehicle if rng.rand() < .5 else LinearVehicle, r, 20 + rng.uniform(8, 50), 0, 0, rng.uniform(3, 28), 20))
        w, wv, wh = rng.uniform(0, 3, size=2), rng.uniform(0, 3), rng.uniform(0, .3)
        I = v.interval
        I.position, I.speed, I.heading = np.array([v.position - w, v.position + w]), np.array([v.speed - wv, v.speed + wv]), np.array([v.heading - wh, v.heading + wh])
        dt = float(rng.choice([1 / 30, 1 / 15, 1 / 10]))
        als = [0.] + sorted(rng.uniform(0, 1, size=2)) + [1.]
        with ctx.guard(dict(v=W.vstate(v), w=w, wv=wv, wh=wh, dt=dt, als=als)):
            res = []
            for al in als + [None]:
                c = copy.deepcopy(v)
                if al is None:
                    c.observer_step(dt)
                elif al == 0:
                    c.partial_observer_step(dt)
                else:
                    c.partial_observer_step(dt, al)
                res.append(c.interval)
            parts = ([], [])
            for al in als:
                for side in (0, 1):
                    c = copy.deepcopy(v)
                    for name in ("position", "speed", "heading"):
                        lo, hi = np.asarray(getattr(v.interval, name))
                        setattr(c.interval, name, np.array([lo, lo + al * (hi - lo)] if side == 0 else [hi - al * (hi - lo), hi]))
                    c.observer_step(dt)
                    parts[side].append(c.interval)
            ctx.count("boundary_steps")
            ctx.seen("boundary", W.vstate(v), w, wv, wh)
            for name in ("position", "speed", "heading"):
                x = [np.asarray(getattr(a, name)) for a in res]
                ctx.ok(np.allclose(x[-1], x[-2], atol=1e-9), "boundary:whole:" + name, "the set with boundaries of full width becomes %s, the whole set %s" % (x[-2].tolist(), x[-1].tolist()))
                for al, a, m, p in zip(als, x, *parts):
                    m, p = np.asarray(getattr(m, name)), np.asarray(getattr(p, name))
                    hull = np.array([np.minimum(m[0], p[0]), np.maximum(m[1], p[1])])
                    ctx.ok(np.allclose(a, hull, atol=1e-9), "boundary:hull:" + name, "boundaries of relative width %s become %s together, %s one by one" % (al, a.tolist(), hull.tolist()))


def lane_changes(ctx, n):
    """Drivers and predictor that change lane together: position up to what the linear steering misses, speed and heading within the prediction."""
    rng = ctx.rng
    for i in range(n):
        h = 0. if rng.rand() < .2 else rng.uniform(-math.pi, math.pi)
        a = rng.uniform(-50, 50, size=2)
        y, psi, v0, ts = rng.uniform(-.2, .2), rng.uniform(-.01, .01), rng.uniform(18, 28), rng.uniform(18, 28)
        at, dt = int(rng.randint(0, 8)), float(rng.choice([1 / 15, 1 / 30]))
        with ctx.guard(dict(h=h, a=a, y=y, psi=psi, v0=v0, ts=ts, at=at, dt=dt)):
            worlds = []
            for k in range(6):
                r = road_of("straight", h, a, 0, True)
                v = place(LinearVehicle if k else IntervalVehicle, r, 20, y, psi, v0, ts)
                r.vehicles = [v]
                if k > 1:
                    parametrise(rng, v, k - 1, None)
                worlds.append((r, v))
            iv = worlds[0][1]
            for s in range(22):
                for r, v in worlds:
                    if s == at:
                        v.target_lane_index = ("a", "b", 1)
                    r.act()
                    v.step(dt, "predictor") if v is iv else v.step(dt)
                ctx.count("lane_change_steps")
                I = iv.interval
                if not well_formed(ctx, I, "lane-change"):
                    break
                good = True
                for _, d in worlds[1:]:
                    for name, tol in (("position", .8), ("heading", 5e-3), ("speed", 1e-3)):
                        x, box = np.asarray(getattr(d, name)), np.asarray(getattr(I, name))
                        good &= ctx.ok((box[0] - tol <= x).all() and (x <= box[1] + tol).all(), "lane-change:" + name, "step %d, change at %d: %s %s outside %s" % (s, at, name, x, box.tolist()))
                if not good:
                    break
            ctx.seen("lane-change", h, y, psi, v0, ts, at)


def followed(ctx, n):
    """Lanes that the observers consider, under the documented models of lane changes."""
    rng = ctx.rng
    for i in range(n):
        k = int(rng.randint(1, 5))
        road = Road(RoadNetwork.straight_road_network(k), np_random=np.random.RandomState(0))
        t = int(rng.randint(k))
        y = rng.uniform(-6, 4 * k + 2)
        v = IntervalVehicle(road, [rng.uniform(0, 500), y], 0, 20, target_lane_index=("0", "1", t))
        with ctx.guard(dict(k=k, t=t, y=y)):
            ctx.count("followed")
            lane = lambda j: ("0", "1", j)
            ctx.ok(v.get_followed_lanes() == [lane(t)], "followed:model", "%s" % v.get_followed_lanes())
            want = {lane(j) for j in (t - 1, t, t + 1) if 0 <= j < k}
            got = v.get_followed_lanes("all")
            ctx.ok(set(got) == want and len(got) == len(want), "followed:all", "%s, lanes %d, target %d" % (got, k, t))
            if t + 1 < k and abs(abs(y - 4 * (t + 1)) - 8) < .01:
                continue
            reach = t + 1 < k and abs(y - 4 * (t + 1)) <= 8
            for squeeze in (True, False):
                got = v.get_followed_lanes("right", squeeze)
                want = [lane(t)] + ([lane(t + 1)] if reach else [] if squeeze else [lane(t)] if t + 1 == k or not reach else [])
                ctx.ok(got == want, "followed:right", "%s instead of %s (squeeze %s)" % (got, want, squeeze))
            ctx.seen("followed", k, t, y)


def leader_first(ctx):
    """A close leader that is stepped before the interval vehicle (the front vehicle comes first in the road's list)."""
    ranges = tuple(np.array([c * .99, c * 1.01]) for c in (np.array(LinearVehicle.ACCELERATION_PARAMETERS), np.array(LinearVehicle.STEERING_PARAMETERS)))
    with ctx.guard(dict(v0=25., ts=25., lv=20., gap=71.)):
        def world(c, **kw):
            r = road_of("straight", 0., np.zeros(2), 0, True)
            v = place(c, r, 20, .1, 0., 25., 25., **kw)
            r.vehicles = [place(LinearVehicle, r, 91, 0, 0, 20., 20.), v]
            return r, v
        r, iv = world(Full, theta_a_i=ranges[0], theta_b_i=ranges[1])
        r2, d = world(LinearVehicle)
        for s in range(6):
            for x in (r, r2):
                x.act()
                x.step(1 / 15)
            if not well_formed(ctx, iv.interval, "full") or not contain(ctx, iv.interval, [d], "full", "certain", s):
                break
        ctx.seen("leader-first")


def contain(ctx, I, drivers, mode, leader, s):
    eps = 1e-6
    lin = 2e-3 if mode == "predictor" else eps      # the steering of the drivers is linear only for small angles
    for d in drivers:
        ctx.count("members")
        checks = [("position", (I.position[0] <= d.position + eps).all() and (d.position <= I.position[1] + eps).all(), d.position, I.position),
                  ("heading", I.heading[0] - lin <= d.heading <= I.heading[1] + lin, d.heading, I.heading)]
        if not (mode == "partial" and leader != "none"):
            checks.append(("speed", I.speed[0] - eps <= d.speed <= I.speed[1] + eps, d.speed, I.speed))
        for name, good, val, box in checks:
            if not ctx.ok(good, "escape:%s:%s" % (mode, name), "step %d: a driver with parameters %s %s has %s %s outside %s"
                          % (s + 1, d.ACCELERATION_PARAMETERS, d.STEERING_PARAMETERS, name, val, np.asarray(box).tolist())):
                return False
    return True


def stored(ctx, iv, past):
    ctx.ok(len(iv.trajectory) == len(past) and len(iv.interval_trajectory) == len(past), "stored:length", "%d states, %d intervals stored in %d steps"
           % (len(iv.trajectory), len(iv.interval_trajectory), len(past)))
    for (st, I), t, J in zip(past, iv.trajectory, iv.interval_trajectory):
        ctx.count("stored")
        ctx.ok(np.allclose(t.position, st[0]) and abs(t.speed - st[1]) < 1e-9 and abs(t.heading - st[2]) < 1e-9, "stored:state", "stored model state")
        ctx.ok(np.allclose(I.position, J.position, equal_nan=True) and np.allclose(I.speed, J.speed, equal_nan=True) and np.allclose(I.heading, J.heading, equal_nan=True),
               "stored:interval", "stored interval")


# ------------------------------------------------------------------ collisions with the set of possible positions
def collisions(ctx, n):
    rng = ctx.rng
    for i in range(n):
        road = Road(RoadNetwork.straight_road_network(3), np_random=np.random.RandomState(0))
        p = np.array([100., 4.]) + rng.uniform(-2, 2, size=2)
        iv = IntervalVehicle(road, p, rng.uniform(-.3, .3), rng.uniform(5, 25), target_lane_index=("0", "1", 1))
        w = rng.uniform(0, 8, size=2) * (rng.rand(2) < .8)
        iv.interval.position = np.array([p - w * rng.rand(2), p + w * rng.rand(2)])
        lo, hi = iv.interval.position
        q = p + np.array([rng.uniform(-20, 20), rng.uniform(-12, 12)])
        ego = MDPVehicle(road, q, rng.uniform(-.6, .6), float(rng.uniform(0, 30)), target_lane_index=("0", "1", 1))
        ego.speed = float(rng.uniform(0, 30))
        road.vehicles = [iv, ego]
        if rng.rand() < .1:
            road.vehicles = [iv, ego][::-1]
        with ctx.guard(dict(interval=[lo, hi], iv=W.vstate(iv), ego=W.vstate(ego))):
            if rng.rand() < .15:
                # another kind of vehicle is only hit where the interval vehicle is
                o = IDMVehicle(road, q, ego.heading, ego.speed, target_lane_index=("0", "1", 1)) if rng.rand() < .7 else Obstacle(road, q, ego.heading)
                if rng.rand() < .4:
                    o.position = p + rng.uniform(-3, 3, size=2)
                gap = W.rect_gap(W.body(iv), W.body(o))
                before = (iv.speed, o.speed)
                if abs(gap) < .05:
                    continue
                iv.check_collision(o)
                ctx.count("ordinary_collision")
                ctx.ok(bool(iv.crashed) == (gap < 0), "ordinary-collision", "crashed %s, gap %s" % (iv.crashed, gap))
                if gap < 0:
                    crash_step(ctx, iv)
                else:
                    ctx.ok(before == (iv.speed, o.speed), "speed-changed", "speeds changed without a collision")
                continue
            v0 = (iv.speed, ego.speed)
            c = np.clip(q, lo, hi)
            certain = W.rect_gap((tuple(c), iv.LENGTH * .9, iv.WIDTH * .9, iv.heading), W.body(ego))
            best = min(W.rect_gap(((x, y), iv.LENGTH, iv.WIDTH, iv.heading), (tuple(ego.position), ego.LENGTH, ego.WIDTH, ego.heading))
                       for x in np.linspace(lo[0], hi[0], 6) for y in np.linspace(lo[1], hi[1], 6))
            centre_near = np.all(q > lo - iv.LENGTH + .01) and np.all(q < hi + iv.LENGTH - .01)
            if certain < -.05 and centre_near:
                want = True
                ctx.count("collision_certain")
            elif best > .3:
                want = False
                ctx.count("collision_none")
            else:
                continue
            mode = rng.randint(4)
            if mode == 0:
                iv.COLLISIONS_ENABLED = False
            iv.check_collision(ego)
            if mode == 0:
                ctx.ok(not iv.crashed and not ego.crashed, "disabled", "collision although collisions are disabled")
                continue
            ctx.ok(bool(iv.crashed) == want and bool(ego.crashed) == want, "robust-collision", "crashed: interval %s, ego %s; possible positions overlap: %s" % (iv.crashed, ego.crashed, want))
            if want:
                ctx.ok(iv.speed == min(v0) and ego.speed == min(v0), "robust-collision:speed", "speeds %s -> %s" % (v0, (iv.speed, ego.speed)))
                crash_step(ctx, iv)
            else:
                ctx.ok((iv.speed, ego.speed) == v0, "speed-changed", "speeds changed without a collision")
            ctx.seen(lo, hi, q, ego.heading, iv.heading)


def crash_step(ctx, iv):
    """The interval of a crashed vehicle is the state it has when it is stepped."""
    st = (iv.position.copy(), float(iv.speed), float(iv.heading))
    for mode in ("partial", "predictor"):
        iv.step(1 / 15, mode)
        ctx.count("crashed_degenerate")
        I = iv.interval
        ctx.ok(np.allclose(I.position, [st[0], st[0]]) and np.allclose(I.speed, st[1]) and np.allclose(I.heading, st[2]), "crashed:degenerate",
               "interval %s of a crashed vehicle at %s" % (I.position, st[0]))
        st = (iv.position.copy(), float(iv.speed), float(iv.heading))


def created(ctx, n):
    """Interval vehicles made from drivers keep their state and what is known of their parameters."""
    rng = ctx.rng
    road = Road(RoadNetwork.straight_road_network(3), np_random=np.random.RandomState(0))
    for i in range(n):
        p, h, v = rng.uniform(0, 100, size=2) * [1, .1], rng.uniform(-.3, .3), rng.uniform(0, 30)
        box = lambda k: np.sort(rng.uniform(.1, 10, size=(2, k)), axis=0)
        ba, bb = (box(3) if rng.rand() < .6 else None), (box(2) if rng.rand() < .6 else None)
        src = (IntervalVehicle(road, p, h, v, target_speed=rng.uniform(5, 30), theta_a_i=ba, theta_b_i=bb) if rng.rand() < .7 else
               LinearVehicle(road, p, h, v, target_speed=rng.uniform(5, 30)))
        with ctx.guard(dict(p=p, h=h, v=v, ba=ba, bb=bb)):
            new = IntervalVehicle.create_from(src)
            ctx.count("created")
            ctx.seen(p, h, v, ba, bb)
            degenerate(ctx, new, "created:initial")
            A, B = (ba, bb) if isinstance(src, IntervalVehicle) else (None, None)
            A, B = LinearVehicle.ACCELERATION_RANGE if A is None else A, LinearVehicle.STEERING_RANGE if B is None else B
            ctx.ok(np.array_equal(new.theta_a_i, A) and np.array_equal(new.theta_b_i, B), "created:ranges", "parameter ranges %s %s instead of %s %s"
                   % (new.theta_a_i, new.theta_b_i, A, B))
            ctx.ok(new.target_speed == src.target_speed and tuple(new.target_lane_index) == tuple(src.target_lane_index), "created:targets", "targets differ")


# ------------------------------------------------------------------ in an environment
def env(ctx, episodes, steps):
    rng = ctx.rng
    for _ in range(episodes):
        e = W.make("highway", {"vehicles_count": 6, "duration": 20}, int(rng.randint(1 << 30)))
        try:
            with ctx.guard(dict(seed="env")):
                m = e.change_vehicles("highway_env.vehicle.uncertainty.prediction.IntervalVehicle")
                ivs = [v for v in m.road.vehicles if isinstance(v, IntervalVehicle)]
                ctx.ok(len(ivs) == len(m.road.vehicles) - 1, "env:changed", "%d interval vehicles among %d" % (len(ivs), len(m.road.vehicles)))
                for v in ivs:
                    degenerate(ctx, v, "env:initial")
                for s in range(steps):
                    m.step(int(rng.choice([0, 1, 1, 2, 3, 4])))
                    ctx.count("env_steps")
                    for v in ivs:
                        well_formed(ctx, v.interval, "env")
                ctx.seen([W.vstate(v) for v in m.road.vehicles])
        finally:
            e.close()


def units(tier):
    k = 24 if tier == "thorough" else 3
    us = []
    for i in range(2):
        us += [("full-free-%d" % i, scenes, dict(mode="full", n=12 * k, steps=30)),
               ("full-leader-%d" % i, scenes, dict(mode="full", n=14 * k, steps=30, leader="certain")),
               ("full-uncertain-leader-%d" % i, scenes, dict(mode="full", n=10 * k, steps=25, leader="uncertain")),
               ("partial-free-%d" % i, scenes, dict(mode="partial", n=10 * k, steps=40)),
               ("partial-leader-%d" % i, scenes, dict(mode="partial", n=10 * k, steps=30, leader="certain")),
               ("predictor-free-%d" % i, scenes, dict(mode="predictor", n=15 * k, steps=20))]
    us += [("collisions-%d" % i, collisions, dict(n=1000 * k)) for i in range(2)]
    us += [("full-rest", scenes, dict(mode="full", n=8 * k, steps=15, slow=True)),
           ("partial-rest", scenes, dict(mode="partial", n=8 * k, steps=15, slow=True)),
           ("partial-curved", scenes, dict(mode="partial", n=8 * k, steps=20, kind="curved")),
           ("partial-sine", scenes, dict(mode="partial", n=8 * k, steps=20, kind="sine", leader="certain")),
           ("leader-first", leader_first, {}), ("created", created, dict(n=60 * k)),
           ("env", env, dict(episodes=1 * k, steps=6)), ("env-1", env, dict(episodes=1 * k, steps=6)), ]
    us += [("env-%d" % i, env, dict(episodes=1 * k, steps=6)) for i in range(2, 6)]
    us += [("boxes-%d" % i, boxes, dict(n=25 * k, steps=4)) for i in range(2)]
    us += [("boundary-%d" % i, boundary_parts, dict(n=80 * k)) for i in range(2)]
    us += [("lane-change-%d" % i, lane_changes, dict(n=20 * k)) for i in range(2)]
    us += [("followed", followed, dict(n=200 * k))]
    return us
