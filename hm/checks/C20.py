"""Lane-change model: every lane decision of every simulated driver against a reference evaluation at the same instant."""
import math

import numpy as np

from hm import world as W
from hm.world import Road, RoadNetwork, StraightLane, CircularLane, ControlledVehicle, IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle, Vehicle, Obstacle, Landmark
from hm.checks.C17 import successors

RULE = ("every act of every simulated driver (intelligent, linear, aggressive and defensive) in episodes of all environments with traffic and "
        "in dense multi-lane scenes (forbidden lanes, planned lanes, politeness, several thresholds, disabled lane changes, several vehicles "
        "heading for the same lane), with its own clock kept by the monitor; a case is one act; distinct by the poses involved")
REQUIRED = {"acts": 15000, "wreck_acts": 3000, "mixed_traffic": 60, "instants": 2000, "candidates": 2000, "started": 150, "refused_unsafe": 150, "refused_gain": 500,
            "route_decides": 300, "route_refuses": 150, "unreachable": 60, "ongoing": 800, "aborted": 15, "kept": 200, "disabled": 500,
            "planned_lane_zero": 60, "polite": 200, "bends": 30, "joined_roads": 30}
EPS = 1e-6


class Marginal(BaseException):
    pass


def clear(x, threshold):
    """x < threshold, unless too close to tell."""
    if abs(x - threshold) < EPS * max(1, abs(threshold)):
        raise Marginal()
    return x < threshold


def neighbours(road, v, idx):
    f, r, m = W.ref_neighbours(road, v, idx)
    if m:
        raise Marginal()
    return f, r


def allows(ctx, v, cand, t):
    """Does the lane-change model allow driver v, heading for lane t (its current one), to move to cand?"""
    road = v.road
    acc = lambda ego, front: W.ref_acceleration(v, ego, front)  # noqa
    new_prec, new_fol = neighbours(road, v, cand)
    old_prec, old_fol = neighbours(road, v, v.lane_index)
    new_fol_pred = acc(new_fol, v)
    if clear(new_fol_pred, -v.LANE_CHANGE_MAX_BRAKING_IMPOSED):
        ctx.count("refused_unsafe")
        return False
    self_pred = acc(v, new_prec)
    if v.route and v.route[0][2] is not None:
        ctx.count("route_decides")
        want = v.route[0][2]
        ctx.count("planned_lane_zero", int(want == 0))
        if not ((want < t[2] and cand[2] < t[2]) or (want > t[2] and cand[2] > t[2])):
            ctx.count("route_refuses")
            return False
        return not clear(self_pred, -v.LANE_CHANGE_MAX_BRAKING_IMPOSED)
    gain = self_pred - acc(v, old_prec)
    if v.POLITENESS:
        ctx.count("polite")
        gain += v.POLITENESS * (new_fol_pred - acc(new_fol, new_prec) + acc(old_fol, old_prec) - acc(old_fol, v))
    if clear(gain, v.LANE_CHANGE_MIN_ACC_GAIN):
        ctx.count("refused_gain")
        return False
    return True


class Drivers:
    """Per-vehicle monitor of the lane decisions on one road."""

    def __init__(self, ctx, road):
        self.ctx, self.road = ctx, road
        self.clock = {}
        W.tap(road, before_act=self.hook, after_step=self.tick)

    def hook(self):
        for v in self.road.vehicles:
            if isinstance(v, IDMVehicle) and id(v) not in self.clock:
                self.clock[id(v)] = float(v.timer)
                self.wrap(v)

    def tick(self, dt):
        for k in self.clock:
            self.clock[k] += dt

    def wrap(self, v):
        act = v.act

        def act_(*a, **k):
            s = self.before(v)
            wreck = (tuple(v.target_lane_index), None if v.route is None else [tuple(q) for q in v.route]) if v.crashed else None
            r = act(*a, **k)
            if wreck is not None:
                self.ctx.count("wreck_acts")
                got = (tuple(v.target_lane_index), None if v.route is None else [tuple(q) for q in v.route])
                self.ctx.ok(got == wreck, "wreck-decides", "a crashed driver goes on deciding", expected=wreck, got=got)
            if s is not None:
                try:
                    self.after(v, s)
                except Marginal:
                    self.ctx.count("marginal")
            return r

        v.act = act_

    def before(self, v):
        if v.crashed or v.lane_index is None:
            return None
        return dict(t=tuple(v.target_lane_index), route=None if v.route is None else [tuple(r) for r in v.route], p=np.array(v.position),
                    lane=tuple(v.lane_index), targets=[tuple(w.target_lane_index) if isinstance(w, ControlledVehicle) else None for w in self.road.vehicles])

    def after(self, v, s):
        ctx, net = self.ctx, self.road.network
        ctx.count("acts")
        got = tuple(v.target_lane_index)
        clock = self.clock[id(v)]
        for w, t in zip(self.road.vehicles, s["targets"]):
            if w is not v and t is not None:
                ctx.ok(tuple(w.target_lane_index) == t, "others-target", "a driver's decision changed the target lane of another vehicle")
        cands = successors(net, s["t"], s["route"], s["p"])
        instant = clock > v.LANE_CHANGE_DELAY
        # whether this was a decision instant depends on the lane it heads for: keep the clock whatever happens below
        if cands is None or len(cands) > 1:
            if v.enable_lane_change and instant:
                self.clock[id(v)] = float(v.timer)
            raise Marginal()
        t = cands[0]
        with ctx.guard(dict(v=W.vstate(v), before=s, clock=clock, traffic=[W.vstate(w) for w in self.road.vehicles][:12])):
            if not v.enable_lane_change:
                ctx.count("disabled")
                ctx.ok(got == t, "disabled-change", "target lane changed although lane changes are disabled", expected=t, got=got)
                return
            if s["lane"] != t:
                ctx.count("ongoing")
                if s["lane"][:2] != t[:2]:
                    ctx.ok(got == t, "ongoing-changed", "target lane changed during a change of road", expected=t, got=got)
                    return
                abort = self.conflict(v, s, t)
                ctx.count("aborted" if abort else "kept")
                ctx.ok(got == (s["lane"] if abort else t), "abort" if abort else "ongoing-changed",
                       "ongoing lane change %s" % ("not aborted to the current lane" if abort else "altered"), expected=s["lane"] if abort else t, got=got)
                return
            if abs(clock - v.LANE_CHANGE_DELAY) < 1e-6:
                self.clock[id(v)] = float(v.timer)
                raise Marginal()
            if not instant:
                ctx.ok(got == t, "outside-instant", "lane change started outside the decision instants", expected=t, got=got)
                return
            self.clock[id(v)] = 0.
            ctx.count("instants")
            ctx.seen(v.position, v.speed, s["lane"], len(self.road.vehicles), [w.position for w in self.road.vehicles[:4]])
            allowed = []
            n = len(net.graph[s["lane"][0]][s["lane"][1]])
            for i in (s["lane"][2] - 1, s["lane"][2] + 1):
                if not 0 <= i < n:
                    continue
                cand = (s["lane"][0], s["lane"][1], i)
                lane = W.lane_of(net, cand)
                if W.circular_seam(lane, v.position):
                    raise Marginal()
                reach, margin = W.ref_reachable(lane, v.position)
                if margin < EPS:
                    raise Marginal()
                if not reach:
                    ctx.count("unreachable")
                    continue
                ctx.count("candidates")
                if allows(ctx, v, cand, t):
                    allowed.append(cand)
            ctx.count("started", int(bool(allowed)))
            ctx.ok(got in allowed if allowed else got == t, "lane-change-started" if not allowed else "lane-change-refused",
                   "lane change against the model" if not allowed else "allowed lane change not started", allowed=allowed, expected=t, got=got)

    def conflict(self, v, s, t):
        out = False
        for w, wt in zip(self.road.vehicles, s["targets"]):
            if w is v or wt != t or tuple(w.lane_index) == t:
                continue
            d = W.ref_local(v.lane, w.position)[0] - W.ref_local(v.lane, v.position)[0]
            gap = W.ref_desired_gap(v, v, w)
            if abs(d) < EPS or abs(d - gap) < EPS or W.circular_seam(v.lane, w.position):
                raise Marginal()
            out = out or 0 < d < gap
        return out


def episodes(ctx, name, runs, steps):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        cfg = W.random_env_config(rng, name)
        if name == "highway":
            cfg["vehicles_count"] = int(rng.randint(5, 12))
            cfg["lanes_count"] = int(rng.randint(2, 6))
            cfg["vehicles_density"] = float(rng.uniform(1, 2.5))
        with ctx.guard(dict(env=name, config=cfg, run=k)):
            env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
            r = rng.rand()
            if r < .3:
                env = env.set_preferred_lane(int(rng.randint(0, min(3, cfg["lanes_count"])))) if name == "highway" else env
            elif r < .4:
                env = env.set_vehicle_field(("enable_lane_change", False))
            Drivers(ctx, env.road)
            pol = W.Policy(rng)
            for t in range(steps):
                if np.all(env.step(pol(env.action_space))[2]):
                    break


def dense(ctx, runs, frames):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        n = int(rng.randint(2, 6))
        forb = tuple(i for i in range(n) if rng.rand() < .12)
        shape, beside = rng.rand(), 0
        if shape < .5:
            net = W.straight_net(lanes=n, length=float(rng.choice([150, 600])), angle=float(rng.uniform(-3, 3)), forbidden=forb)
        elif shape < .7:        # a bend
            net, turn, first, radius = RoadNetwork(), int(rng.choice([-1, 1])), float(rng.uniform(-3, 3)), float(rng.uniform(32, 60))
            for i in range(n):
                net.add_lane("0", "1", CircularLane([0, 0], radius - 4 * turn * i, first, first + 2.2 * turn, clockwise=turn > 0, forbidden=i in forb))
            ctx.count("bends")
        elif shape < .83:       # another road beside it, from which vehicles join the last lane
            n = int(rng.randint(2, 4))
            net = W.straight_net(lanes=n, length=300.)
            beside = 3
            for i in range(beside):
                net.add_lane("c", "d", StraightLane([0., 4. * (n + i)], [300., 4. * (n + i)]))
            forb = ()
            ctx.count("joined_roads")
        else:
            net = RoadNetwork()
            x = 0.
            for p in range(3):
                L = float(rng.uniform(60, 150))
                for i in range(n):
                    net.add_lane(str(p), str(p + 1), StraightLane([x, 4. * i], [x + L, 4. * i]))
                x += L
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        kind = [IDMVehicle, IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle][rng.randint(5)]
        if .5 <= shape < .7 and rng.rand() < .7:
            kind = IDMVehicle
        mixed = rng.rand() < .3
        ctx.count("mixed_traffic", int(mixed))
        polite = float(rng.choice([0., .3, 1.]))
        slots = [(i, s) for i in range(n) for s in range(5, 120, 9)]
        rng.shuffle(slots)
        for i, s in slots[:rng.randint(4, 12)]:
            idx = ("0", "1", int(i))
            joins = beside and rng.rand() < .4
            if joins:
                idx = ("c", "d", int(rng.randint(beside)))
            lane = net.get_lane(idx)
            if s > lane.length - 5:
                continue
            p = np.asarray(lane.position(float(s + rng.uniform(-2, 2)), float(rng.normal() * .3)))
            r = rng.rand()
            cls = ([IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle][rng.randint(4)] if mixed else kind) if r < .8 else ControlledVehicle if r < .9 else Vehicle
            kw = {}
            if cls is not Vehicle:
                kw["target_speed"] = float(rng.uniform(5, 35))
            if issubclass(cls, IDMVehicle):
                kw["timer"] = float(rng.uniform(0, 1.2))
                kw["enable_lane_change"] = bool(rng.rand() < .9)
                if rng.rand() < .35:
                    kw["route"] = [("0", "1", [int(rng.randint(n)), None][int(rng.rand() < .2)])]
                j = int(np.clip(i + rng.randint(-1, 2), 0, n - 1))
                if joins or (beside and rng.rand() < .5):
                    kw["target_lane_index"] = ("0", "1", n - 1)
                    kw.pop("route", None)
                elif rng.rand() < .3:
                    kw["target_lane_index"] = ("0", "1", j)
            v = cls(road, p, lane.heading_at(float(s)) + float(rng.normal() * .03), float(rng.uniform(3, 30)), **kw)
            if issubclass(cls, IDMVehicle):
                v.POLITENESS = polite
                if rng.rand() < .3:
                    v.LANE_CHANGE_MAX_BRAKING_IMPOSED = float(rng.choice([.5, 2., 9.]))
                if rng.rand() < .3:
                    v.LANE_CHANGE_MIN_ACC_GAIN = float(rng.choice([-.2, 0., .2, 2.]))
            road.vehicles.append(v)
        for _ in range(rng.randint(0, 3)):
            lane = net.get_lane(("0", "1", int(rng.randint(n))))
            road.objects.append([Obstacle, Landmark][rng.randint(2)](road, lane.position(float(rng.uniform(20, 120)), 0.)))
        with ctx.guard(dict(lanes=n, forbidden=forb, kind=kind.__name__, politeness=polite, run=k)):
            Drivers(ctx, road)
            f = float(rng.choice([5, 10, 15, 30]))
            for _ in range(frames):
                road.act()
                road.step(1. / f)


def units(tier):
    q = tier == "quick"
    u = []
    for name, k, steps in (("highway", 6, 6), ("merge", 6, 14), ("roundabout", 7, 11), ("intersection", 3, 8), ("two-way", 5, 10), ("summon", 5, 8)):
        for j in range(1 if q else 6):
            u.append(("episodes-%s-%d" % (name, j), episodes, dict(name=name, runs=k if q else 4 * k, steps=steps if q else 20)))
    for j in range(4 if q else 12):
        u.append(("dense-%d" % j, dense, dict(runs=60 if q else 500, frames=30)))
    return u
