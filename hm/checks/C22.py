"""Right of way: target speeds and yielding marks of all vehicles around every road step against a reference regulation."""
import math

import numpy as np

from hm import world as W
from hm.world import ControlledVehicle, MDPVehicle, IDMVehicle, LinearVehicle, Vehicle
from highway_env.road.regulation import RegulatedRoad

RULE = ("every step of the regulated road in single- and multi-agent intersection episodes, and of dense random scenes on that network (1-12 "
        "vehicles of all controlled kinds placed on entries, turns and exits with random routes) at 1-60 Hz with yield durations of 0, 1 and "
        "2.5 s; a case is one regulation instant; distinct by the poses involved")
REQUIRED = {"steps": 4000, "instants": 900, "conflicts": 1000, "by_priority": 300, "by_position": 300, "ego_exempt": 60, "resumed": 120,
            "waiting": 150, "untouched": 3000, "quiet_steps": 1500, "frequencies": 6, "no_conflict_pairs": 3000, "sizes": 100}
TIMES = [.25 * i for i in range(1, 12)]


class Marginal(BaseException):
    pass


def conflict(a, b):
    """Predicted overlap of two vehicles, from their published constant-speed predictions."""
    pa, ha = a.predict_trajectory_constant_speed(np.array(TIMES))
    pb, hb = b.predict_trajectory_constant_speed(np.array(TIMES))
    close_call = False
    for p, h, q, g in zip(pa, ha, pb, hb):
        p, q = np.ravel(p), np.ravel(q)
        d = math.hypot(*(q - p))
        gap = W.rect_gap((p, 1.5 * a.LENGTH, .9 * a.WIDTH, float(h)), (q, 1.5 * b.LENGTH, .9 * b.WIDTH, float(g)))
        short, long = sorted((a.LENGTH, b.LENGTH))
        # of two bodies of different lengths, "one vehicle length" may be either's
        if gap < 1e-7 and (short - 1e-7 < d < long + 1e-7 or abs(gap) < 1e-7 and d <= long):
            close_call = True
            continue
        if d <= short and gap < 0:
            return True
    if close_call:
        raise Marginal()
    return False


def yielder(ctx, a, b):
    pa, pb = a.lane.priority, b.lane.priority
    if pa != pb:
        ctx.count("by_priority")
        return b if pa > pb else a
    da = math.cos(a.heading) * (b.position[0] - a.position[0]) + math.sin(a.heading) * (b.position[1] - a.position[1])
    db = math.cos(b.heading) * (a.position[0] - b.position[0]) + math.sin(b.heading) * (a.position[1] - b.position[1])
    if abs(da - db) < 1e-9:
        raise Marginal()
    ctx.count("by_position")
    return a if da > db else b


class Regulation:
    def __init__(self, ctx, road, frequency, steps0):
        self.ctx, self.road, self.f, self.n = ctx, road, frequency, steps0
        self.timers = {}
        ctx.count("frequencies")
        W.tap(road, before_step=self.before, after_step=self.after)

    def before(self, dt):
        self.expected = None
        ctx, road = self.ctx, self.road
        self.n += 1
        period = max(int(self.f / road.REGULATION_FREQUENCY), 1)
        self.instant = self.n % period == 0
        self.pre = [(v, float(getattr(v, "target_speed", math.nan)), bool(getattr(v, "is_yielding", False)),
                     self.timers.get(v, getattr(v, "yield_timer", 0))) for v in road.vehicles]
        if not self.instant:
            return
        duration = road.YIELD_DURATION * road.REGULATION_FREQUENCY
        want = {}
        for v, ts, yielding, timer in self.pre:
            if yielding and timer >= duration:
                want[id(v)] = (float(v.lane.speed_limit), False, None, "resume")
            elif yielding:
                want[id(v)] = (ts, True, timer + 1, "wait")
            else:
                want[id(v)] = (ts, False, None, "none")
        try:
            vs = road.vehicles
            for i in range(len(vs)):
                for j in range(i + 1, len(vs)):
                    if not conflict(vs[i], vs[j]):
                        ctx.count("no_conflict_pairs")
                        continue
                    ctx.count("conflicts")
                    y = yielder(ctx, vs[i], vs[j])
                    if isinstance(y, MDPVehicle):
                        ctx.count("ego_exempt")
                    else:
                        want[id(y)] = (0., True, 0, "yield")
        except Marginal:
            ctx.count("marginal")
            return
        self.expected = want

    def after(self, dt):
        ctx = self.ctx
        ctx.count("steps")
        if not self.instant:
            ctx.count("quiet_steps")
            for v, ts, yielding, timer in self.pre:
                ctx.ok(float(getattr(v, "target_speed", math.nan)) == ts and bool(getattr(v, "is_yielding", False)) == yielding, "outside-instant",
                       "a target speed or yielding mark changed outside the regulation instants", v=W.vstate(v), before=[ts, yielding],
                       step=self.n, f=self.f)
            return
        if self.expected is None:
            self.timers = {}  # an undecided instant: go by the vehicles' own timers afterwards
            return
        self.timers = {v: self.expected[id(v)][2] for v, *_ in self.pre if self.expected[id(v)][2] is not None}  # instants since the last conflict
        ctx.count("instants")
        ctx.seen([v.position for v, *_ in self.pre], self.f)
        for v, ts, yielding, timer in self.pre:
            t, y, n, why = self.expected[id(v)]
            got_t, got_y = float(v.target_speed), bool(getattr(v, "is_yielding", False))
            ctx.count({"resume": "resumed", "wait": "waiting", "none": "untouched", "yield": "yields"}[why])
            ctx.ok(got_y == y, "yielding-mark:%s" % why, "yielding mark of a vehicle", v=W.vstate(v), expected=y, before=yielding, f=self.f)
            ctx.ok(abs(got_t - t) < 1e-9, "target-speed:%s" % why, "target speed of a vehicle after the regulation", v=W.vstate(v), expected=t, got=got_t,
                   before=ts, f=self.f)


def episodes(ctx, name, runs, steps):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        cfg = W.random_env_config(rng, name)
        f = int(rng.choice([2, 4, 5, 7, 10, 15]))
        cfg.update(simulation_frequency=f, policy_frequency=1, initial_vehicle_count=int(rng.randint(3, 10)), duration=steps, spawn_probability=1.)
        with ctx.guard(dict(env=name, config=cfg, run=k)):
            env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
            if not hasattr(env.road, "steps"):
                return
            Regulation(ctx, env.road, f, int(env.road.steps))
            pol = W.Policy(rng)
            for t in range(steps):
                if np.all(env.step(pol(env.action_space))[2]):
                    break


def scenes(ctx, runs, seconds):
    rng = ctx.rng
    nets = [W.make("intersection", {}, seed=s).road.network for s in (1,)]
    for k in range(runs):
        if ctx.out_of_time():
            return
        net = nets[0]

        class Own(RegulatedRoad):
            YIELD_DURATION = float(rng.choice([0., 0., 1., 2.5]))
        road = Own(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        idx = W.all_indexes(net)
        for i in idx:
            W.lane_of(net, i).speed_limit = float(rng.uniform(5, 15))
        sized = rng.rand() < .3
        core = [i for i in idx if not (i[0].startswith("il"))]
        for _ in range(rng.randint(1, 13)):
            i = core[rng.randint(len(core))] if rng.rand() < .9 else idx[rng.randint(len(idx))]
            lane = W.lane_of(net, i)
            s = float(rng.uniform(lane.length * (.6 if i[0].startswith("o") else 0), lane.length))
            cls = [IDMVehicle, IDMVehicle, LinearVehicle, ControlledVehicle, MDPVehicle][rng.randint(5)]
            v = cls(road, np.asarray(lane.position(s, float(rng.normal() * .3))), lane.heading_at(s) + float(rng.normal() * .05), float(rng.uniform(0, 12)),
                    target_lane_index=tuple(i), target_speed=float(rng.uniform(0, 12)))
            v.plan_route_to("o%d" % rng.randint(4))
            if sized and rng.rand() < .6:
                v.LENGTH, v.WIDTH = float(rng.choice([2., 8., 16.])), float(rng.choice([1., 2., 3.5]))
                ctx.count("sizes")
            if rng.rand() < .1:
                v.route = None
            road.vehicles.append(v)
        f = int(rng.choice([1, 2, 3, 4, 5, 8, 10, 15, 20, 30, 60]))
        with ctx.guard(dict(f=f, duration=Own.YIELD_DURATION, scene=[W.vstate(v) for v in road.vehicles], run=k)):
            Regulation(ctx, road, f, 0)
            for _ in range(max(int(seconds * f), 2)):
                road.act()
                road.step(1. / f)


def units(tier):
    q = tier == "quick"
    u = []
    for name, k, steps in (("intersection", 5, 9), ("multi-intersection", 4, 9)):
        for j in range(2 if q else 6):
            u.append(("episodes-%s-%d" % (name, j), episodes, dict(name=name, runs=k if q else 5 * k, steps=steps if q else 15)))
    for j in range(4 if q else 12):
        u.append(("scenes-%d" % j, scenes, dict(runs=40 if q else 300, seconds=4 if q else 8)))
    return u
