"""Linear drivers: commands, parameters and collected data of every linear driver recomputed at every decision."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import Road, ControlledVehicle, IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle, Vehicle, Obstacle, Landmark
from hm.checks.C16 import marginal, not_zero, clip

RULE = ("every act of every linear, aggressive and defensive driver in episodes of all environments with such traffic (also after randomising "
        "behaviours, copying environments and converting vehicles) and in random scenes with obstacles, slow, stopped and reversing vehicles; "
        "repeated randomisation of many drivers; a case is one decision or one draw; distinct by pose, neighbour and parameters")
REQUIRED = {"commands": 6000, "with_front": 2000, "gap_active": 400, "approach_active": 800, "saturated": 100, "data_points": 6000, "not_collecting": 200,
            "randomised": 300, "randomised_driving": 500, "steer_commands": 4000, "data_owners": 150, "direct": 800, "direct_behind": 200, "kinds_aggressive": 300, "kinds_defensive": 300}
ACC_RANGE = np.array([[.15, .15, 1.], [.45, .45, 3.]])
STEER_RANGE = np.array([[5. - .07, 25. / 3 - 1.5], [5. + .07, 25. / 3 + 1.5]])
PURSUIT = .1


def ref_steer_features(lane, p, heading, speed, length):
    s, r = W.ref_local(lane, p)
    v = not_zero(speed)
    return np.array([W.wrap(W.ref_heading(lane, s + speed * PURSUIT) - heading) * length / v, -r * length / v ** 2])


def seam(lane, p, heading, speed):
    s, _ = W.ref_local(lane, p)
    return abs(abs(W.wrap(W.ref_heading(lane, s + speed * PURSUIT) - heading)) - math.pi) < 1e-6


class Linear:
    def __init__(self, ctx, road):
        self.ctx, self.road = ctx, road
        self.wrapped = {}
        W.tap(road, before_act=self.hook)

    def hook(self):
        for v in self.road.vehicles:
            if isinstance(v, LinearVehicle) and id(v) not in self.wrapped:
                self.wrapped[id(v)] = v
                self.wrap(v)
        owners = {}
        for v in self.wrapped.values():
            for part in ("longitudinal", "lateral"):
                d = v.data.get(part)
                if d is not None:
                    for k in ("features", "outputs"):
                        self.ctx.ok(id(d[k]) not in owners, "shared-data", "two drivers share their data")
                        owners[id(d[k])] = v
        self.ctx.count("data_owners", len(owners) // 4)

    def wrap(self, v):
        act = v.act

        def act_(*a, **k):
            s = dict(t=tuple(v.target_lane_index), n=self.sizes(v), crashed=bool(v.crashed), pa=np.array(v.ACCELERATION_PARAMETERS, dtype=float),
                     ps=np.array(v.STEERING_PARAMETERS, dtype=float))
            others = [(w, self.sizes(w)) for w in self.wrapped.values() if w is not v]
            r = act(*a, **k)
            self.after(v, s)
            for w, n in others[:6]:
                self.ctx.ok(self.sizes(w) == n, "foreign-data", "a driver's decision appended data to another driver")
            return r

        v.act = act_

    @staticmethod
    def sizes(v):
        return tuple(len(v.data.get(p, {}).get(k, ())) for p in ("longitudinal", "lateral") for k in ("features", "outputs"))

    def after(self, v, s):
        ctx, net = self.ctx, self.road.network
        with ctx.guard(dict(v=W.vstate(v), params=[s["pa"], s["ps"]])):
            ctx.ok(np.array_equal(s["pa"], v.ACCELERATION_PARAMETERS) and np.array_equal(s["ps"], v.STEERING_PARAMETERS), "parameters-drift",
                   "the parameters of a driver changed while deciding")
            if v.lane_index is None:
                return
            front, _, m = W.ref_neighbours(self.road, v, v.lane_index)
            n1 = self.sizes(v)
            if v.collecting_data:
                ctx.ok(n1 == tuple(x + 1 for x in s["n"]), "data-count", "a decision does not append exactly one data point", before=s["n"], after=n1)
                lon, lat = v.data["longitudinal"], v.data["lateral"]
                ctx.count("data_points")
                ctx.close(lon["outputs"][-1], float(np.dot(s["pa"], lon["features"][-1])), "data-longitudinal", "output is not parameters times features",
                          tol=1e-9)
                ctx.close(lat["outputs"][-1], float(np.dot(s["ps"], lat["features"][-1])), "data-lateral", "output is not parameters times features", tol=1e-9)
                if not m:
                    ctx.close(lon["features"][-1], W.ref_linear_features(v, v, front), "data-features", "longitudinal features of the data", tol=1e-6)
                lane = W.lane_of(net, s["t"])
                if not marginal(lane, v.position, float(v.speed)) and not seam(lane, v.position, float(v.heading), float(v.speed)):
                    ctx.close(lat["features"][-1], ref_steer_features(lane, v.position, float(v.heading), float(v.speed), v.LENGTH), "data-features",
                              "lateral features of the data", tol=1e-6)
            else:
                ctx.count("not_collecting")
                ctx.ok(n1 == s["n"], "data-count", "data appended although collection is off")
            if s["crashed"]:
                return
            t = tuple(v.target_lane_index)
            lane = W.lane_of(net, t)
            if not marginal(lane, v.position, float(v.speed)) and not seam(lane, v.position, float(v.heading), float(v.speed)):
                want = float(np.dot(s["ps"], ref_steer_features(lane, v.position, float(v.heading), float(v.speed), v.LENGTH)))
                ctx.count("steer_commands")
                ctx.close(float(v.action["steering"]), clip(want, -math.pi / 3, math.pi / 3), "steering-command", "steering is not the linear policy", tol=1e-6)
            if m:
                return
            f = W.ref_linear_features(v, v, front)
            want = float(np.dot(s["pa"], f))
            ctx.count("commands")
            ctx.count("with_front", int(front is not None))
            ctx.count("approach_active", int(f[1] < 0))
            ctx.count("gap_active", int(f[2] < 0))
            ctx.count("saturated", int(abs(want) > 6.))
            ctx.count("kinds_aggressive", int(isinstance(v, AggressiveVehicle)))
            ctx.count("kinds_defensive", int(isinstance(v, DefensiveVehicle)))
            ctx.count("randomised_driving", int("ACCELERATION_PARAMETERS" in vars(v)))
            ctx.seen(v.position, v.speed, t, f)
            ctx.close(float(v.action["acceleration"]), clip(want, -v.ACC_MAX, v.ACC_MAX), "acceleration-command", "acceleration is not the linear policy", tol=1e-6)


def episodes(ctx, name, runs, steps):
    rng = ctx.rng
    for k in range(runs):
        if ctx.out_of_time():
            return
        cfg = W.random_env_config(rng, name)
        cfg["other_vehicles_type"] = W.TRAFFIC[rng.randint(1, 4)]
        if name == "highway":
            cfg["vehicles_count"] = int(rng.randint(3, 9))
        with ctx.guard(dict(env=name, config=cfg, run=k)):
            env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
            if rng.rand() < .4:
                before = [(v, list(v.ACCELERATION_PARAMETERS), list(v.STEERING_PARAMETERS)) for v in env.road.vehicles if isinstance(v, LinearVehicle)]
                env2 = env.randomize_behaviour()
                for v, a, s in before:
                    ctx.ok(list(v.ACCELERATION_PARAMETERS) == a and list(v.STEERING_PARAMETERS) == s, "randomise-original",
                           "randomising a copy changed the original drivers")
                env = env2
                check_ranges(ctx, [v for v in env.road.vehicles if isinstance(v, LinearVehicle)])
            if rng.rand() < .2:
                for v in env.road.vehicles:
                    if isinstance(v, LinearVehicle):
                        v.collecting_data = False
            Linear(ctx, env.road)
            pol = W.Policy(rng)
            for t in range(steps):
                if np.all(env.step(pol(env.action_space))[2]):
                    break


def scenes(ctx, count):
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            return
        r = rng.rand()
        net = (W.straight_net(lanes=rng.randint(1, 4), length=300., angle=float(rng.uniform(-3, 3))) if r < .5 else
               W.chain_net(rng) if r < .7 else W.random_env_roads(rng)[1].road.network)
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        idx = W.all_indexes(net)
        home = [idx[rng.randint(len(idx))] for _ in range(2)]
        for _ in range(rng.randint(1, 8)):
            lane = W.lane_of(net, home[rng.randint(2)])
            s = float(rng.uniform(0, min(lane.length, 120)))
            cls = [LinearVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle, IDMVehicle, Vehicle][rng.randint(6)]
            h = float(lane.heading_at(s)) + float(rng.normal() * .2) + (math.pi if rng.rand() < .1 else 0)
            kw = {} if cls is Vehicle else {"target_speed": float(rng.choice([0., rng.uniform(1, 35)], p=[.1, .9]))}
            if issubclass(cls, IDMVehicle):
                kw.update(timer=float(rng.uniform(0, 4)), enable_lane_change=bool(rng.rand() < .7))
            v = cls(road, np.asarray(lane.position(s, float(rng.normal() * rng.choice([.2, 1.5])))), h,
                    float(rng.choice([rng.uniform(0, 35), 0., rng.uniform(-3, 0)], p=[.85, .1, .05])), **kw)
            if isinstance(v, LinearVehicle) and rng.rand() < .4:
                v.randomize_behavior()
                check_ranges(ctx, [v])
            road.vehicles.append(v)
        for _ in range(rng.randint(0, 3)):
            lane = W.lane_of(net, home[rng.randint(2)])
            road.objects.append([Obstacle, Landmark][rng.randint(2)](road, lane.position(float(rng.uniform(0, min(lane.length, 120))), 0.)))
        with ctx.guard(dict(scene=[W.vstate(v) for v in road.vehicles], k=k)):
            Linear(ctx, road)
            for t in range(4):
                if t == 2:
                    again(ctx, road)
                road.act()
                road.step(1 / 15)


def again(ctx, road):
    """Behaviours may be randomised at any time: only the driver changes."""
    vs = [v for v in road.vehicles if isinstance(v, LinearVehicle)]
    before = class_parameters()
    for v in vs:
        if road.np_random.rand() < .5:
            keep = [(w, np.array(w.ACCELERATION_PARAMETERS), np.array(w.STEERING_PARAMETERS)) for w in vs if w is not v]
            v.randomize_behavior()
            check_ranges(ctx, [v])
            for w, a, s in keep:
                ctx.ok(np.array_equal(a, w.ACCELERATION_PARAMETERS) and np.array_equal(s, w.STEERING_PARAMETERS), "randomise-others",
                       "randomising one driver changed another")
    ctx.ok(before == class_parameters(), "class-parameters", "randomising drivers changed their class")


def class_parameters():
    return [np.array(getattr(c, p), dtype=float).tolist() for c in (LinearVehicle, AggressiveVehicle, DefensiveVehicle)
            for p in ("ACCELERATION_PARAMETERS", "STEERING_PARAMETERS", "ACCELERATION_RANGE", "STEERING_RANGE")]


class Calm(LinearVehicle):
    TIME_WANTED = 1.1
    DISTANCE_WANTED = 9.


def direct(ctx, count):
    """A driver reasons, with its own parameters, about any other vehicle behind any front vehicle."""
    rng = ctx.rng
    for k in range(count):
        net = W.straight_net(lanes=2, length=300., angle=float(rng.uniform(-3, 3))) if rng.rand() < .6 else W.random_env_roads(rng)[1].road.network
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        idx = W.all_indexes(net)
        i0 = idx[rng.randint(len(idx))]
        lane = W.lane_of(net, i0)

        def place(cls):
            s = float(rng.uniform(0, min(lane.length, 80)))
            return cls(road, np.asarray(lane.position(s, float(rng.normal()))), float(lane.heading_at(s)), float(rng.uniform(-2, 30)))
        p = place([LinearVehicle, AggressiveVehicle, DefensiveVehicle, Calm][rng.randint(4)])
        p.randomize_behavior()
        if p.lane_index is None:
            continue
        for _ in range(6):
            ego = place([LinearVehicle, IDMVehicle, ControlledVehicle, Vehicle, Calm, W.MDPVehicle][rng.randint(6)])
            front = [place(Vehicle), place(IDMVehicle), Obstacle(road, lane.position(float(rng.uniform(0, min(lane.length, 80))), 0.)), None][rng.randint(4)]
            if rng.rand() < .15:
                ego = p
            with ctx.guard(dict(p=W.vstate(p), ego=W.vstate(ego), front=front and W.vstate(front), cls=[type(p).__name__, type(ego).__name__])):
                if ego.lane is None or W.lane_kind(ego.lane) == "circular":
                    continue
                f = W.ref_linear_features(p, ego, front)
                ctx.close(np.asarray(p.acceleration_features(ego, front), dtype=float), f, "features", "acceleration features", tol=1e-7)
                ctx.close(float(p.acceleration(ego_vehicle=ego, front_vehicle=front)), float(np.dot(p.ACCELERATION_PARAMETERS, f)), "direct-acceleration",
                          "acceleration attributed to a vehicle", tol=1e-7)
                ctx.count("direct")
                d = 0 if front is None else W.ref_local(ego.lane, front.position)[0] - W.ref_local(ego.lane, ego.position)[0]
                ctx.count("direct_behind", int(d < 0))
                ctx.seen("direct", f, p.ACCELERATION_PARAMETERS)


def check_ranges(ctx, vs):
    for v in vs:
        a, s = np.asarray(v.ACCELERATION_PARAMETERS, dtype=float), np.asarray(v.STEERING_PARAMETERS, dtype=float)
        ctx.count("randomised")
        ctx.ok(np.all(a >= ACC_RANGE[0] - 1e-9) and np.all(a <= ACC_RANGE[1] + 1e-9), "acceleration-range", "randomised acceleration parameters out of range", got=a)
        ctx.ok(np.all(s >= STEER_RANGE[0] - 1e-9) and np.all(s <= STEER_RANGE[1] + 1e-9), "steering-range", "randomised steering parameters out of range", got=s)
        ctx.seen(a, s)


def randomise(ctx, count):
    rng = ctx.rng
    net = W.straight_net(2)
    road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
    kinds = [LinearVehicle, AggressiveVehicle, DefensiveVehicle]
    classes = {c: (np.array(c.ACCELERATION_PARAMETERS), np.array(c.STEERING_PARAMETERS), np.array(c.ACCELERATION_RANGE), np.array(c.STEERING_RANGE)) for c in kinds}
    vs, draws = [], []
    for k in range(count):
        v = kinds[rng.randint(3)](road, [20. * k, 0.], 0., 20., enable_lane_change=bool(rng.rand() < .5), timer=None if rng.rand() < .5 else float(rng.uniform(0, 5)))
        vs.append(v)
    for v in vs:
        keep = [(w, np.array(w.ACCELERATION_PARAMETERS), np.array(w.STEERING_PARAMETERS)) for w in vs[:40] if w is not v]
        v.randomize_behavior()
        check_ranges(ctx, [v])
        draws.append(np.concatenate([v.ACCELERATION_PARAMETERS, v.STEERING_PARAMETERS]))
        for w, a, s in keep:
            ctx.ok(np.array_equal(a, w.ACCELERATION_PARAMETERS) and np.array_equal(s, w.STEERING_PARAMETERS), "randomise-others",
                   "randomising one driver changed another")
    for c, (a, s, ra, rs) in classes.items():
        ctx.ok(np.array_equal(a, c.ACCELERATION_PARAMETERS) and np.array_equal(s, c.STEERING_PARAMETERS) and np.array_equal(ra, c.ACCELERATION_RANGE)
               and np.array_equal(rs, c.STEERING_RANGE), "class-parameters", "randomising drivers changed their class")
    draws = np.array(draws)
    lo, hi = np.concatenate([ACC_RANGE[0], STEER_RANGE[0]]), np.concatenate([ACC_RANGE[1], STEER_RANGE[1]])
    ctx.ok(np.all(draws.max(0) - draws.min(0) > .8 * (hi - lo)), "randomise-spread", "randomised parameters do not span their ranges", lo=draws.min(0), hi=draws.max(0))
    c = np.corrcoef(draws.T) - np.eye(5)
    ctx.ok(np.max(np.abs(c)) < .6, "randomise-independent", "randomised parameters are not drawn independently", corr=np.max(np.abs(c)))


def copies(ctx, count):
    """Copies and conversions of drivers own their data and parameters."""
    rng = ctx.rng
    for k in range(count):
        with ctx.guard(dict(k=k)):
            env = W.make("highway", {"vehicles_count": 4, "other_vehicles_type": W.TRAFFIC[rng.randint(1, 4)]}, seed=int(rng.randint(1 << 30)))
            env.step(1)
            e2 = copy.deepcopy(env)
            sizes = [Linear.sizes(v) for v in env.road.vehicles if isinstance(v, LinearVehicle)]
            for v in e2.road.vehicles:
                if isinstance(v, LinearVehicle):
                    v.randomize_behavior()
            params = [np.array(v.ACCELERATION_PARAMETERS) for v in env.road.vehicles if isinstance(v, LinearVehicle)]
            e2.step(1)
            ctx.ok(sizes == [Linear.sizes(v) for v in env.road.vehicles if isinstance(v, LinearVehicle)], "copy-data", "a copy's decisions added data to the original")
            ctx.ok(all(np.array_equal(a, v.ACCELERATION_PARAMETERS) for a, v in zip(params, [v for v in env.road.vehicles if isinstance(v, LinearVehicle)])),
                   "copy-parameters", "a copy's randomisation changed the original")
            e3 = env.change_vehicles(W.TRAFFIC[rng.randint(1, 4)])
            Linear(ctx, e3.road)
            e3.step(1)


def units(tier):
    q = tier == "quick"
    u = []
    for name, k, steps in (("highway", 5, 6), ("merge", 7, 14), ("roundabout", 6, 11), ("intersection", 3, 8), ("two-way", 6, 10), ("summon", 5, 8)):
        for j in range(1 if q else 6):
            u.append(("episodes-%s-%d" % (name, j), episodes, dict(name=name, runs=k if q else 4 * k, steps=steps if q else 20)))
    for j in range(2 if q else 8):
        u.append(("scenes-%d" % j, scenes, dict(count=200 if q else 2000)))
        u.append(("direct-%d" % j, direct, dict(count=150 if q else 2000)))
        u.append(("randomise-%d" % j, randomise, dict(count=150 if q else 600)))
    u.append(("copies", copies, dict(count=4 if q else 40)))
    return u
