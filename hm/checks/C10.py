"""Collisions: exact rectangle overlap at every road step, and the documented effects."""
import math

import numpy as np

from hm import world as W
from hm.world import Vehicle, IDMVehicle, MDPVehicle, BicycleVehicle, Obstacle, Landmark, Road

RULE = ("pairs of vehicles/obstacles/landmarks at random relative poses concentrated around contact (boundary within 1e-6 skipped), "
        "random roads of mixed vehicles driven into each other, and environment episodes; a case is one pair or one road step in "
        "which at least one pair is closer than 8 m; distinct by relative pose and flags")
REQUIRED = {"pairs_overlapping": 2000, "pairs_disjoint": 2000, "road_steps": 2000, "crash_events": 120, "obstacle_hits": 40,
            "landmark_hits": 40, "crashed_steps": 500, "disabled_pairs": 100, "far_first": 15, "standing": 100}
EPS = 1e-6


class Truck(Vehicle):
    LENGTH = 9.0
    WIDTH = 2.6


class Bike(Vehicle):
    LENGTH = 2.0
    WIDTH = 0.8


class BigObstacle(Obstacle):
    LENGTH = 12.0
    WIDTH = 3.0


def contact_pose(rng, a, lb, wb):
    """A pose for b, mostly close to contact with a."""
    h = rng.uniform(-7, 7) if rng.rand() < .7 else float(a.heading) + rng.choice([0, math.pi / 2, math.pi, math.pi / 4, 0.02])
    ang = rng.uniform(-math.pi, math.pi)
    ref = W.body(a)
    # distance at which the gap along direction ang vanishes (bisection on the reference gap)
    lo, hi = 0.0, 40.0
    for _ in range(40):
        m = (lo + hi) / 2
        p = (ref[0][0] + m * math.cos(ang), ref[0][1] + m * math.sin(ang))
        if W.rect_gap(ref, (p, .9 * lb, .9 * wb, h)) > 0:
            hi = m
        else:
            lo = m
    r = rng.rand()
    if r < .35:
        d = hi + rng.uniform(1e-4, 0.3)
    elif r < .7:
        d = max(0, lo - rng.uniform(1e-4, 0.3))
    elif r < .85:
        d = rng.uniform(0, hi)
    else:
        d = hi * rng.uniform(1, 2.2)
    return np.array([ref[0][0] + d * math.cos(ang), ref[0][1] + d * math.sin(ang)]), h


def place(rng, cls, road=None):
    pos = rng.uniform(-1000, 1000, size=2)
    return cls(road, pos, float(rng.uniform(-7, 7)), float(rng.uniform(-20, 40)))


def pairs(ctx, count, kinds):
    rng = ctx.rng
    for i in range(count):
        if ctx.out_of_time():
            break
        ca, cb = kinds[rng.randint(len(kinds))], kinds[rng.randint(len(kinds))]
        a = place(rng, ca)
        pos, h = contact_pose(rng, a, cb.LENGTH, cb.WIDTH)
        b = cb(None, pos, h, float(rng.uniform(-20, 40)))
        gap = W.rect_gap(W.body(a), W.body(b))
        if abs(gap) < EPS:
            continue
        disabled = rng.rand() < .05
        if disabled:
            (a if rng.rand() < .5 else b).COLLISIONS_ENABLED = False
        pre_b = rng.rand() < .1
        if pre_b:
            b.crashed = True
        if rng.rand() < .15:
            a.speed = 0.
            b.speed = 0. if rng.rand() < .7 else b.speed
            ctx.count("standing", int(a.speed == b.speed and gap < 0))
        sa, sb = a.speed, b.speed
        with ctx.guard(dict(a=W.vstate(a), b=W.vstate(b), size_a=[a.LENGTH, a.WIDTH], size_b=[b.LENGTH, b.WIDTH], gap=gap)):
            # a road checks every ordered pair
            a.check_collision(b)
            b.check_collision(a)
            ctx.seen(a.position - b.position, a.heading, b.heading, ca.__name__, cb.__name__)
            if disabled:
                ctx.count("disabled_pairs")
                ctx.ok(not a.crashed and b.crashed == pre_b and a.speed == sa and b.speed == sb, "disabled-crash",
                       "a vehicle with collisions disabled crashed")
            elif gap < 0:
                ctx.count("pairs_overlapping")
                ctx.ok(a.crashed and b.crashed, "missed-collision", "bodies overlap (gap %.4f) but crash flags are %s %s" % (gap, a.crashed, b.crashed))
                if a.crashed and b.crashed:
                    m = min(abs(sa), abs(sb))
                    ctx.ok(a.speed == b.speed and abs(abs(a.speed) - m) < 1e-9 and a.speed in (sa, sb), "impact-speed",
                           "speeds %s %s became %s %s" % (sa, sb, a.speed, b.speed))
            else:
                ctx.count("pairs_disjoint")
                ctx.ok(not a.crashed and b.crashed == pre_b and a.speed == sa and b.speed == sb, "false-collision",
                       "bodies are %.4f apart but crash flags are %s %s" % (gap, a.crashed, b.crashed))
            if i < 2:
                ctx.sample(a=W.vstate(a), b=W.vstate(b), gap=gap)


def objects(ctx, count):
    rng = ctx.rng
    for i in range(count):
        v = place(rng, [Vehicle, BicycleVehicle, Truck][rng.randint(3)])
        oc = [Obstacle, Landmark, BigObstacle][rng.randint(3)]
        pos, h = contact_pose(rng, v, oc.LENGTH, oc.WIDTH)
        o = oc(None, pos, heading=h)
        gap = W.rect_gap(W.body(v), W.body(o))
        if abs(gap) < EPS:
            continue
        sv = v.speed
        off = rng.rand() < .05 and oc is not Landmark
        if off:
            v.COLLISIONS_ENABLED = False
        with ctx.guard(dict(v=W.vstate(v), o=W.vstate(o), kind=oc.__name__, gap=gap)):
            v.check_collision(o)
            ctx.seen(v.position - o.position, v.heading, o.heading, oc.__name__)
            if oc is Landmark:
                ctx.ok(not v.crashed and v.speed == sv, "landmark-crash", "a landmark crashed a vehicle")
                ctx.ok(o.hit == (gap < 0), "landmark-hit", "landmark hit=%s with gap %.4f" % (o.hit, gap))
                ctx.count("landmark_hits", int(gap < 0))
            elif off:
                ctx.ok(not v.crashed and not o.hit and v.speed == sv, "disabled-crash", "collisions disabled but crashed on an obstacle")
            elif gap < 0:
                ctx.count("obstacle_hits")
                ctx.ok(v.crashed and o.hit, "missed-obstacle", "gap %.4f crashed=%s hit=%s" % (gap, v.crashed, o.hit))
                ctx.ok(v.speed == 0 or not v.crashed, "obstacle-speed", "speed %s after hitting an obstacle" % v.speed)
            else:
                ctx.ok(not v.crashed and not o.hit and v.speed == sv, "false-obstacle", "gap %.4f crashed=%s hit=%s" % (gap, v.crashed, o.hit))


class Monitor:
    """Watches every step of one road."""

    def __init__(self, ctx, road):
        self.ctx, self.road = ctx, road
        self.t = 0
        W.tap(road, before_step=self.before, after_step=self.after)

    def before(self, dt):
        self.pre = {}
        for v in self.road.vehicles:
            a = v.action["acceleration"] if isinstance(v.action, dict) else 0
            a = float(np.squeeze(a))
            s = float(np.squeeze(v.speed))
            if v.crashed:
                a = -s
            if s > v.MAX_SPEED:
                a = min(a, v.MAX_SPEED - s)
            elif s < -v.MAX_SPEED:
                a = max(a, -v.MAX_SPEED - s)
            self.pre[id(v)] = (v, v.crashed, s, s + a * dt, getattr(v, "is_yielding", False))
        self.hits = {id(o): o.hit for o in self.road.objects}

    def after(self, dt):
        ctx, vs = self.ctx, list(self.road.vehicles)
        ctx.count("road_steps")
        self.t += dt
        partners = {id(v): [] for v in vs}
        near = {id(v): False for v in vs}
        close = False
        pos = np.array([np.ravel(v.position)[:2] for v in vs], dtype=float).reshape(-1, 2)
        radius = [0.5 * math.hypot(.9 * v.LENGTH, .9 * v.WIDTH) for v in vs]
        for i, a in enumerate(vs):
            for j in range(i + 1, len(vs)):
                b = vs[j]
                d = math.hypot(*(pos[i] - pos[j]))
                if d < 8:
                    close = True
                if d > radius[i] + radius[j] + 1e-3:
                    continue
                gap = W.rect_gap(W.body(a), W.body(b))
                if abs(gap) < EPS:
                    near[id(a)] = near[id(b)] = True
                elif gap < 0 and a.COLLISIONS_ENABLED and b.COLLISIONS_ENABLED:
                    partners[id(a)].append(b)
                    partners[id(b)].append(a)
                    ctx.ok(a.crashed and b.crashed, "missed-collision", "overlap %.4f between %s and %s after a step, crash flags %s %s"
                           % (gap, W.vstate(a), W.vstate(b), a.crashed, b.crashed))
        for o in self.road.objects:
            for i, a in enumerate(vs):
                if math.hypot(*(pos[i] - np.ravel(o.position)[:2])) > radius[i] + math.hypot(o.LENGTH, o.WIDTH):
                    continue
                gap = W.rect_gap(W.body(a), W.body(o))
                was = self.pre.get(id(a), (None, False))[1]
                if abs(gap) < EPS:
                    near[id(a)] = True
                elif gap < 0:
                    if isinstance(o, Landmark):
                        if not was and not a.crashed:
                            ctx.count("landmark_hits")
                            ctx.ok(o.hit, "landmark-hit", "vehicle on a landmark that is not hit")
                    elif a.COLLISIONS_ENABLED:
                        partners[id(a)].append(o)
                        ctx.ok(a.crashed, "missed-obstacle", "vehicle overlaps an obstacle by %.4f and is not crashed" % -gap)
                        if not was and len(partners[id(a)]) == 1:
                            ctx.count("obstacle_hits")
                            ctx.ok(o.hit, "obstacle-hit-flag", "obstacle not marked hit")
        for v in vs:
            if id(v) not in self.pre:
                continue
            _, was, s0, s1, _ = self.pre[id(v)]
            s = float(np.squeeze(v.speed))
            if was:
                ctx.count("crashed_steps")
                ctx.ok(v.crashed, "uncrashed", "a crashed vehicle is no longer crashed")
                ctx.ok(abs(s) <= abs(s0) + 1e-9, "crashed-accelerates", "crashed vehicle goes from %s to %s" % (s0, s))
                if not partners[id(v)]:
                    ctx.close(s, s1, "crashed-braking", "a crashed vehicle must brake")
                a = getattr(v, "action", None)
                if isinstance(a, dict):
                    ctx.ok(float(np.squeeze(a["steering"])) == 0, "crashed-steers", "a crashed vehicle steers")
            elif v.crashed:
                ctx.count("crash_events")
                ctx.ok(partners[id(v)] or near[id(v)], "false-collision", "vehicle crashed without touching anything: %s" % W.vstate(v))
                # connected component of touching bodies: speeds may only be taken from it
                comp, todo, obstacle = {id(v): v}, [v], False
                while todo:
                    w = todo.pop()
                    for p in partners.get(id(w), []):
                        if not isinstance(p, Vehicle):
                            obstacle = True
                        elif id(p) not in comp:
                            comp[id(p)] = p
                            todo.append(p)
                allowed = [self.pre[k][3] for k in comp if k in self.pre] + ([0.0] if obstacle else [])
                ctx.ok(abs(s) <= abs(s1) + 1e-9 and any(abs(s - x) < 1e-6 for x in allowed), "impact-speed",
                       "speed %s after impact; before impact %s, candidates %s" % (s, s1, allowed))
                if len(comp) == 2 and not obstacle:
                    ctx.ok(abs(abs(s) - min(abs(x) for x in allowed)) < 1e-6, "impact-speed", "speed %s, candidates %s" % (s, allowed))
                elif len(comp) == 1 and obstacle:
                    ctx.ok(abs(s) < 1e-9, "obstacle-speed", "speed %s after hitting an obstacle" % s)
            else:
                # neither before nor after: collisions may not touch the speed
                if not isinstance(v, W.BicycleVehicle):
                    ctx.ok(abs(s - s1) < 1e-6 or self.pre[id(v)][4] != getattr(v, "is_yielding", False), "speed-changed",
                           "speed of an intact vehicle went to %s instead of %s" % (s, s1))
        if close:
            ctx.seen([[float(np.ravel(v.position)[0]), float(np.ravel(v.position)[1]), v.crashed] for v in vs])


def melee(ctx, count):
    """Roads of mixed vehicles with arbitrary persistent actions: contacts at all angles, pile-ups, reversing."""
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            break
        net = W.straight_net(lanes=3, length=200, angle=rng.uniform(-3, 3))
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        n = rng.randint(2, 12)
        spread = rng.choice([12, 25, 50])
        center = rng.uniform(-50, 50, size=2)
        if rng.rand() < .35:      # far away from everybody else
            center = center + rng.uniform(-1, 1, size=2) * 10 ** rng.uniform(2, 3.7)
            road.vehicles.append(Vehicle(road, rng.uniform(-50, 50, size=2), float(rng.uniform(-3, 3)), float(rng.uniform(0, 20))))
            ctx.count("far_first")
        for _ in range(n):
            c = [Vehicle, Vehicle, BicycleVehicle, Truck, Bike, IDMVehicle, MDPVehicle][rng.randint(7)]
            v = c(road, center + rng.uniform(-spread, spread, size=2), float(rng.uniform(-3.2, 3.2)), float(rng.uniform(-10, 25)))
            if c not in (IDMVehicle, MDPVehicle):
                v.act({"steering": float(rng.uniform(-.6, .6)), "acceleration": float(rng.uniform(-4, 5))})
            if rng.rand() < .05:
                v.COLLISIONS_ENABLED = False
            road.vehicles.append(v)
        for _ in range(rng.randint(0, 4)):
            oc = [Obstacle, Landmark, BigObstacle][rng.randint(3)]
            road.objects.append(oc(road, center + rng.uniform(-spread, spread, size=2), heading=float(rng.uniform(-3, 3))))
        with ctx.guard(dict(scene=k, vehicles=[W.vstate(v) for v in road.vehicles], objects=[W.vstate(o) for o in road.objects])):
            Monitor(ctx, road)
            dt = 1 / float(rng.choice([10, 15, 30]))
            for t in range(40):
                road.act()
                if rng.rand() < .3:
                    v = road.vehicles[rng.randint(len(road.vehicles))]
                    if type(v) in (Vehicle, BicycleVehicle, Truck, Bike):
                        v.act({"steering": float(rng.uniform(-.6, .6)), "acceleration": float(rng.uniform(-4, 5))})
                road.step(dt)
            # a crashed vehicle ends up standing still
            crashed = [v for v in road.vehicles if v.crashed]
            if crashed:
                for t in range(int(8 / dt)):
                    road.act()
                    road.step(dt)
                for v in crashed:
                    ctx.count("stops")
                    ctx.ok(abs(float(np.squeeze(v.speed))) < 0.05 * 40, "crashed-never-stops", "crashed vehicle still at %s m/s after 8 s" % v.speed)


def episodes(ctx, name, count, cfg=None):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed)
            pol = W.Policy(rng)
            Monitor(ctx, env.road)
            for t in range(12):
                action = pol(env.action_space)
                _, _, done, _ = env.step(action)
                if done and t > 3:
                    # keep simulating after the crash: the wreck must obey the crash rules
                    for _ in range(15):
                        env.road.act()
                        env.road.step(1 / env.config["simulation_frequency"])
                    break


def units(tier):
    th = tier == "thorough"
    k = 6 if th else 1
    base = [Vehicle]
    mixed = [Vehicle, BicycleVehicle, Truck, Bike]
    out = []
    for i in range(4 * k):
        out.append(("pairs-same-%d" % i, pairs, dict(count=1500, kinds=base)))
        out.append(("pairs-mixed-%d" % i, pairs, dict(count=1500, kinds=mixed)))
    for i in range(2 * k):
        out.append(("objects-%d" % i, objects, dict(count=1200)))
    for i in range(6 * k):
        out.append(("melee-%d" % i, melee, dict(count=12)))
    for name in ("highway", "merge", "roundabout", "intersection", "two-way", "summon", "parking", "multi-intersection"):
        cfg = {"vehicles_count": 12, "vehicles_density": 3, "lanes_count": 2} if name == "highway" else \
            {"controlled_vehicles": 3} if name == "parking" else {}
        for i in range(k):
            out.append(("episodes-%s-%d" % (name, i), episodes, dict(name=name, count=3, cfg=cfg)))
    return out
