"""Kinematic bicycle model: every step of every vehicle against an independent integration of its pre-state."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import Vehicle, ControlledVehicle, MDPVehicle, IDMVehicle, LinearVehicle, BicycleVehicle, Road

RULE = ("free vehicles with random states, command histories (held, replaced, overspeed in both directions, crashed), sizes and time "
        "steps, roads of self-driving vehicles and environment episodes; a case is one vehicle step with a non-zero speed or command; "
        "distinct by pre-state, command and time step")
REQUIRED = {"steps": 20000, "reverse_steps": 1000, "overspeed_steps": 300, "reverse_overspeed_steps": 300, "crashed_steps": 300,
            "turning_steps": 5000, "held_steps": 3000, "episode_steps": 2000}
ASSUMPTIONS = ["time steps up to 1 s"]


class Truck(Vehicle):
    LENGTH = 9.0
    WIDTH = 2.6


class Slow(Vehicle):
    MAX_SPEED = 12.


def pre(v):
    return (np.array(v.position, dtype=float), float(v.heading), float(v.speed), float(np.squeeze(v.action["steering"])),
            float(np.squeeze(v.action["acceleration"])), bool(v.crashed))


def expect(v, state, dt):
    (x, y), h, s, delta, a, crashed = state
    if crashed:
        delta, a = 0.0, -s
    if s > v.MAX_SPEED:
        a = min(a, v.MAX_SPEED - s)
    elif s < -v.MAX_SPEED:
        a = max(a, -v.MAX_SPEED - s)
    beta = math.atan(math.tan(delta) / 2)
    return (x + s * math.cos(h + beta) * dt, y + s * math.sin(h + beta) * dt, h + s * math.sin(beta) / (v.LENGTH / 2) * dt, s + a * dt)


def compare(ctx, v, state, dt, speed=True):
    ex, ey, eh, es = expect(v, state, dt)
    scale = 1e-9 * (1 + abs(ex) + abs(ey))
    ctx.count("steps")
    ctx.ok(abs(v.position[0] - ex) < 1e-9 + scale and abs(v.position[1] - ey) < 1e-9 + scale, "position",
           "position %s instead of %s after a step of %s" % (v.position, (ex, ey), dt), state=state, cls=type(v).__name__)
    ctx.ok(abs(v.heading - eh) < 1e-9 * (1 + abs(eh)), "heading", "heading %s instead of %s" % (v.heading, eh), state=state, dt=dt)
    if speed:
        ctx.ok(abs(v.speed - es) < 1e-9 * (1 + abs(es)), "speed", "speed %s instead of %s" % (v.speed, es), state=state, dt=dt)
    s = state[2]
    if s < 0:
        ctx.count("reverse_steps")
    if s > v.MAX_SPEED:
        ctx.count("overspeed_steps")
    if s < -v.MAX_SPEED:
        ctx.count("reverse_overspeed_steps")
    if state[5]:
        ctx.count("crashed_steps")
    elif state[3] != 0:
        ctx.count("turning_steps")
    if s != 0 or state[4] != 0:
        ctx.seen(state, dt)


def free(ctx, count):
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            break
        cls = [Vehicle, Vehicle, Truck, Slow][rng.randint(4)]
        m = cls.MAX_SPEED
        v = cls(None, rng.uniform(-1e3, 1e3, size=2), float(rng.uniform(-8, 8)), float(rng.uniform(-1.3 * m, 1.3 * m)))
        dt = float(rng.choice([1 / 5., 1 / 10., 1 / 15., 1 / 30., 1 / 60., 1.0, 0.37]))
        want = {"steering": 0.0, "acceleration": 0.0}
        top = max(abs(v.speed), m)
        amax = 0.0
        with ctx.guard(dict(k=k, cls=cls.__name__, start=W.vstate(v), dt=dt)):
            for t in range(rng.randint(5, 60)):
                r = rng.rand()
                if r < .3:
                    style = rng.randint(5)
                    want = {"steering": float(rng.uniform(-1.3, 1.3)) if style else 0.0,
                            "acceleration": float(rng.uniform(-12, 12)) if style != 1 else float(rng.choice([-12., 12.]))}
                    if style == 4:
                        # an all-zero command replaces the previous one too
                        want = {"steering": 0.0, "acceleration": 0.0}
                        ctx.count("zero_commands")
                    v.act(copy.deepcopy(want))
                elif r < .5:
                    ctx.count("held_steps")
                    v.act()
                else:
                    ctx.count("held_steps")
                if rng.rand() < .01:
                    v.crashed = True
                s = float(v.speed)
                state = (np.array(v.position), float(v.heading), s, want["steering"], want["acceleration"], bool(v.crashed))
                v.step(dt)
                compare(ctx, v, state, dt)
                amax = max(amax, abs(want["acceleration"]))
                ctx.ok(abs(v.speed) <= top + amax * dt + 1e-6, "speed-diverges", "speed %s exceeds %s" % (v.speed, top))
                if v.crashed or s > m or s < -m:
                    # the limited command replaces the request until a new one is given
                    want = {k_: float(np.squeeze(x)) for k_, x in v.action.items()}
                    if v.crashed:
                        ctx.ok(want["steering"] == 0 and abs(want["acceleration"]) <= abs(s) + 1e-9, "crashed-command", str(want))
            if k < 2:
                ctx.sample(cls=cls.__name__, dt=dt, end=W.vstate(v))


def watch(ctx, road):
    """Compare every step of every kinematic vehicle of a road."""
    mem = {}

    def before(dt):
        mem.clear()
        for v in road.vehicles:
            if not isinstance(v, BicycleVehicle) and hasattr(v, "action"):
                mem[id(v)] = (v, pre(v))

    def after(dt):
        # a collision changes the speeds of the two that collide, one of which may have been a wreck already
        collision = any(v.crashed and not st[5] for v, st in mem.values())
        for v, st in mem.values():
            if type(v).__name__ in ("IntervalVehicle", "MultipleModelVehicle", "RegressionVehicle"):
                continue
            ctx.count("episode_steps")
            compare(ctx, v, st, dt, speed=v.crashed == st[5] and not (v.crashed and collision))

    W.tap(road, before_step=before, after_step=after)


def traffic(ctx, count):
    rng = ctx.rng
    for k in range(count):
        net = W.straight_net(lanes=3, length=400, angle=float(rng.uniform(-3, 3)))
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        for i in range(6):
            cls = [IDMVehicle, LinearVehicle, MDPVehicle, ControlledVehicle, Vehicle, W.AggressiveVehicle][rng.randint(6)]
            lane = net.get_lane(("0", "1", rng.randint(3)))
            s, r = rng.uniform(0, 300), rng.uniform(-2, 2)
            v = cls(road, lane.position(s, r), lane.heading + float(rng.uniform(-.5, .5)), float(rng.uniform(-3, 45)))
            road.vehicles.append(v)
        with ctx.guard(dict(k=k, vehicles=[W.vstate(v) for v in road.vehicles])):
            watch(ctx, road)
            dt = 1 / float(rng.choice([5, 10, 15, 30]))
            for t in range(40):
                for v in road.vehicles:
                    if isinstance(v, MDPVehicle) and rng.rand() < .2:
                        v.act(["FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT", "IDLE"][rng.randint(5)])
                road.act()
                road.step(dt)


def episodes(ctx, name, count, cfg=None):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed)
            pol = W.Policy(rng)
            watch(ctx, env.road)
            for t in range(15):
                _, _, done, _ = env.step(pol(env.action_space))
                if done and t > 5:
                    break


def units(tier):
    k = 6 if tier == "thorough" else 1
    out = []
    for i in range(6 * k):
        out.append(("free-%d" % i, free, dict(count=250)))
    for i in range(4 * k):
        out.append(("traffic-%d" % i, traffic, dict(count=6)))
    for name in ("highway", "merge", "roundabout", "intersection", "two-way", "summon", "parking", "multi-intersection"):
        for i in range(k):
            out.append(("episodes-%s-%d" % (name, i), episodes, dict(name=name, count=2)))
    return out
