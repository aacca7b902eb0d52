"""Meta-actions: effect of every decision on target lanes and speeds, recomputed; availability and action tables."""
import copy

import numpy as np

from hm import world as W
from hm.world import Road, ControlledVehicle, MDPVehicle, IDMVehicle
from hm.checks.C16 import marginal

RULE = ("every decision of every agent in single- and multi-agent episodes with full, lateral-only and longitudinal-only action sets; direct "
        "meta-actions on vehicles in random poses, target lanes, speeds (also out of range) and speed sets, on straight, chained and the "
        "environments' networks with forbidden lanes; available actions in every visited state; a case is one decision or availability query; "
        "distinct by pose, target lane, speed and action")
REQUIRED = {"decisions": 2000, "lane_done": 200, "lane_noop_edge": 100, "lane_noop_forbidden": 40, "lane_noop_unreachable": 60, "faster": 300,
            "slower": 300, "speed_edge": 200, "idle": 300, "agents_multi": 70, "held_frames": 2000, "availability": 1500, "avail_changing_lane": 200,
            "custom_sets": 300, "own_speed_set": 20, "avail_crashed": 20}
TABLES = {(True, True): ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"], (True, False): ["SLOWER", "IDLE", "FASTER"],
          (False, True): ["LANE_LEFT", "IDLE", "LANE_RIGHT"]}


def speed_set(v):
    n = v.SPEED_COUNT
    return [v.SPEED_MIN + i * (v.SPEED_MAX - v.SPEED_MIN) / (n - 1) for i in range(n)] if n > 1 else [v.SPEED_MIN]


def nearest(speeds, x):
    d = [abs(s - x) for s in speeds]
    i = int(np.argmin(d))
    tie = any(abs(d[j] - d[i]) < 1e-9 for j in range(len(d)) if j != i)
    return i, tie


def successors(net, t0, route, p):
    """Possible target lanes after following the road at the start of a decision, or None when marginal."""
    lane = W.lane_of(net, t0)
    s, L = W.ref_local(lane, p)[0], W.ref_length(lane)
    if abs(s - (L - 2.5)) < 1e-6 or marginal(lane, p, 1.):
        return None
    if s < L - 2.5:
        return [t0]
    out = list(net.graph.get(t0[1], {}))
    if not out:
        return [t0]
    r = [x for x in (route or [])]
    if r and tuple(r[0])[:2] == t0[:2]:
        r = r[1:]
    nexts = [r[0][1]] if r and r[0][0] == t0[1] else out
    res = []
    for o in nexts:
        n0, n1 = len(net.graph[t0[0]][t0[1]]), len(net.graph[t0[1]][o])
        if n0 == n1:
            res.append((t0[1], o, t0[2]))
        else:
            d = sorted((W.ref_lane_distance(W.lane_of(net, (t0[1], o, i)), p), i) for i in range(n1))
            if n1 > 1 and d[1][0] - d[0][0] < 1e-6:
                return None
            res.append((t0[1], o, d[0][1]))
    return res


def after_lane_action(ctx, net, t, action, p, count=True):
    """Target lane after a lane meta-action, None when marginal."""
    if action not in ("LANE_LEFT", "LANE_RIGHT"):
        return t
    n = len(net.graph[t[0]][t[1]])
    i = t[2] + (1 if action == "LANE_RIGHT" else -1)
    if not 0 <= i < n:
        if count:
            ctx.count("lane_noop_edge")
        return t
    new = (t[0], t[1], i)
    lane = W.lane_of(net, new)
    if marginal(lane, p, 1.):
        return None
    reach, margin = W.ref_reachable(lane, p)
    if margin < 1e-6:
        return None
    if count:
        ctx.count("lane_done" if reach else "lane_noop_forbidden" if lane.forbidden else "lane_noop_unreachable")
    return new if reach else t


def pre(v):
    return dict(t=tuple(v.target_lane_index), route=None if v.route is None else [tuple(r) for r in v.route], p=np.array(v.position), speed=float(v.speed),
                target=float(v.target_speed), index=getattr(v, "speed_index", None))


def verify(ctx, v, s, action):
    """Decision `action` was applied once to MDP vehicle v, in state s before."""
    net = v.road.network
    ctx.count("decisions")
    ctx.seen(s["t"], s["p"], s["speed"], s["target"], action)
    with ctx.guard(dict(before=s, after=W.vstate(v), action=action)):
        speeds = speed_set(v)
        if action in ("FASTER", "SLOWER"):
            i, tie = nearest(speeds, s["speed"])
            ctx.count(action.lower())
            if not tie:
                j = i + (1 if action == "FASTER" else -1)
                ctx.count("speed_edge", int(not 0 <= j < len(speeds)))
                j = min(max(j, 0), len(speeds) - 1)
                ctx.ok(int(v.speed_index) == j, "speed-index", "speed meta-action does not select the neighbouring speed", got=v.speed_index, expected=j)
                ctx.close(float(v.target_speed), speeds[j], "speed-target", "target speed is not the selected speed")
        else:
            ctx.count("idle", int(action == "IDLE" or action is None))
            ctx.ok(float(v.target_speed) == s["target"] and getattr(v, "speed_index", None) == s["index"], "speed-untouched",
                   "target speed changed by an action that is not a speed change", action=action)
        ctx.ok(any(abs(float(v.target_speed) - x) < 1e-9 for x in speeds), "speed-set", "target speed is not one of the discrete set")
        cands = successors(net, s["t"], s["route"], s["p"])
        if cands is None:
            return
        multi = len(cands) > 1
        allowed = [after_lane_action(ctx, net, c, action, s["p"], count=not multi) for c in cands]
        if None in allowed:
            return
        got = tuple(v.target_lane_index)
        got = (got[0], got[1], int(got[2]))
        ctx.ok(got in allowed, "lane-target", "target lane after %s is not the documented one" % action, before=s["t"], got=got, allowed=allowed)


def available(ctx, env):
    v, at, net = env.vehicle, env.action_type, env.road.network
    p, t = v.position, tuple(v.target_lane_index)
    names = ["IDLE"]
    if at.lateral:
        for a in ("LANE_LEFT", "LANE_RIGHT"):
            new = after_lane_action(ctx, net, t, a, p, count=False)
            if new is None:
                return
            if new != t:
                names.append(a)
    speeds = speed_set(v)
    if at.longitudinal:
        if v.target_speed < speeds[-1] - 1e-9:
            names.append("FASTER")
        if v.target_speed > speeds[0] + 1e-9:
            names.append("SLOWER")
    table = TABLES[(at.longitudinal, at.lateral)]
    got = env.get_available_actions()
    ctx.count("availability")
    ctx.count("avail_changing_lane", int(t[2] != tuple(v.lane_index)[2]))
    with ctx.guard(dict(v=W.vstate(v), table=table)):
        ctx.ok(len(set(got)) == len(got) and all(0 <= a < len(table) for a in got), "availability-form", "duplicate or invalid available actions", got=got)
        ctx.ok(sorted(table[a] for a in got) == sorted(names), "availability", "available actions are not those that can be made",
               got=[table[a] for a in got], expected=names)


class Decisions:
    """Taps one environment: at the first frame of a step every agent shows the effect of its own action, other frames none."""

    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        self.actions = None
        W.tap(env.road, before_act=self.before)

    def begin(self, names):
        self.names, self.frame = names, 0
        self.states = [(v, pre(v)) for v in self.env.road.vehicles if isinstance(v, ControlledVehicle)]

    def before(self):
        """Called by every road.act: the agents' decisions have been taken, nobody else acted yet."""
        ctx = self.ctx
        agents = self.env.controlled_vehicles
        if self.frame == 0:
            ctx.count("agents_multi", int(len(agents) > 1))
            for v, s in self.states:
                k = next((i for i, w in enumerate(agents) if w is v), None)
                if k is not None:
                    verify(ctx, v, s, self.names[k])
                else:
                    ctx.ok(tuple(v.target_lane_index) == s["t"] and float(v.target_speed) == s["target"], "bystander",
                           "an agent's action changed the targets of another vehicle", vehicle=W.vstate(v))
        else:
            for v in agents:
                ctx.count("held_frames")
                last = self.held[id(v)]
                ctx.ok(float(v.target_speed) == last[0], "held-speed", "target speed of an agent changed between decisions", before=last[0],
                       after=v.target_speed)
                allowed = successors(self.env.road.network, last[1]["t"], last[1]["route"], last[1]["p"])
                if allowed is not None:
                    ctx.ok(tuple(v.target_lane_index) in allowed + [last[1]["t"]], "held-lane", "target lane of an agent changed between decisions",
                           before=last[1]["t"], after=v.target_lane_index)
        self.held = {id(v): (float(v.target_speed), pre(v)) for v in agents}
        self.frame += 1


def episodes(ctx, name, runs, steps):
    rng = ctx.rng
    done = tries = 0
    while done < runs and tries < 20 * runs and not ctx.out_of_time():
        tries += 1
        cfg = W.random_env_config(rng, name)
        act = cfg["action"]["action_config"] if cfg["action"]["type"] == "MultiAgentAction" else cfg["action"]
        if act["type"] != "DiscreteMetaAction":
            continue
        done += 1
        with ctx.guard(dict(env=name, config=cfg, run=done)):
            env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
            multi = cfg["action"]["type"] == "MultiAgentAction"
            table = TABLES[(act.get("longitudinal", True), act.get("lateral", True))]
            mon = Decisions(ctx, env)
            for t in range(steps):
                if not multi:
                    available(ctx, env)
                a = W.sample_action(env.action_space, rng)
                mon.begin([table[x] for x in a] if multi else [table[a]])
                if np.all(env.step(a)[2]):
                    break
            if not multi:      # after the end, and after a collision
                available(ctx, env)
                if rng.rand() < .5:
                    env.vehicle.crashed = True
                    available(ctx, env)
                    ctx.count("avail_crashed")


def random_net(rng):
    r = rng.rand()
    if r < .5:
        n = int(rng.randint(1, 6))
        forb = tuple(i for i in range(n) if rng.rand() < .25)
        return W.straight_net(lanes=n, length=300., angle=float(rng.uniform(-3, 3)), forbidden=forb)
    return W.chain_net(rng) if r < .7 else W.random_env_roads(rng)[1].road.network


def direct(ctx, count):
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            return
        net = random_net(rng)
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        idx = W.all_indexes(net)
        for _ in range(30):
            i = tuple(idx[rng.randint(len(idx))])
            lane = W.lane_of(net, i)
            p = np.asarray(lane.position(float(rng.uniform(-6, lane.length + 6)), float(rng.normal() * rng.choice([.3, 2, 6]))))

            class Own(MDPVehicle):
                SPEED_MIN = float(rng.choice([0, 5, 20]))
                SPEED_MAX = SPEED_MIN + float(rng.choice([5, 10, 17]))
                SPEED_COUNT = int(rng.choice([2, 3, 5, 8]))
            custom = rng.rand() < .6
            cls = Own if custom else MDPVehicle
            sp = float(rng.uniform(-5, 45)) if rng.rand() < .3 else float(rng.uniform(cls.SPEED_MIN - 2, cls.SPEED_MAX + 2))
            v = cls(road, p, lane.heading_at(0) + float(rng.normal() * .3), sp, target_lane_index=i,
                    target_speed=float(rng.uniform(cls.SPEED_MIN - 3, cls.SPEED_MAX + 3)))
            if rng.rand() < .4:
                v.plan_route_to(idx[rng.randint(len(idx))][1])
            road.vehicles = [v]
            if custom:
                ctx.count("custom_sets")
            speeds = speed_set(v)
            for j, s in enumerate(speeds):
                ctx.close(v.index_to_speed(j), s, "index-to-speed", "index does not give the speed of the set")
                ctx.ok(int(v.speed_to_index(s + float(rng.uniform(-.4, .4)) * (speeds[1] - speeds[0]))) == j, "speed-to-index",
                       "speed does not give the index of the nearest speed of the set", speed=s, set=speeds)
            for _ in range(2):
                s = pre(v)
                a = ["LANE_LEFT", "LANE_RIGHT", "FASTER", "SLOWER", "IDLE", None][rng.randint(6)]
                v.act(a)
                verify(ctx, v, s, a)


def plain_controlled(ctx, count):
    """The lane meta-actions of plain controlled vehicles, and +-5 m/s speed changes."""
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            return
        net = random_net(rng)
        road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
        idx = W.all_indexes(net)
        for _ in range(20):
            i = tuple(idx[rng.randint(len(idx))])
            lane = W.lane_of(net, i)
            p = np.asarray(lane.position(float(rng.uniform(0, max(lane.length - 3, .5))), float(rng.normal() * 2)))
            v = ControlledVehicle(road, p, lane.heading_at(0), float(rng.uniform(0, 30)), target_lane_index=i, target_speed=float(rng.uniform(0, 30)))
            s = pre(v)
            a = ["LANE_LEFT", "LANE_RIGHT", "FASTER", "SLOWER", "IDLE"][rng.randint(5)]
            v.act(a)
            cands = successors(net, s["t"], s["route"], s["p"])
            if cands is None:
                continue
            allowed = [after_lane_action(ctx, net, c, a, s["p"], count=len(cands) == 1) for c in cands]
            if None in allowed:
                continue
            with ctx.guard(dict(before=s, action=a)):
                ctx.seen(i, p, a)
                ctx.ok(tuple(v.target_lane_index) in allowed, "lane-target", "target lane after %s is not the documented one" % a, got=v.target_lane_index,
                       allowed=allowed)
                d = {"FASTER": 5., "SLOWER": -5.}.get(a, 0.)
                ctx.close(v.target_speed, s["target"] + d, "controlled-speed", "target speed after %s" % a)


def poked(ctx, count):
    """Availability in arbitrary states of the ego: poses, target lanes, speeds, forbidden lanes, action sets."""
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            return
        name = ["highway", "merge", "two-way", "roundabout"][rng.randint(4)]
        act = {"type": "DiscreteMetaAction"}
        r = rng.rand()
        if r < .4:
            act["lateral" if r < .2 else "longitudinal"] = False
        cfg = {"action": act}
        if name == "highway":
            cfg.update(vehicles_count=0, lanes_count=int(rng.randint(1, 6)))
        env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
        v, net = env.vehicle, env.road.network
        idx = W.all_indexes(net)
        if rng.rand() < .4:     # as the intersection does
            v.SPEED_COUNT, v.SPEED_MIN = int(rng.choice([2, 4, 5, 7])), float(rng.choice([0, 5, 20]))
            v.SPEED_MAX = v.SPEED_MIN + float(rng.choice([6, 20]))
            ctx.count("own_speed_set")
        for _ in range(25):
            i = tuple(idx[rng.randint(len(idx))])
            lane = W.lane_of(net, i)
            if rng.rand() < .3:
                lane.forbidden = bool(rng.rand() < .5)
            v.position = np.asarray(lane.position(float(rng.uniform(-6, min(lane.length, 400) + 6)), float(rng.normal() * rng.choice([.3, 3, 6]))), dtype=float)
            v.heading = float(lane.heading_at(0))
            v.on_state_update()
            v.target_lane_index = i
            v.speed_index = int(rng.randint(v.SPEED_COUNT))
            v.target_speed = speed_set(v)[v.speed_index]
            v.speed = float(rng.uniform(0, 35))
            with ctx.guard(dict(env=name, config=cfg, k=k)):
                available(ctx, env)
            ctx.seen(name, i, v.position, v.speed_index, act)


def unavailable_idle(ctx):
    """'Taking an unavailable action is equivalent to taking the IDLE action', in the states of a lane-change and of a speed change."""
    env = W.make("highway", {"vehicles_count": 0, "lanes_count": 3}, seed=1)
    for speed in (20., 25., 30.):
        for index in (0, 1, 2):
            e = copy.deepcopy(env)
            v = e.vehicle
            v.speed, v.speed_index, v.target_speed = speed, index, 20. + 5 * index
            for a in sorted(set(range(5)) - set(e.get_available_actions())):
                s = pre(v)
                e2 = copy.deepcopy(e)
                e2.action_type.act(a)
                after = pre(e2.vehicle)
                name = TABLES[(True, True)][a]
                ctx.seen(speed, index, name)
                ctx.ok(after["target"] == s["target"] and after["t"] == s["t"], "unavailable-not-idle:%s:speed=%g:target=%g" % (name, speed, s["target"]),
                       "unavailable %s at speed %g with target %g changes the target" % (name, speed, s["target"]), before=s, after=after)


def units(tier):
    q = tier == "quick"
    u = []
    for name, k, steps in (("highway", 5, 8), ("merge", 6, 14), ("roundabout", 6, 11), ("intersection", 4, 9), ("multi-intersection", 5, 9), ("two-way", 6, 12)):
        for j in range(1 if q else 6):
            u.append(("episodes-%s-%d" % (name, j), episodes, dict(name=name, runs=4 * k if q else 10 * k, steps=steps if q else 20)))
    for j in range(2 if q else 8):
        u.append(("direct-%d" % j, direct, dict(count=60 if q else 500)))
        u.append(("poked-%d" % j, poked, dict(count=50 if q else 400)))
        u.append(("plain-%d" % j, plain_controlled, dict(count=40 if q else 400)))
    u.append(("unavailable-idle", unavailable_idle, {}))
    return u
